------------------------------- MODULE Modes -------------------------------
(* Mode letters, sets of modes, the typed mode tables that a server          *)
(* advertises (CHANMODES), its status prefixes (PREFIX), and the typed       *)
(* values of the other ISUPPORT tokens and of the sasl capability.           *)
EXTENDS ByteSeq, Ascii
Letters == Alpha
(* Order: alphabetical first, capitalisation second. *)
Rank(l) == IF l \in Upper THEN 2 * (l - 65) + 1 ELSE 2 * (l - 97)
RECURSIVE Ordered(_)
Ordered(S) == IF S = {} THEN << >>
              ELSE LET l == CHOOSE x \in S : \A y \in S : Rank(x) <= Rank(y)
                   IN  <<l>> \o Ordered(S \ {l})
AllLetters == Ordered(Letters)
LettersOf(s) == {b \in Range(s) : b \in Letters}
SetCmp(a, b) == IF a = b THEN "eq" ELSE IF a \subseteq b THEN "lt" ELSE IF b \subseteq a THEN "gt" ELSE "none"
----------------------------------------------------------------------------
(* Mode types: a map from letters to one of A, B, C, D, kept as four         *)
(* disjoint sets.                                                            *)
NoTypes == <<{}, {}, {}, {}>>
TypeIdx(t) == CASE t = "A" -> 1 [] t = "B" -> 2 [] t = "C" -> 3 [] t = "D" -> 4 [] t = "S" -> 5
FromSet(s, t) == [j \in 1..4 |-> IF j = TypeIdx(t) THEN s ELSE {}]
(* Letters claimed by more than one set belong to none, and are returned. *)
Overlap(ss) == {l \in UNION {ss[j] : j \in 1..4} : Cardinality({j \in 1..4 : l \in ss[j]}) > 1}
FromSets(ss) == [t |-> [j \in 1..4 |-> ss[j] \ Overlap(ss)], over |-> Overlap(ss)]
ParseTypes(s) ==
  LET f == SplitOn(s, 44)
      field(j) == IF j <= Len(f) THEN LettersOf(f[j]) ELSE {}
      r == FromSets(<<field(1), field(2), field(3), field(4)>>)
  IN  [t |-> r.t, over |-> r.over, rest |-> IF Len(f) > 4 THEN Join(From(f, 5), <<44>>) ELSE << >>]
GetType(t, l) ==
  IF l \in t[1] THEN "A" ELSE IF l \in t[2] THEN "B" ELSE IF l \in t[3] THEN "C" ELSE IF l \in t[4] THEN "D" ELSE "-"
Assign(t, S, ty) == [j \in 1..4 |-> IF j = TypeIdx(ty) THEN t[j] \cup S ELSE t[j] \ S]
ShowTypes(t) == Join(<<Ordered(t[1]), Ordered(t[2]), Ordered(t[3]), Ordered(t[4])>>, <<44>>)
NeedsArgSet(ty) == ty # "D"
NeedsArgUnset(ty) == ty \in {"A", "B", "S"}
ListLike(ty) == ty \in {"A", "S"}
----------------------------------------------------------------------------
(* PREFIX: "(modes)prefixes".  The k-th mode has the k-th prefix, where the  *)
(* prefixes end at the first that is not ASCII; things that are not mode     *)
(* letters are skipped, with their prefix.  A letter or a prefix that is     *)
(* listed twice makes the value invalid.  0 stands for no prefix.            *)
ParseStatus(s) ==
  LET close == FirstIn(s, {41}, 2)
  IN  IF s = << >> THEN [ok |-> FALSE]
      ELSE IF s[1] # 40 \/ close > Len(s) THEN [ok |-> FALSE]
      ELSE LET modes == SubSeq(s, 2, close - 1)
               pf == From(s, close + 1)
               stop == FirstIn(pf, 128..255, 1) - 1
               ks == {k \in 1..Len(modes) : modes[k] \in Letters}
               pre(k) == IF k <= stop THEN pf[k] ELSE 0
               dup == \E a, b \in ks : a # b /\ (modes[a] = modes[b] \/ (pre(a) # 0 /\ pre(a) = pre(b)))
           IN  IF dup THEN [ok |-> FALSE]
               ELSE [ok |-> TRUE, map |-> {<<modes[k], pre(k)>> : k \in ks}]
PrefixOf(m, l) == LET h == {x \in m : x[1] = l} IN IF h = {} THEN -1 ELSE (CHOOSE x \in h : TRUE)[2]
ModeOf(m, p) == LET h == {x \in m : x[2] = p} IN IF h = {} THEN 0 ELSE (CHOOSE x \in h : TRUE)[1]
(* What a server's channel modes are: a status mode is one even if it is     *)
(* also listed in CHANMODES; an invalid PREFIX is as none.  Arguments are    *)
(* << >> (not advertised) or <<value>>.                                      *)
ChanMode(cm, px, l) ==
  LET st == IF px = << >> THEN [ok |-> FALSE] ELSE ParseStatus(px[1])
  IN  IF st.ok /\ (IF st.ok THEN PrefixOf(st.map, l) # -1 ELSE FALSE) THEN "S"
      ELSE IF cm = << >> THEN "-" ELSE GetType(ParseTypes(cm[1]).t, l)
----------------------------------------------------------------------------
(* Typed token values.  The allowed answers are a set, as a few inputs that  *)
(* no server sends are deliberately left open.                               *)
err == [k |-> "err"]
Val(v) == [k |-> "ok", v |-> v]
Unit == {"ETRACE", "KNOCK", "SAFELIST", "UTF8ONLY", "WHOX"}
Num16 == {"AWAYLEN", "CHANNELLEN", "HOSTLEN", "KICKLEN", "MODES", "NICKLEN", "TOPICLEN", "USERLEN"}
Num32 == {"MONITOR", "SILENCE"}
ModeTok == {"BOT", "CALLERID", "EXCEPTS", "INVEX"}
DefaultMode(t) == CASE t = "CALLERID" -> <<103>> [] t = "EXCEPTS" -> <<101>> [] t = "INVEX" -> <<73>> [] OTHER -> << >>
b65535 == B("65535")
b4294967295 == B("4294967295")
NoZeros(s) == From(s, FirstNotIn(s, {48}, 1))
NumLE(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ ~LexLess(b, a))
(* Positive decimal numbers up to a bound; numbers are compared as text. *)
Number(s, bound) ==
  LET plus == s # << >> /\ Head(s) = 43
      d == IF plus THEN Tail(s) ELSE s
      n == NoZeros(d)
      good == d # << >> /\ Range(d) \subseteq Digit /\ n # << >> /\ NumLE(n, bound)
  IN  IF ~good THEN {err} ELSE IF plus THEN {Val(n), err} ELSE {Val(n)}
ModeValue(t, s) ==
  IF s = << >> THEN IF DefaultMode(t) = << >> THEN {err} ELSE {Val(DefaultMode(t))}
  ELSE IF Head(s) \notin Letters THEN {err}
  ELSE IF Len(s) = 1 THEN {Val(s)} ELSE {Val(<<Head(s)>>), err}
RECURSIVE SortBytes(_)
SortBytes(S) == IF S = {} THEN << >>
                ELSE LET a == CHOOSE x \in S : \A y \in S : ~LexLess(y, x) IN <<a>> \o SortBytes(S \ {a})
Mechs(s) == SortBytes({ToUpper(f) : f \in {x \in Range(SplitOn(s, 44)) : x # << >>}})
StatusText(s) == LET p == ParseStatus(s) IN IF p.ok THEN {Val(p.map)} ELSE {err}
TokenValues(tok, s) ==
  IF tok \in Unit THEN {Val(<< >>)}
  ELSE IF tok \in Num16 THEN Number(s, b65535)
  ELSE IF tok \in Num32 THEN IF s = << >> THEN {Val(<< >>)} ELSE Number(s, b4294967295)
  ELSE IF tok \in ModeTok THEN ModeValue(tok, s)
  ELSE IF tok = "NETWORK" THEN {Val(s)}
  ELSE IF tok \in {"CHANMODES", "USERMODES"} THEN {Val(ShowTypes(ParseTypes(s).t))}
  ELSE IF tok = "sasl" THEN {Val(Mechs(s))}
  ELSE {}
----------------------------------------------------------------------------
(* Histories of set and type-table operations on three sets and one table.   *)
MInit == [s |-> <<{}, {}, {}>>, t |-> NoTypes]
MdRes(st, r) == [st |-> st, r |-> r]
MdStep(st, o) ==
  CASE o.k = "set"   -> MdRes([st EXCEPT !.s[o.i] = @ \cup {o.l}], o.l \notin st.s[o.i])
    [] o.k = "unset" -> MdRes([st EXCEPT !.s[o.i] = @ \ {o.l}], o.l \in st.s[o.i])
    [] o.k = "with"  -> MdRes([st EXCEPT !.s[o.i] = st.s[o.j] \cup {o.l}], TRUE)
    [] o.k = "clear" -> MdRes([st EXCEPT !.s[o.i] = {}], TRUE)
    [] o.k = "from"  -> MdRes([st EXCEPT !.s[o.i] = LettersOf(o.b)], TRUE)
    [] o.k = "union" -> MdRes([st EXCEPT !.s[o.i] = st.s[o.i] \cup st.s[o.j]], TRUE)
    [] o.k = "inter" -> MdRes([st EXCEPT !.s[o.i] = st.s[o.i] \cap st.s[o.j]], TRUE)
    [] o.k = "diff"  -> MdRes([st EXCEPT !.s[o.i] = st.s[o.i] \ st.s[o.j]], TRUE)
    [] o.k = "tset"  -> MdRes([st EXCEPT !.t = FromSet(st.s[o.i], o.ty)], TRUE)
    [] o.k = "tsets" -> LET r == FromSets(<<st.s[o.q[1]], st.s[o.q[2]], st.s[o.q[3]], st.s[o.q[4]]>>)
                        IN  MdRes([st EXCEPT !.t = r.t, !.s[o.i] = r.over], TRUE)
    [] o.k = "tparse" -> LET r == ParseTypes(o.b)
                         IN  MdRes([st EXCEPT !.t = r.t, !.s[o.i] = r.over], r.rest)
    [] o.k = "tins"  -> MdRes([st EXCEPT !.t = Assign(@, {o.l}, o.ty)], TRUE)
    [] o.k = "tinss" -> MdRes([st EXCEPT !.t = Assign(@, st.s[o.i], o.ty)], TRUE)
    [] o.k = "show"  -> MdRes(st, TRUE)
=============================================================================
