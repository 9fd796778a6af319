-------------------------------- MODULE Msg --------------------------------
(* The IRC message grammar as vinezombie promises to read and write it.     *)
(*                                                                           *)
(* A message is a record                                                     *)
(*   tags : set of <<key, value>>            (value unescaped)               *)
(*   src  : << >> or <<nick>> or <<nick, user-option, host>>                 *)
(*   kind : bytes (upper-case letters, or three digits)                      *)
(*   args : sequence of byte strings                                         *)
(*   long : TRUE iff the last argument needs a leading colon                 *)
EXTENDS StringTypes

AT == 64  COLON == 58  SEMI == 59  EQ == 61  BANG == 33  BSL == 92
Ws == {9, 10, 12, 13, 32}             \* ASCII whitespace (no VT)

(* ------------------------------ tag values ------------------------------ *)
EscByte(b) == CASE b = SEMI -> <<BSL, COLON>> [] b = SP -> <<BSL, 115>>
                [] b = CR -> <<BSL, 114>> [] b = LF -> <<BSL, 110>>
                [] b = BSL -> <<BSL, BSL>> [] OTHER -> <<b>>
Escape(v) ==
  IF ~Contains(v, {SEMI, SP, CR, LF, BSL}) THEN v ELSE Cat(MapSeq(EscByte, v))
UnescByte(b) == CASE b = COLON -> SEMI [] b = 115 -> SP [] b = 114 -> CR
                  [] b = 110 -> LF [] OTHER -> b
RECURSIVE Unescape(_)
Unescape(v) ==
  LET i == FirstIn(v, {BSL}, 1)
  IN  IF i > Len(v) THEN v
      ELSE IF i = Len(v) THEN Upto(v, i - 1)
      ELSE Upto(v, i - 1) \o <<UnescByte(v[i + 1])>> \o Unescape(From(v, i + 2))

(* --------------------------------- tags --------------------------------- *)
(* One tag segment: << >> if it has no valid key. *)
TagSeg(seg) ==
  LET e == FirstIn(seg, {EQ}, 1)
      k == Upto(seg, e - 1)
  IN  IF ~Valid("Key", k) THEN << >>
      ELSE <<<<k, IF e > Len(seg) THEN << >> ELSE Unescape(From(seg, e + 1))>>>>
RECURSIVE PutAll(_, _)
PutAll(acc, pairs) ==
  IF pairs = << >> THEN acc
  ELSE PutAll({p \in acc : p[1] # pairs[1][1]} \cup {pairs[1]}, Tail(pairs))
ParseTags(w) == PutAll({}, Cat(MapSeq(TagSeg, SplitOn(w, SEMI))))
RECURSIVE SortTags(_)
SortTags(tags) ==
  IF tags = {} THEN << >>
  ELSE LET m == CHOOSE p \in tags : \A q \in tags : p = q \/ LexLess(p[1], q[1])
       IN  <<m>> \o SortTags(tags \ {m})
WriteTag(p) == IF p[2] = << >> THEN p[1] ELSE p[1] \o <<EQ>> \o Escape(p[2])
WriteTags(tags) ==
  IF tags = {} THEN << >> ELSE <<AT>> \o Join(MapSeq(WriteTag, SortTags(tags)), <<SEMI>>)

(* -------------------------------- sources ------------------------------- *)
SrcErr(e) == [ok |-> FALSE, err |-> e]
SrcOk(s) == [ok |-> TRUE, v |-> s]
ParseSource(w) ==
  LET i == FirstIn(w, BadBytes("Nick"), 1)
      nick == Upto(w, i - 1)
  IN  IF ~Valid("Nick", nick) THEN SrcErr("InvalidNick")
      ELSE IF i > Len(w) THEN SrcOk(<<nick>>)
      ELSE IF w[i] = AT THEN
             LET host == From(w, i + 1)
             IN IF host = << >> THEN SrcErr("InvalidHost") ELSE SrcOk(<<nick, << >>, host>>)
      ELSE IF w[i] = BANG THEN
             LET a == FirstIn(w, {AT}, i + 1)
                 user == SubSeq(w, i + 1, a - 1)
                 host == From(w, a + 1)
             IN IF ~Valid("User", user) THEN SrcErr("InvalidUser")
                ELSE IF host = << >> THEN SrcErr("InvalidHost")
                ELSE SrcOk(<<nick, <<user>>, host>>)
      ELSE SrcErr("InvalidNick")
WriteSource(s) ==
  IF Len(s) = 1 THEN s[1]
  ELSE s[1] \o (IF s[2] = << >> THEN << >> ELSE <<BANG>> \o s[2][1]) \o <<AT>> \o s[3]

(* ------------------------------- arguments ------------------------------ *)
RECURSIVE ParseArgs(_)
ParseArgs(line) ==                \* -> [args, long]
  LET i == FirstNotIn(line, {SP}, 1)
  IN  IF i > Len(line) THEN [args |-> << >>, long |-> FALSE]
      ELSE IF line[i] = COLON THEN
             LET t == From(line, i + 1)
             IN [args |-> <<t>>, long |-> ~Valid("Arg", t)]
      ELSE LET j == FirstIn(line, {SP}, i)
               r == ParseArgs(From(line, j))
           IN [args |-> <<SubSeq(line, i, j - 1)>> \o r.args, long |-> r.long]
WriteArgs(args, long) ==          \* without the leading space
  IF args = << >> THEN << >>
  ELSE LET n == Len(args)
       IN Join(Upto(args, n - 1) \o <<(IF long THEN <<COLON>> ELSE << >>) \o args[n]>>, <<SP>>)
RECURSIVE SumLen(_)
SumLen(ss) == IF ss = << >> THEN 0 ELSE Len(ss[1]) + 1 + SumLen(Tail(ss))
ArgsLenBytes(args) == SumLen(args)

(* ------------------------------- messages ------------------------------- *)
IsNumeric(w) == Len(w) = 3 /\ \A i \in 1..3 : w[i] \in Digit
Err(e) == [ok |-> FALSE, err |-> e]

(* side: "server" (numeric allowed, source kept) or "client" (source dropped) *)
ParseLine(side, line) ==
  IF Contains(line, BadBytes("Line")) THEN Err("InvalidLine")
  ELSE
  LET i1 == FirstNotIn(line, Ws, 1)
      hasTags == i1 <= Len(line) /\ line[i1] = AT
      t1 == FirstIn(line, {SP}, i1)
      tags == IF hasTags THEN ParseTags(SubSeq(line, i1 + 1, t1 - 1)) ELSE {}
      i2 == IF hasTags THEN FirstNotIn(line, Ws, t1) ELSE i1
      hasSrc == i2 <= Len(line) /\ line[i2] = COLON
      s1 == FirstIn(line, {SP}, i2)
      src == IF ~hasSrc \/ side = "client" THEN SrcOk(<< >>)
             ELSE ParseSource(SubSeq(line, i2 + 1, s1 - 1))
      i3 == IF hasSrc THEN FirstNotIn(line, Ws, s1) ELSE i2
      k1 == FirstIn(line, {SP}, i3)
      kw == SubSeq(line, i3, k1 - 1)
      a == ParseArgs(From(line, k1))
  IN  IF ~src.ok THEN Err(src.err)
      ELSE IF kw = << >> THEN Err("InvalidKind")
      ELSE IF side = "server" /\ IsNumeric(kw)
             THEN [ok |-> TRUE, tags |-> tags, src |-> src.v, kind |-> kw, args |-> a.args, long |-> a.long]
      ELSE IF \E i \in 1..Len(kw) : kw[i] \notin Alpha THEN Err("InvalidKind")
      ELSE [ok |-> TRUE, tags |-> tags, src |-> src.v, kind |-> ToUpper(kw), args |-> a.args, long |-> a.long]

WriteMsg(m) ==
  (IF m.tags = {} THEN << >> ELSE WriteTags(m.tags) \o <<SP>>)
  \o (IF m.src = << >> THEN << >> ELSE <<COLON>> \o WriteSource(m.src) \o <<SP>>)
  \o m.kind
  \o (IF m.args = << >> THEN << >> ELSE <<SP>> \o WriteArgs(m.args, m.long))

(* Remaining bytes of the 510 a message may have, excluding tags.  A source  *)
(* length of 0 means "no source".  Pessimistic: the last argument is always  *)
(* counted as having a colon.                                                *)
BytesLeft(kind, srclen, args) ==
  510 - (Len(kind) + (IF srclen = 0 THEN 0 ELSE 2 + srclen)
         + (IF args = << >> THEN 0 ELSE ArgsLenBytes(args) + 1))

(* --------------------------------- CTCP --------------------------------- *)
ParseCtcp(line) ==
  IF line = << >> \/ line[1] # 1 THEN [cmd |-> << >>, body |-> line]
  ELSE LET e == FirstIn(line, {1}, 2)
           inner == SubSeq(line, 2, e - 1)
           s == FirstIn(inner, {SP}, 1)
           cmd == Upto(inner, s - 1)
       IN  IF cmd = << >> THEN [cmd |-> << >>, body |-> line]
           ELSE [cmd |-> ToUpper(cmd), body |-> From(inner, s + 1)]
WriteCtcp(c) ==
  IF c.cmd = << >> THEN c.body ELSE <<1>> \o c.cmd \o <<SP>> \o c.body \o <<1>>
=============================================================================
