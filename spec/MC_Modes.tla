------------------------------ MODULE MC_Modes -----------------------------
(* What = "hist": every history of set and table operations over a few       *)
(* letters: the table never gives a letter two types, and showing and        *)
(* parsing it again gives it back.  What = "chan" / "prefix": every token    *)
(* text over a critical alphabet.  Histories and texts are replayed.         *)
EXTENDS Modes, Json, Randomization
CONSTANTS What, MaxOps, MaxLen, Emit
VARIABLES md, hist, txt
vars == <<md, hist, txt>>
Ls == {97, 65, 98}
Idx == 1..3
Tys == {"A", "B", "C", "D", "S"}
Lists == {<<44>>, <<97, 65>>, <<97, 44, 98>>, <<97, 44, 44, 97, 44, 98>>, <<98, 49, 44, 65, 44, 97, 44, 65, 44, 98>>}
Quads == {<<1, 2, 3, 3>>, <<1, 2, 3, 1>>, <<3, 1, 3, 2>>, <<2, 1, 1, 3>>, <<1, 3, 2, 2>>}
Rec(k, i, j, l, tt, q, b) == [k |-> k, i |-> i, j |-> j, l |-> l, ty |-> tt, q |-> q, b |-> b]
Ops == {Rec(k, i, 1, l, "A", <<1>>, <<1>>) : k \in {"set", "unset"}, i \in Idx, l \in Ls}
   \cup {Rec("with", i, j, l, "A", <<1>>, <<1>>) : i \in Idx, j \in Idx, l \in Ls}
   \cup {Rec(k, i, j, 97, "A", <<1>>, <<1>>) : k \in {"union", "inter", "diff"}, i \in Idx, j \in Idx}
   \cup {Rec("from", i, 1, 97, "A", <<1>>, b) : i \in Idx, b \in Lists}
   \cup {Rec(k, i, 1, 97, tt, <<1>>, <<1>>) : k \in {"tset", "tinss"}, i \in Idx, tt \in Tys}
   \cup {Rec("tins", 1, 1, l, tt, <<1>>, <<1>>) : l \in Ls, tt \in Tys}
   \cup {Rec("tsets", i, 1, 97, "A", q, <<1>>) : i \in Idx, q \in Quads}
   \cup {Rec("tparse", i, 1, 97, "A", <<1>>, b) : i \in Idx, b \in Lists}
Choice == IF Emit THEN RandomSubset(3, Ops) ELSE Ops
Abc == IF What = "chan" THEN {44, 97, 98, 65} ELSE {41, 111, 118, 64, 43, 233}
Init == md = MInit /\ hist = << >> /\ txt = IF What = "prefix" THEN <<40>> ELSE << >>
Step == /\ What = "hist" /\ Len(hist) < MaxOps
        /\ \E o \in Choice : md' = MdStep(md, o).st /\ hist' = Append(hist, o)
        /\ UNCHANGED txt
Grow == /\ What # "hist" /\ Len(txt) < MaxLen
        /\ \E b \in Abc : txt' = Append(txt, b)
        /\ UNCHANGED <<md, hist>>
Next == Step \/ Grow
Spec == Init /\ [][Next]_vars
View == <<md, txt, IF MaxOps < 20 THEN Len(hist) ELSE 0>>
Disjoint(t) == \A a, b \in 1..4 : a # b => t[a] \cap t[b] = {}
TypesDisjoint == Disjoint(md.t)
RoundTrip == LET r == ParseTypes(ShowTypes(md.t)) IN r.t = md.t /\ r.over = {} /\ r.rest = << >>
TextTyped ==
  What = "chan" =>
    LET r == ParseTypes(txt)
        f == SplitOn(txt, 44)
        owners(l) == {j \in 1..IMin(4, Len(f)) : l \in Range(f[j])}
    IN  /\ Disjoint(r.t)
        /\ \A l \in Letters : Cardinality(owners(l)) = 1 => GetType(r.t, l) # "-"
        /\ \A l \in Letters : (Cardinality(owners(l)) > 1) = (l \in r.over)
        /\ \A l \in r.over : GetType(r.t, l) = "-"
Bijective ==
  What = "prefix" =>
    LET r == ParseStatus(txt)
    IN  r.ok => \A l \in Letters : PrefixOf(r.map, l) > 0 => ModeOf(r.map, PrefixOf(r.map, l)) = l
(* A status mode always wins over CHANMODES. *)
StatusWins ==
  What = "prefix" =>
    LET r == ParseStatus(txt)
    IN  r.ok => \A l \in {111, 118} : PrefixOf(r.map, l) # -1 => ChanMode(<<<<111, 44, 118>>>>, <<txt>>, l) = "S"
Scr == <<"f", "b", "b", "f", "f">>
Line1(x) == PrintT("@@" \o ToJson(x))
NoNulSpace(s) == ~Contains(s, {0, 10, 13, 32})
Emitted ==
  Emit =>
    IF What = "hist" THEN Len(hist) = MaxOps => Line1([op |-> "modes", ops |-> hist, script |-> Scr])
    ELSE IF What = "chan" THEN
      /\ Line1([op |-> "modes", ops |-> <<Rec("tparse", 1, 1, 97, "A", <<1>>, txt)>>, script |-> << >>])
      /\ Line1([op |-> "chan", cm |-> <<txt>>, px |-> <<<<40, 97, 41, 64>>>>])
      /\ Line1([op |-> "tok", tok |-> "CHANMODES", b |-> txt, present |-> TRUE, around |-> TRUE])
    ELSE
      /\ Line1([op |-> "status", b |-> txt])
      /\ Line1([op |-> "chan", cm |-> <<<<111, 44, 118>>>>, px |-> <<txt>>])
=============================================================================
