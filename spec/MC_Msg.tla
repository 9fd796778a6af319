------------------------------ MODULE MC_Msg -------------------------------
(* Exhaustive check that the grammar round-trips, over all messages composed *)
(* from small sets of critical components; every message is also emitted as  *)
(* a behaviour (with the specification's prediction) to be replayed into the *)
(* real writers and readers.                                                 *)
EXTENDS Msg, Json
CONSTANT Emit, Big

Keys == {<<97>>, <<43, 98, 47, 99>>}
Vals == {<< >>, <<120>>, <<59, 32>>, <<92>>, <<13, 10, 92, 115>>}
          \cup (IF Big THEN {<<92, 92>>, <<61, 58>>, <<255, 32>>, <<32>>} ELSE {})
TagSets == {{}} \cup {{<<k, v>>} : k \in Keys, v \in Vals}
             \cup {{<<<<97>>, v>>, <<<<98>>, u>>} : v \in Vals, u \in {<<120>>, <<92>>}}
Sources == {<< >>, <<<<110>>>>, <<<<110>>, << >>, <<104, 58>>>>, <<<<110, 9>>, <<<<126, 117>>>>, <<104, 64>>>>}
Words == {<<97>>, <<97, 58>>, <<9, 97>>} \cup (IF Big THEN {<<64>>, <<255>>} ELSE {})
WordSeqs == {<< >>} \cup {<<w>> : w \in Words} \cup {<<w, x>> : w, x \in Words}
Longs == {<< >>, <<58>>, <<32, 97>>, <<97, 32>>} \cup (IF Big THEN {<<58, 97, 32, 58>>, <<32>>} ELSE {})

VARIABLES side, m
vars == <<side, m>>
Init ==
  /\ side \in {"server", "client"}
  /\ \E t \in TagSets, s \in Sources, k \in {<<80, 73>>, <<48, 48, 49>>}, w \in WordSeqs, l \in Longs \cup {<<0>>} :
       /\ side = "client" => s = << >> /\ k = <<80, 73>>
       /\ m = [ok |-> TRUE, tags |-> t, src |-> s, kind |-> k,
               args |-> IF l = <<0>> THEN w ELSE Append(w, l), long |-> l # <<0>>]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Line == WriteMsg(m)
RoundTrip == ParseLine(side, Line) = m
OneLine == ~Contains(Line, {0, 10, 13})
Budget ==      \* the byte budget never promises more than there is
  LET sl == IF m.src = << >> THEN 0 ELSE Len(WriteSource(m.src))
      tl == IF m.tags = {} THEN 0 ELSE Len(WriteTags(m.tags)) + 1
      used == Len(Line) - tl
  IN  BytesLeft(m.kind, sl, m.args) \in {510 - used, 509 - used}
How == (Len(Line) * 7 + Len(m.args) * 3 + Cardinality(m.tags)) % 32
Prediction ==
  LET r == [ok |-> TRUE, tags |-> SortTags(m.tags), src |-> m.src, kind |-> m.kind, args |-> m.args, long |-> m.long]
  IN  [op |-> "build", side |-> side, how |-> How, tags |-> r.tags, src |-> m.src, kind |-> m.kind,
       args |-> m.args, long |-> m.long,
       exp |-> [wr |-> <<Line \o <<13, 10>>>>, rd |-> <<r>>, eq |-> TRUE]]
Emitted == Emit => PrintT("@@" \o ToJson(Prediction))
=============================================================================
