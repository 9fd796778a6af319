------------------------------ MODULE MC_Serde -----------------------------
(* What = "doc": every document composed of a few good and bad parts; what   *)
(* is loaded is good and is stored as it was.  "opts": every combination of  *)
(* option fields.  Every document is replayed.                               *)
EXTENDS Serde, Json
CONSTANTS What, Emit, Big
VARIABLES doc
TagSeqs == {<< >>, <<<<<<97>>, <<120, 59>>>>>>, <<<<<<97>>, << >>>>, <<<<43, 98>>, <<13>>>>>>, <<<<<<97>>, <<49>>>>, <<<<97>>, <<50>>>>>>,
            <<<<<<97, 61>>, <<120>>>>>>, <<<<<<98>>, <<120>>>>, <<<<97>>, <<0>>>>>>, <<<<<<>>, <<120>>>>>>}
Srcs == {<< >>, <<<<110>>>>, <<<<110, 33>>>>, <<<<110>>, << >>, <<104>>>>, <<<<110>>, <<<<117>>>>, <<104, 64>>>>, <<<<110>>, <<<<117, 64>>>>, <<104>>>>,
         <<<<110>>, << >>, <<104, 32>>>>}
Kinds == {<<"n", 1>>, <<"n", 999>>, <<"n", 1000>>, <<"s", <<80, 73>>>>, <<"s", <<112, 73>>>>, <<"s", <<48, 48, 49>>>>, <<"s", << >>>>}
Ws0 == {<<97>>, << >>, <<58, 97>>, <<97, 32>>, <<97, 10>>}
ArgSeqs == {<< >>} \cup {<<w>> : w \in Ws0} \cup {<<w, x>> : w, x \in Ws0}
           \cup (IF Big THEN {<<w, x, y>> : w, x \in Ws0, y \in Ws0} ELSE {<<<<97>>, w, <<98, 58>>>> : w \in Ws0})
Docs == [side : {"server", "client"}, tags : TagSeqs, src : Srcs, kind : Kinds, args : ArgSeqs]
O(S) == {<< >>} \cup {<<x>> : x \in S}
bGood == Enc64(<<112, 32, 119>>)
bNul == Enc64(<<112, 0>>)
bLf == Enc64(<<112, 10>>)
Sasls == {[k |-> "ext", authzid |-> << >>], [k |-> "ext", authzid |-> <<97, 0>>],
          [k |-> "pw", az |-> << >>, authcid |-> <<97>>, passwd |-> bGood, deny |-> FALSE],
          [k |-> "pw", az |-> <<<<122>>>>, authcid |-> <<97>>, passwd |-> bLf, deny |-> FALSE],
          [k |-> "pw", az |-> << >>, authcid |-> <<97>>, passwd |-> bNul, deny |-> FALSE],
          [k |-> "pw", az |-> << >>, authcid |-> <<97>>, passwd |-> bGood, deny |-> TRUE]}
OptDocs == [pass : O({bGood, bNul, bLf, <<33>>, << >>}), nicks : O({<< >>, <<<<110>>, <<109>>>>, <<<<110>>, <<32>>>>}),
            user : O({<<117>>, <<117, 64>>}), real : O({<<114, 32>>, << >>, <<10>>}), caps : O({<<<<99>>, <<98>>, <<99>>>>, <<<<61>>>>}),
            allow : IF Big THEN O({TRUE, FALSE}) ELSE {<< >>, <<TRUE>>},
            sasl : O({<< >>} \cup {<<a>> : a \in Sasls} \cup (IF Big THEN {<<a, b>> : a, b \in Sasls} ELSE {}))]
Init == doc \in IF What = "doc" THEN Docs ELSE OptDocs
Next == UNCHANGED doc
Spec == Init /\ [][Next]_doc
LoadedGood == What = "doc" => LET m == LoadMsg(doc.side, doc) IN m.ok => GoodMsg(m) /\ LoadMsg(doc.side, StoreMsg(m)) = m
(* Writing a loaded message to the wire gives it back too.                   *)
LoadedWire ==
  What = "doc" =>
    LET m == LoadMsg(doc.side, doc)
    IN  m.ok => ParseLine(doc.side, WriteMsg(m)) = m
OptsGood ==
  What = "opts" =>
    LET r == LoadOpts(doc)
    IN  r.ok => /\ All(r.nicks, LAMBDA n : Valid("Nick", n)) /\ \A k \in r.caps : Valid("Key", k)
                /\ All(r.pass, LAMBDA p : Valid("Line", p))
                /\ Len(r.sasl) <= Len(Opt(doc.sasl, << >>))
Emitted == Emit => PrintT("@@" \o ToJson(IF What = "doc" THEN [op |-> "doc", side |-> doc.side, tags |-> doc.tags, src |-> doc.src, kind |-> doc.kind, args |-> doc.args]
                                        ELSE [op |-> "opts", pass |-> doc.pass, nicks |-> doc.nicks, user |-> doc.user, real |-> doc.real, caps |-> doc.caps, allow |-> doc.allow, sasl |-> doc.sasl]))
=============================================================================
