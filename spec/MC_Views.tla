------------------------------ MODULE MC_Views -----------------------------
(* Every line over a critical alphabet after a command: a view exists for    *)
(* exactly the right number of arguments and says what the line says.        *)
(* "ctcp": every small CTCP message survives being written and parsed.       *)
EXTENDS Views, Json
CONSTANTS What, MaxLen, Emit
VARIABLES txt, txt2
vars == <<txt, txt2>>
Abc == IF What = "view" THEN {32, 58, 97, 35} ELSE {32, 1, 97, 65}
Init == txt = << >> /\ txt2 = << >>
Next == \/ Len(txt) < MaxLen /\ (\E b \in Abc : txt' = Append(txt, b)) /\ UNCHANGED txt2
        \/ What = "ctcp" /\ Len(txt2) < 3 /\ (\E b \in {1, 97, 65} : txt2' = Append(txt2, b)) /\ UNCHANGED txt
Spec == Init /\ [][Next]_vars
All == Targeted \cup Untargeted \cup {"JOIN"}
kX == B(":n!u@h X ")
Line == kX \o txt
Says ==
  What = "view" =>
  \A sd \in {"server", "client"} : \A n \in All :
    LET m == ParseLine(sd, Line)
        v == ViewOf(sd, n, m)
    IN  /\ m.ok
        /\ v.ok => /\ v.src = m.src
                   /\ Valid("Arg", v.target) /\ Valid("Line", v.value)
                   /\ n \in Targeted => ParseLine(sd, kX \o WriteArgs(<<v.target, v.value>>, m.long)) = m
Dual == What = "ctcp" => LET c == [cmd |-> txt2, body |-> txt] IN Clean(c) => ParseCtcp(WriteCtcp(c)) = c
Reparse == What = "ctcp" => LET p == ParseCtcp(txt) IN ParseCtcp(WriteCtcp(p)) = p
P(x) == PrintT("@@" \o ToJson(x))
Emitted ==
  Emit => IF What = "view" THEN P([op |-> "view", side |-> "server", in |-> Line]) /\ P([op |-> "view", side |-> "client", in |-> Line])
          ELSE P([op |-> "mkctcp", cmd |-> txt2, body |-> txt])
=============================================================================
