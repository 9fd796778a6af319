------------------------------ MODULE MC_Send ------------------------------
(* Every history of a handler sending over every kind of channel.            *)
EXTENDS Send, TLC, Json
CONSTANTS Emit, MaxSteps
VARIABLES ch, wrap, nextv, steps, told, rcvd, lost
vars == <<ch, wrap, nextv, steps, told, rcvd, lost>>
(* steps: what happened, for the emitted behaviour; told: the values a send  *)
(* said arrived; rcvd: the values received; lost: a send was refused.        *)
Pres == {"", "drop", "cut", "take"}
Runs == {<<"may", "send", "did">>, <<"send", "send", "did", "may">>, <<"did", "may">>, << >>, <<"send", "did", "send">>}
Init == \E k \in Kinds, w \in BOOLEAN :
          /\ ch = SInit(k) /\ wrap = w /\ nextv = 1 /\ steps = << >> /\ told = << >> /\ rcvd = << >> /\ lost = {}
Vals(outs, ops, from) ==      \* the values of the sends of ops that were not refused
  LET sends == {i \in 1..Len(ops) : ops[i] = "send"}
      Val(i) == from + Cardinality({j \in sends : j < i})
  IN  [ok |-> {Val(i) : i \in {j \in sends : outs[j] # "closed"}}, no |-> {Val(i) : i \in {j \in sends : outs[j] = "closed"}}]
RECURSIVE InOrder(_)
InOrder(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o InOrder(S \ {x})
Next ==
  /\ Len(steps) < MaxSteps
  /\ \E pre \in Pres, ops \in Runs :
       LET p == SPre(ch, pre)
           r == SRun(p.s, ops, nextv, FALSE, << >>)
           v == Vals(r.outs, ops, nextv)
       IN  /\ (pre = "cut" => ch.kind = "weak") /\ (pre = "drop" => ch.open)
           /\ ch' = r.s /\ nextv' = r.next /\ rcvd' = rcvd \o p.got
           /\ told' = told \o InOrder(v.ok) /\ lost' = lost \cup v.no
           /\ steps' = Append(steps, [pre |-> pre, ops |-> ops])
  /\ UNCHANGED wrap
Spec == Init /\ [][Next]_vars
(* Received, in order and once, is exactly what was said to be sent, except  *)
(* what was still on its way when the receiver went.                         *)
Exactly == /\ rcvd = SubSeq(told, 1, Len(rcvd))
           /\ ch.open => told = rcvd \o ch.buf
           /\ \A i, j \in 1..Len(told) : i < j => told[i] < told[j]
(* Once refused, always refused. *)
Stable == \A v \in lost : \A k \in 1..Len(told) : told[k] < v
OnlyOne == ch.kind \in Once \cup {"closed"} => Len(told) <= 1
Emitted == (Emit /\ Len(steps) = MaxSteps) => PrintT("@@" \o ToJson([op |-> "send", kind |-> ch.kind, wrap |-> wrap, steps |-> steps]))
=============================================================================
