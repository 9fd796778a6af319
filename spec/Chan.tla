-------------------------------- MODULE Chan -------------------------------
(* The oneshot channel and the parker as users see them: every operation is  *)
(* a short sequence of atomic steps on this state.                           *)
(*   slot   0 nothing sent, v > 0 value v was sent (and stays noted)         *)
(*   rx     "open", "gone"                                                   *)
(*   skip   an unpark is pending                                             *)
(*   unp    number of unparkers                                              *)
(*   lost   values destroyed inside the channel                              *)
(*   hs     per sending thread, its handles: TRUE once used up               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Kinds == {"raw", "park", "dyn", "unit"}
ChanInit(kind, ntx) ==
  [kind |-> kind, slot |-> 0, rx |-> IF kind = "unit" THEN "gone" ELSE "open", skip |-> FALSE, lost |-> {},
   unp |-> IF kind = "dyn" THEN 1 ELSE ntx,      \* a boxed sender is not cloned
   hs |-> [t \in 1..ntx |-> IF kind = "dyn" /\ t > 1 THEN << >> ELSE <<FALSE>>]]
Idle == [op |-> "idle", v |-> 0, k |-> 0, r |-> << >>]
NoRes == << >>
(* A result is a sequence: <<"ok">>, <<"none">>, <<"some", v>>, <<"back", v>>, *)
(* <<"closed">>, <<"true">>, <<"false">>.                                    *)
Bit(x) == IF x THEN <<"true">> ELSE <<"false">>
Closed(c) == c.rx = "gone" \/ c.slot # 0
Top(c, t) == c.hs[t][Len(c.hs[t])]
Pop(c, t) == [c EXCEPT !.hs[t] = SubSeq(@, 1, Len(@) - 1)]
Use(c, t) == [c EXCEPT !.hs[t] = [@ EXCEPT ![Len(@)] = TRUE]]
(* One atomic step of thread t's operation p: a set of [c, p], empty if it   *)
(* has to wait.  The operation is over when p.r is set.                      *)
End(c, p, r) == {[c |-> c, p |-> [p EXCEPT !.r = r]]}
Cont(c, p, k) == {[c |-> c, p |-> [p EXCEPT !.k = k]]}
Took(c) == [c EXCEPT !.rx = "gone"]
Received(c) == IF c.slot = 0 THEN <<"none">> ELSE <<"some", c.slot>>
Micro(c, t, p) ==
  CASE p.op = "send" /\ p.k = 1 ->
         IF c.kind = "raw" THEN
           IF Closed(c) THEN End(Pop(c, t), p, <<"back", p.v>>) ELSE End(Pop([c EXCEPT !.slot = p.v], t), p, <<"ok">>)
         ELSE IF Top(c, t) \/ Closed(c) THEN End([Use(c, t) EXCEPT !.lost = @ \cup {p.v}], p, <<"closed">>)
         ELSE Cont(Use([c EXCEPT !.slot = p.v], t), p, 2)
    [] p.op = "send" -> End([c EXCEPT !.skip = TRUE], p, <<"ok">>)
    [] p.op = "clone" -> End([c EXCEPT !.hs[t] = Append(@, Top(c, t)), !.unp = @ + 1], p, <<"none">>)
    [] p.op = "closed" -> End(c, p, Bit(Closed(c)))
    [] p.op = "may" -> End(c, p, Bit(~Top(c, t) /\ ~Closed(c)))
    [] p.op = "unpark" -> End([c EXCEPT !.skip = TRUE], p, <<"none">>)
    [] p.op = "drop" -> End([Pop(c, t) EXCEPT !.unp = @ - 1], p, <<"none">>)
    [] p.op = "empty" -> End(c, p, Bit(c.slot = 0))
    [] p.op = "peek" -> End(c, p, Received(c))
    [] p.op = "recvnow" -> End(Took(c), p, Received(c))
    [] p.op = "recv" /\ p.k = 1 -> IF c.slot # 0 THEN Cont(c, p, 3) ELSE Cont(c, p, 2)
    [] p.op = "recv" /\ p.k = 2 -> IF c.skip \/ c.unp = 0 THEN Cont([c EXCEPT !.skip = FALSE], p, 3) ELSE {}
    [] p.op = "recv" -> End(Took(c), p, Received(c))
    [] p.op = "park" -> IF c.skip \/ c.unp = 0 THEN End([c EXCEPT !.skip = FALSE], p, <<"none">>) ELSE {}
    [] p.op = "droprx" -> End([Took(c) EXCEPT !.lost = IF c.slot = 0 THEN @ ELSE @ \cup {c.slot}], p, <<"none">>)
    [] p.op = "droppk" -> End(c, p, <<"none">>)
    \* a sender that keeps its handle until the receiver is gone
    [] p.op = "await" -> IF c.rx = "gone" THEN End(c, p, <<"none">>) ELSE {}
=============================================================================
