------------------------------- MODULE Send --------------------------------
(* The channels handlers send values over: the standard queue, the oneshot,  *)
(* tokio's oneshot, queue and weak queue, a sender that is closed or has     *)
(* nothing left to send with, each on its own or inside an unparker.         *)
EXTENDS Naturals, Sequences, FiniteSets
Kinds == {"closed", "gone", "std", "one", "tone", "tun", "weak"}
Once == {"one", "tone", "gone"}
SInit(kind) == [kind |-> kind, open |-> kind \notin {"closed", "gone"}, held |-> TRUE, used |-> FALSE, buf |-> << >>]
(* Somebody can still receive what is sent. *)
CanSend(s) == s.open /\ (s.kind \in Once => ~s.used) /\ (s.kind = "weak" => s.held)
(* What the sending side is told: "more" can be sent, it was "sent" and was  *)
(* the last, or the channel is "closed".                                     *)
SSend(s, v) ==
  IF CanSend(s) THEN [s |-> [s EXCEPT !.buf = Append(@, v), !.used = TRUE], r |-> IF s.kind \in Once THEN "sent" ELSE "more"]
  ELSE [s |-> [s EXCEPT !.used = TRUE], r |-> "closed"]
(* drop: the receiver goes; cut: the strong sender of a weak queue goes;     *)
(* take: everything that has arrived is received.                            *)
SPre(s, op) ==
  CASE op = "drop" -> [s |-> [s EXCEPT !.open = FALSE, !.buf = << >>], got |-> << >>]
    [] op = "cut"  -> [s |-> [s EXCEPT !.held = FALSE], got |-> << >>]
    [] op = "take" -> [s |-> [s EXCEPT !.buf = << >>], got |-> IF s.open THEN s.buf ELSE << >>]
    [] OTHER       -> [s |-> s, got |-> << >>]
(* A handler run: ops is a sequence of "send", "did" and "may"; values are   *)
(* numbered on from next.  did tells whether anything was sent in this run.  *)
RECURSIVE SRun(_, _, _, _, _)
SRun(s, ops, next, did, outs) ==
  IF ops = << >> THEN [s |-> s, next |-> next, did |-> did, outs |-> outs]
  ELSE IF ops[1] = "send" THEN
         LET r == SSend(s, next) IN SRun(r.s, Tail(ops), next + 1, did \/ r.r # "closed", Append(outs, r.r))
  ELSE IF ops[1] = "did" THEN SRun(s, Tail(ops), next, did, Append(outs, IF did THEN "yes" ELSE "no"))
  \* whether a send may succeed: "no" is only said when none will
  ELSE SRun(s, Tail(ops), next, did, Append(outs, IF CanSend(s) THEN "yes" ELSE "any"))
=============================================================================
