----------------------------- MODULE J_Client ------------------------------
(* Judges recorded client histories: operation by operation, every recorded  *)
(* observation must be the one the specification predicts.  A tie between a  *)
(* deadline and an arrival is not judged further.                            *)
EXTENDS Client, Judge
RECURSIVE Walk(_, _, _, _, _)
Walk(st, ops, outs, k, mode) ==
  IF k > Len(ops) THEN TRUE
  ELSE LET op == ops[k]
           o == outs[k]
       IN  IF st.broken /\ op.k # "newconn" THEN o.skip /\ Walk(st, ops, outs, k + 1, mode)
           ELSE IF o.skip THEN FALSE
           ELSE IF op.k = "run" THEN
             LET r == RunLoopC(st, o.log, Obs0, IF mode = "tokio" THEN CutOf(st, op) ELSE -1)
             IN  IF r.amb THEN TRUE
                 ELSE IF ~r.ok THEN FALSE
                 ELSE /\ r.rest = << >>
                      /\ o.r = r.r
                      /\ NoDup(o.y) /\ Range(o.y) = r.y
                      /\ NoDup(o.f) /\ Range(o.f) = r.f
                      /\ Seen(r.a, o)
                      /\ Visible(r.st, o)
                      /\ (r.r # "stall" => o.now = Now(r.st))
                      /\ Walk(IF r.r = "stall" THEN AtTime(r.st, o.now) ELSE r.st, ops, outs, k + 1, mode)
           ELSE IF op.k = "flush" THEN
             LET f == Flush(st)
             IN  IF f.amb THEN TRUE
                 ELSE /\ o.log = << >> /\ Seen([Obs0 EXCEPT !.w = f.w], o)
                      /\ o.fl = (IF f.err THEN -9 ELSE f.wait)
                      /\ o.now = Now(f.st) /\ Visible(f.st, o)
                      /\ Walk([f.st EXCEPT !.broken = f.err], ops, outs, k + 1, mode)
           ELSE LET t == CStep(st, op, o)
                IN  /\ IdOk(st, op, o) /\ RefusedOk(op, o)
                    /\ o.log = << >>
                    /\ Seen([Obs0 EXCEPT !.dropped = DroppedBy(st, op)], o)
                    /\ o.now = Now(t) /\ Visible(t, o)
                    /\ Walk(t, ops, outs, k + 1, mode)
RECURSIVE Before(_, _)
Before(st, pre) == IF pre = << >> THEN st ELSE Before(CStep(st, pre[1], [id |-> 0]), Tail(pre))
Accepts(e) == e.st = "ok" /\ Len(e.ops) = Len(e.out) /\ Walk(Before(CInit(e.conns), e.pre), e.ops, e.out, 1, e.mode)
Conforms == Accepts(Trace[lineNo])
=============================================================================
