------------------------------ MODULE J_Queue ------------------------------
EXTENDS Queue, Judge
RECURSIVE Walk(_, _, _, _)
Walk(st, ops, outs, k) ==
  IF k > Len(ops) THEN TRUE
  ELSE /\ Allowed(st, ops[k], outs[k])
       /\ LET t == After(st, ops[k], outs[k])
          IN Sees(t, outs[k]) /\ Walk(t, ops, outs, k + 1)
Accepts(e) == e.st = "ok" /\ Len(e.ops) = Len(e.out) /\ Walk(QInit, e.ops, e.out, 1)
Conforms == Accepts(Trace[lineNo])
=============================================================================
