------------------------------- MODULE J_Share -----------------------------
(* Judges what every thread saw of strings shared between threads.           *)
EXTENDS Share, Judge
Accepts(e) ==
  IF e.st # "ok" THEN FALSE
  ELSE /\ Len(e.logs) = Len(e.progs)
       /\ \A t \in 1..Len(e.progs) : ShWalk(<<Slot(e.b)>>, e.progs[t], e.logs[t], 1, e.b)
       /\ e.fin = e.b
Conforms == Accepts(Trace[lineNo])
=============================================================================
