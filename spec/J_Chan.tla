------------------------------- MODULE J_Chan ------------------------------
(* Judges recorded concurrent histories of the real channel: there must be a *)
(* way to place the steps of Chan between the observed calls and returns     *)
(* that explains every result, nothing may hang, and memory must be in order.*)
EXTENDS Chan, Judge
Steps(cfg) ==
  UNION {{[c |-> x.c, ps |-> [cfg.ps EXCEPT ![t] = x.p]] :
            x \in (IF cfg.ps[t].op = "idle" \/ cfg.ps[t].r # << >> THEN {} ELSE Micro(cfg.c, t - 1, cfg.ps[t]))} :
         t \in DOMAIN cfg.ps}
RECURSIVE Close(_, _)
Close(all, new) ==
  LET nxt == UNION {Steps(x) : x \in new} \ all
  IN  IF nxt = {} THEN all ELSE Close(all \cup nxt, nxt)
RECURSIVE Fold(_, _, _)
Fold(cfgs, log, k) ==
  IF k > Len(log) \/ cfgs = {} THEN cfgs
  ELSE LET ev == log[k]
       IN  CASE ev.e = "call" -> Fold({[x EXCEPT !.ps[ev.t + 1] = [op |-> ev.op, v |-> ev.v, k |-> 1, r |-> << >>]] : x \in cfgs}, log, k + 1)
             [] ev.e = "ret" -> Fold({[x EXCEPT !.ps[ev.t + 1] = Idle] : x \in {y \in Close(cfgs, cfgs) : y.ps[ev.t + 1].r = ev.r}}, log, k + 1)
             [] OTHER -> {}
(* Histories without a global order: only each thread's own order is known.  *)
Moves(logs, x) ==
  UNION {IF x.ps[t].op = "idle" THEN
           IF x.at[t] > Len(logs[t]) THEN {}
           ELSE {[x EXCEPT !.ps[t] = [op |-> logs[t][x.at[t]].op, v |-> logs[t][x.at[t]].v, k |-> 1, r |-> << >>]]}
         ELSE {[c |-> y.c, at |-> IF y.p.r = << >> THEN x.at ELSE [x.at EXCEPT ![t] = @ + 1],
                ps |-> [x.ps EXCEPT ![t] = IF y.p.r = << >> THEN y.p ELSE Idle]] :
                 y \in {z \in Micro(x.c, t - 1, x.ps[t]) : z.p.r = << >> \/ z.p.r = logs[t][x.at[t]].r}} : t \in DOMAIN logs}
RECURSIVE Reach(_, _, _)
Reach(logs, all, new) ==
  LET nxt == UNION {Moves(logs, x) : x \in new} \ all
  IN  IF nxt = {} THEN all ELSE Reach(logs, all \cup nxt, nxt)
AcceptsThreads(e) ==
  /\ e.st = "ok" /\ e.bad = 0
  /\ LET n == Len(e.logs) - 1
         one == [c |-> ChanInit(e.scn.kind, n), at |-> [t \in 1..n + 1 |-> 1], ps |-> [t \in 1..n + 1 |-> Idle]]
     IN  \E x \in Reach(e.logs, {one}, {one}) :
           /\ \A t \in 1..n + 1 : x.at[t] = Len(e.logs[t]) + 1 /\ x.ps[t].op = "idle"
           /\ \A t \in 1..n : x.c.hs[t] = << >>
           /\ \A v \in 1..15 : e.drops[v + 1] = IF v \in x.c.lost THEN 1 ELSE 0
AcceptsOrdered(e) ==
  /\ e.st = "ok" /\ e.end = "done"
  /\ e.uaf = 0 /\ e.dfree = 0 /\ e.leaks = 0 /\ e.bad = 0
  /\ LET n == Len(e.scn.tx)
         fin == Fold({[c |-> ChanInit(e.scn.kind, n), ps |-> [t \in 1..n + 1 |-> Idle]]}, e.log, 1)
     IN  \E x \in fin :
           /\ \A t \in 1..n : x.c.hs[t] = << >>
           /\ \A v \in 1..15 : e.drops[v + 1] = IF v \in x.c.lost THEN 1 ELSE 0
Accepts(e) == IF e.op = "threads" THEN AcceptsThreads(e) ELSE AcceptsOrdered(e)
Conforms == Accepts(Trace[lineNo])
=============================================================================
