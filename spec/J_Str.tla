-------------------------------- MODULE J_Str ------------------------------
(* Judges recorded histories of strings and secret buffers.                  *)
EXTENDS Strings, Judge
(* What was seen of one string: type, bytes, secrecy, the cached UTF-8       *)
(* verdict, its Display text, and the tell-tale characters in its Debug text.*)
ObsOk(v, o) ==
  /\ o.ty = v.ty /\ o.b = v.b /\ o.sec = v.sec
  /\ Valid(v.ty, v.b)
  /\ (o.u = 1 => IsUtf8(v.b)) /\ (o.u = -1 => ~IsUtf8(v.b))
  /\ o.disp = Disp(v)
  /\ v.sec => o.dm = << >>
(* claims of UTF-8 made along the way must be right *)
RECURSIVE LazyOk(_, _, _, _)
LazyOk(sp, script, lz, k) ==
  IF k > Len(script) THEN TRUE
  ELSE LET r == SplitStep(sp, script[k])
       IN  (lz[k] = 1 => IsUtf8(Left(r.sp))) /\ LazyOk(r.sp, script, lz, k + 1)
StepOk(pool, o, r, w) ==
  /\ w.st = r.st
  /\ Len(w.ob) = Len(r.touched)
  /\ \A j \in 1..Len(r.touched) : ObsOk(r.pool[r.touched[j]], w.ob[j])
  /\ CASE o.k = "msg" -> IF r.st = "skip" THEN TRUE ELSE
            /\ w.x.tail = pool[o.i].b
            /\ pool[o.i].sec => w.x.dm = << >>
       [] OTHER -> w.x = r.x
  /\ (o.k = "split" /\ r.st = "ok") => LazyOk(SplitNew(pool[o.i]), o.script, w.lz, 1)
RECURSIVE Walk(_, _, _, _)
Walk(pool, ops, outs, k) ==
  IF k > Len(ops) THEN pool
  ELSE IF k > Len(outs) THEN << >>
  ELSE LET r == StrStep(pool, ops[k])
       IN  IF StepOk(pool, ops[k], r, outs[k]) THEN Walk(r.pool, ops, outs, k + 1) ELSE << >>
(* Memory: nothing overwritten, freed twice or leaked; secrets zeroed. *)
MemOk(m) == m.canary = 0 /\ m.dfree = 0 /\ m.leak = 0 /\ m.unzeroed = 0 /\ m.residue = 0 /\ m.uaf = 0
StrOk(e) ==
  LET p == Walk(<<None>>, e.ops, e.out.r, 1)
  IN  /\ p # << >>
      /\ Len(e.out.fin) = Len(p)
      /\ \A j \in 1..Len(p) : ObsOk(p[j], e.out.fin[j])
      /\ MemOk(e.out.mem)
RECURSIVE BufWalk(_, _, _, _)
BufWalk(b, ops, outs, k) ==
  IF k > Len(ops) THEN TRUE
  ELSE LET r == BufStep(b, ops[k])
           w == outs[k]
       IN  /\ w.b = r.b /\ w.x = r.x /\ w.empty = (r.b = << >>) /\ w.same /\ w.sec /\ w.dm = << >>
           /\ BufWalk(r.b, ops, outs, k + 1)
BufOk(e) == Len(e.out.r) = Len(e.ops) /\ BufWalk(<< >>, e.ops, e.out.r, 1) /\ MemOk(e.out.mem)
Accepts(e) == IF e.st # "ok" THEN FALSE ELSE IF e.op = "sbuf" THEN BufOk(e) ELSE StrOk(e)
Conforms == Accepts(Trace[lineNo])
=============================================================================
