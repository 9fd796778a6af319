----------------------------- MODULE J_Framing -----------------------------
EXTENDS Framing, Judge
Same(out, m) ==
  IF ~m.ok THEN out.ok = FALSE /\ out.err = m.err
  ELSE /\ out.ok = TRUE
       /\ Len(out.tags) = Cardinality(m.tags) /\ Range(out.tags) = m.tags
       /\ out.src = m.src /\ out.kind = m.kind /\ out.args = m.args /\ out.long = m.long
(* After a line that cannot be followed (over-long, or NUL in the codec) the *)
(* buffer contents are documented as unspecified: compare up to that error.   *)
SameSeq(outs, ms) ==
  /\ Len(outs) >= Len(ms)
  /\ ms[Len(ms)] \in {Eof, Done} => Len(outs) = Len(ms)
  /\ \A k \in 1..Len(ms) : Same(outs[k], ms[k])
Limit(side) == IF side = "server" THEN 8703 ELSE 4608
Accepts(e) ==
  /\ e.st = "ok"
  /\ Len(e.out) = Len(e.kinds)
  /\ LET r == Ref("read", e.side, Limit(e.side), e.stream)
         d == Ref("codec", e.side, Limit(e.side), e.stream)
     IN \A k \in 1..Len(e.kinds) : SameSeq(e.out[k], IF e.kinds[k] = "codec" THEN d ELSE r)
Conforms == Accepts(Trace[lineNo])
=============================================================================
