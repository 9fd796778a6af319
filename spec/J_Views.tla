------------------------------- MODULE J_Views -----------------------------
(* Judges recorded typed views, names, numerics and CTCP messages.           *)
EXTENDS Views, Judge
SameView(o, v) ==
  IF ~v.ok THEN o.ok = FALSE
  ELSE /\ o.ok /\ Len(o.tags) = Cardinality(v.tags) /\ Range(o.tags) = v.tags
       /\ o.src = v.src /\ o.target = v.target /\ o.value = v.value
       /\ o.map                           \* mapping keeps everything else
JView(e) ==
  LET m == ParseLine(e.side, e.in)
  IN  IF ~m.ok THEN e.out = << >>
      ELSE /\ Len(e.out) = 1
           /\ \A n \in DOMAIN e.out[1].v : SameView(e.out[1].v[n], ViewOf(e.side, n, m))
           /\ \A n \in DOMAIN e.out[1].is : e.out[1].is[n] = (m.kind = B(n))
JKinds(e) ==
  LET a == e.a
      b == e.b
      o == e.out
  IN  /\ o.eq = (a = b) /\ o.cmp = Cmp(a, b) /\ o.text = a /\ o.len = Len(a)
      /\ o.str = (a = b) /\ o.bytes = (a = b)
      /\ o.cmd = (a = b /\ ~IsNumeric(a)) /\ o.num = (a = b /\ IsNumeric(a))
      /\ o.hash                             \* hashes like its text
      /\ o.err = KindErr(a)
JCtcp(e) ==
  LET c == [cmd |-> e.cmd, body |-> e.body]
      o == e.out
  IN  /\ o.line = WriteCtcp(c) /\ o.len = Len(o.line) /\ o.empty = (o.line = << >>) /\ o.is = (e.cmd # << >>) /\ o.map
      /\ LET p == ParseCtcp(o.line) IN o.cmd = p.cmd /\ o.body = p.body
      /\ Clean(c) => o.cmd = e.cmd /\ o.body = e.body
JName(e) == LET t == TextOf(e.cls, e.id) IN e.out.raw = <<t>> /\ e.out.eq
JMake(e) ==                 \* built messages read back
  LET m == ParseLine(e.side, e.out.wr)
  IN  /\ m.ok /\ m.tags = {} /\ m.src = e.src /\ m.kind = e.kind /\ m.args = e.args
Accepts(e) ==
  IF e.st # "ok" THEN FALSE
  ELSE IF e.op = "view" THEN JView(e)
  ELSE IF e.op = "kinds" THEN JKinds(e)
  ELSE IF e.op = "mkctcp" THEN JCtcp(e)
  ELSE IF e.op = "name" THEN JName(e)
  ELSE IF e.op = "num" THEN e.out = NumErr(e.v)
  ELSE IF e.op = "make" THEN JMake(e)
  ELSE FALSE
Conforms == Accepts(Trace[lineNo])
=============================================================================
