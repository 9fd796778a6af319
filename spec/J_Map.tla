-------------------------------- MODULE J_Map ------------------------------
(* Judges recorded edit histories of the keyed collections.                  *)
EXTENDS FMap, Judge
Sorted(e) == \A j \in 1..(Len(e) - 1) : LexLess(e[j][1], e[j + 1][1])
Ids(s) == [x \in Range(s) |-> Cardinality({j \in 1..Len(s) : s[j] = x})]
(* A dump: the entries in key order, forwards and backwards, sizes, and the  *)
(* tracked extras alive (exactly those in the map, unless some were leaked). *)
DumpOk(d, m, tracked, leaked) ==
  /\ {<<x[1], x[2], x[3]>> : x \in Range(d.e)} = m
  /\ Len(d.e) = Cardinality(m) /\ d.len = Cardinality(m) /\ d.klen = Cardinality(m) /\ d.empty = (m = {})
  /\ Sorted(d.e)
  /\ Len(d.back) = Len(d.e) /\ \A j \in 1..Len(d.e) : d.back[j] = d.e[Len(d.e) + 1 - j][1]
  /\ ~d.bad
  /\ tracked => LET ids == [j \in 1..Len(d.e) |-> d.e[j][3]]
                IN  IF leaked THEN \A x \in Range(ids) : x \in Range(d.alive)
                    ELSE Len(d.alive) = Len(ids) /\ Range(d.alive) = Range(ids)
RECURSIVE Walk(_, _, _, _, _, _, _)
Walk(m, ops, outs, k, open, tracked, leaked) ==
  IF k > Len(ops) THEN [ok |-> Len(outs) = Len(ops), m |-> m]
  ELSE IF k > Len(outs) THEN [ok |-> FALSE, m |-> m]
  ELSE LET o == ops[k]
           r == MStep(m, o)
       IN  IF o.k = "leak" THEN
             \* a leaked guard may lose entries but never invents or confuses them
             LET d == outs[k]
                 m1 == {<<x[1], x[2], x[3]>> : x \in Range(d.e)}
             IN  IF m1 \subseteq m /\ DumpOk(d, m1, tracked, TRUE) THEN Walk(m1, ops, outs, k + 1, FALSE, tracked, TRUE)
                 ELSE [ok |-> FALSE, m |-> m]
           ELSE IF o.k \in {"close", "clone", "from"} THEN
             IF DumpOk(outs[k], r.m, tracked, leaked) THEN Walk(r.m, ops, outs, k + 1, FALSE, tracked, leaked)
             ELSE [ok |-> FALSE, m |-> m]
           ELSE IF outs[k].r = r.r THEN Walk(r.m, ops, outs, k + 1, o.k = "open", tracked, leaked)
           ELSE [ok |-> FALSE, m |-> m]
Leaks(ops) == \E j \in 1..Len(ops) : ops[j].k = "leak"
RECURSIVE After(_, _)
After(m, ops) == IF ops = << >> THEN m ELSE After(MStep(m, ops[1]).m, Tail(ops))
MapOk(e) ==
  LET t == e.m = "cap"
      a == Walk({}, e.a, e.out.a, 1, FALSE, t, FALSE)
      b == Walk({}, e.b, e.out.b, 1, FALSE, t, FALSE)
  IN  /\ a.ok /\ b.ok
      /\ e.out.rel.eq = (a.m = b.m)
      /\ (a.m = b.m => e.out.rel.hash)
      /\ ~e.out.rel.bad
      /\ e.m = "tags" => \* guards with the same entries are equal as well
           LET g == After(a.m, IF "ga" \in DOMAIN e THEN e.ga ELSE << >>)
               h == After(b.m, IF "gb" \in DOMAIN e THEN e.gb ELSE << >>)
           IN  /\ e.out.rel.guards[1] = (g = h)
               /\ (g = h => e.out.rel.guards[2])
      /\ (t /\ ~Leaks(e.a)) => e.out.rel.left = << >>
(* Client state: one value per key type; the previous value is dropped.      *)
RECURSIVE CsWalk(_, _, _, _)
CsWalk(m, ops, outs, k) ==
  IF k > Len(ops) THEN /\ Len(outs) = Len(ops) + 2
                       /\ ~outs[k].bad /\ Range(outs[k].alive) = {x[3] : x \in m} /\ Len(outs[k].alive) = Cardinality(m)
                       /\ ~outs[k + 1].bad /\ outs[k + 1].alive = << >>
  ELSE LET o == ops[k]
           r == MStep(m, o)
           old == At(m, o.key)
       IN  /\ outs[k].r = (IF old = {} THEN << >> ELSE <<The(old)[3]>>)
           /\ CsWalk(r.m, ops, outs, k + 1)
Accepts(e) == IF e.st # "ok" THEN FALSE ELSE IF e.m = "cs" THEN CsWalk({}, e.a, e.out.a, 1) ELSE MapOk(e)
Conforms == Accepts(Trace[lineNo])
=============================================================================
