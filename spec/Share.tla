------------------------------- MODULE Share -------------------------------
(* Strings shared between threads.  A string's text never changes, whatever  *)
(* other threads do with strings that share its buffer, so what a thread     *)
(* sees depends on its own operations only.  A thread's strings are slots.   *)
EXTENDS ByteSeq
Slot(b) == [b |-> b, live |-> TRUE]
ShRes(sl, r) == [sl |-> sl, r |-> r]
(* What may be known of a text without looking: nothing (0), or the truth.   *)
Known(b) == IF IsUtf8(b) THEN 1 ELSE 2
ShStep(sl, o, base) ==
  IF o.k \in {"R", "C", "U", "L"} THEN
    CASE o.k = "R" -> ShRes(sl, base)
      [] o.k = "C" -> ShRes(Append(sl, Slot(base)), << >>)
      [] o.k = "U" -> ShRes(sl, <<IF IsUtf8(base) THEN 1 ELSE 0>>)
      [] o.k = "L" -> ShRes(sl, <<Known(base)>>)
  ELSE LET b == sl[o.i].b
           gone == [sl EXCEPT ![o.i].live = FALSE]
           n == IMin(o.n, Len(b))
       IN  CASE o.k = "c" -> ShRes(Append(sl, Slot(b)), << >>)
             [] o.k = "d" -> ShRes(gone, << >>)
             [] o.k = "r" -> ShRes(sl, b)
             [] o.k = "o" -> ShRes(sl, << >>)
             [] o.k = "u" -> ShRes(sl, <<IF IsUtf8(b) THEN 1 ELSE 0>>)
             [] o.k = "l" -> ShRes(sl, <<Known(b)>>)
             [] o.k = "v" -> ShRes(gone, b)
             [] o.k = "s" -> ShRes(Append([sl EXCEPT ![o.i].b = From(b, n + 1)], Slot(Upto(b, n))), << >>)
RECURSIVE ShWalk(_, _, _, _, _)
ShWalk(sl, ops, log, k, base) ==
  IF k > Len(ops) THEN Len(log) = Len(ops)
  ELSE IF k > Len(log) THEN FALSE
  ELSE LET r == ShStep(sl, ops[k], base)
           lazy == ops[k].k \in {"L", "l"} /\ log[k] = <<0>>
       IN  (log[k] = r.r \/ lazy) /\ ShWalk(r.sl, ops, log, k + 1, base)
=============================================================================
