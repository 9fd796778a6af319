------------------------------- MODULE Queue -------------------------------
(* The rate-limited outgoing queue: a FIFO, a token bucket, a labeler, an    *)
(* adjuster collection and a stack of edit guards.                           *)
(* Time is in milliseconds.  `tp` is the bucket's time point: the debt at    *)
(* time `now` is max(0, tp - now); a message may leave iff the debt does not *)
(* exceed burst * delay, and leaving adds `delay` to the debt.               *)
(* A delay may also be longer than any history lasts ("huge"): the debt is   *)
(* then counted in delays (`hd`), and does not shrink.                       *)
EXTENDS ByteSeq

Msg(id) == [id |-> id, marks |-> << >>, label |-> << >>]
MsgL(id) == [id |-> id, marks |-> << >>, label |-> <<"old">>]   \* queued with a label tag of its own
QInit == [q |-> << >>, delay |-> 2000, burst |-> 4, tp |-> 0, now |-> 0, huge |-> FALSE, hd |-> 0,
          lab |-> "none", labs |-> {}, labn |-> 0,
          adjs |-> << >>,                    \* sequence of [id, trig, dm, dr, c]
          guards |-> << >>]                  \* stack of original lengths
Debt(st) == IMax(0, st.tp - st.now)
Wait(st) == IMax(0, Debt(st) - st.burst * st.delay)

(* results: m = popped message option, w = -2 not reported, -1 empty,        *)
(* -4 longer than any history, else ms                                       *)
Pop(st) ==
  IF st.q = << >> THEN [st |-> st, m |-> << >>, w |-> -1]
  ELSE IF st.huge THEN
    IF st.hd > st.burst THEN [st |-> st, m |-> << >>, w |-> -4]
    ELSE [st |-> [st EXCEPT !.q = Tail(@), !.hd = @ + 1], m |-> <<st.q[1]>>, w |-> -2]
  ELSE IF Wait(st) > 0 THEN [st |-> st, m |-> << >>, w |-> Wait(st)]
  ELSE [st |-> [st EXCEPT !.q = Tail(@), !.tp = IMax(st.tp, st.now) + st.delay],
        m |-> <<st.q[1]>>, w |-> -2]

SetLimit(st, d, b) ==
  [st EXCEPT !.delay = d, !.burst = b, !.tp = st.now + d * b + d, !.huge = FALSE]
SetHugeLimit(st, b) == [st EXCEPT !.burst = b, !.huge = TRUE, !.hd = b + 1]
Reset(st) ==
  [st EXCEPT !.hd = 0, !.q = << >>, !.lab = "none", !.labs = {}, !.labn = 0, !.tp = st.now,
             !.adjs = MapSeq(LAMBDA a : [a EXCEPT !.c = 0], st.adjs)]

(* --- adjusting --- *)
RECURSIVE UpdOne(_, _, _, _)
(* one message through all triggered adjusters k..; returns [m, keep, adjs, log] *)
UpdOne(m, adjs, k, kind) ==
  IF k > Len(adjs) THEN [m |-> m, keep |-> TRUE, adjs |-> adjs, log |-> << >>]
  ELSE IF adjs[k].trig # kind THEN UpdOne(m, adjs, k + 1, kind)
  ELSE LET a == adjs[k]
           m2 == [m EXCEPT !.marks = Append(@, <<a.id, a.c>>)]
           r == UpdOne(m2, [adjs EXCEPT ![k].c = @ + 1], k + 1, kind)
       IN  [r EXCEPT !.keep = @ /\ (m.id % a.dm # a.dr), !.log = <<<<a.id, m.id>>>> \o @]
RECURSIVE UpdAll(_, _, _)
UpdAll(q, adjs, kind) ==
  IF q = << >> THEN [q |-> << >>, adjs |-> adjs, log |-> << >>]
  ELSE LET r == UpdOne(q[1], adjs, 1, kind)
           s == UpdAll(Tail(q), r.adjs, kind)
       IN  [q |-> (IF r.keep THEN <<r.m>> ELSE << >>) \o s.q, adjs |-> s.adjs, log |-> r.log \o s.log]
Adjust(st, kind) ==
  LET r == UpdAll(st.q, st.adjs, kind)
  IN  [st |-> [st EXCEPT !.q = r.q, !.adjs = r.adjs], log |-> r.log,
       asked |-> MapSeq(LAMBDA a : a.id, st.adjs)]

(* --- one operation; out is what was observed --- *)
Top(st) == st.guards[Len(st.guards)]
Basic(st) == [n |-> Len(st.q), lab |-> st.lab # "none",
              g |-> IF st.guards = << >> THEN -1 ELSE Len(st.q) - Top(st)]
Sees(st, o) == o.n = Basic(st).n /\ o.lab = Basic(st).lab /\ o.g = Basic(st).g

(* Labels: a custom labeler yields L1, L2, ...; any labeler yields fresh labels *)
CustomLabel(n) == "L" \o ToString(n)
Step(st, op) ==
  CASE op.k = "push"   -> [st EXCEPT !.q = Append(@, IF op.old THEN MsgL(op.id) ELSE Msg(op.id))]
    [] op.k = "ext"    -> [st EXCEPT !.q = @ \o <<Msg(op.id), Msg(op.id + 1)>>]
    [] op.k = "adv"    -> [st EXCEPT !.now = @ + op.ms]
    [] op.k = "lim"    -> SetLimit(st, op.d, op.b)
    [] op.k = "hlim"   -> SetHugeLimit(st, op.b)
    [] op.k = "clear"  -> [st EXCEPT !.q = << >>]
    [] op.k = "reset"  -> Reset(st)
    [] op.k = "labdef" -> [st EXCEPT !.lab = "default", !.labs = {}, !.labn = 0]
    [] op.k = "labcus" -> [st EXCEPT !.lab = "custom", !.labs = {}, !.labn = 0]
    [] op.k = "labno"  -> [st EXCEPT !.lab = "none", !.labs = {}, !.labn = 0]
    [] op.k = "adjset" -> [st EXCEPT !.adjs = MapSeq(LAMBDA a : [id |-> a.id, trig |-> a.trig, dm |-> a.dm, dr |-> a.dr, c |-> 0], op.adjs)]
    [] op.k = "adjno"  -> [st EXCEPT !.adjs = << >>]
    [] op.k = "gopen"  -> [st EXCEPT !.guards = Append(@, Len(st.q))]
    [] op.k = "gclose" -> [st EXCEPT !.guards = Upto(@, Len(@) - 1)]
    [] op.k = "gclear" -> [st EXCEPT !.q = Upto(@, Top(st))]
    [] op.k = "pop"    -> Pop(st).st
    [] op.k = "adj"    -> Adjust(st, op.kind).st
    [] op.k = "many"   -> st          \* op.n labelled pushes through a guard that is then cleared
(* a labelled push of message id, given the label that was (not) attached *)
PushLabeled(st, id, old, lab) ==
  [st EXCEPT !.q = Append(@, [Msg(id) EXCEPT !.label = IF lab # << >> THEN lab ELSE IF old THEN <<"old">> ELSE << >>]),
             !.labs = @ \cup Range(lab), !.labn = @ + Len(lab)]
LabelOk(st, lab) ==
  CASE st.lab = "none" -> lab = << >>
    [] st.lab = "custom" -> lab = <<CustomLabel(st.labn + 1)>>
    [] st.lab = "default" -> Len(lab) = 1 /\ lab[1] \notin st.labs

(* Is `out` what the specification allows for `op` in `st`? *)
Allowed(st, op, out) ==
  CASE op.k = "pop" -> LET p == Pop(st) IN out.m = p.m /\ out.w = p.w
    [] op.k = "adj" -> LET a == Adjust(st, op.kind) IN out.log = a.log /\ out.asked = a.asked
    [] op.k = "many" -> out.distinct = (IF st.lab = "none" THEN 0 ELSE op.n) /\ out.same
    [] op.k = "plab" -> LabelOk(st, out.label)
    [] OTHER -> TRUE
After(st, op, out) ==
  IF op.k = "plab" THEN PushLabeled(st, op.id, op.old, out.label) ELSE Step(st, op)
=============================================================================
