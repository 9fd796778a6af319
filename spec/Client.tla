------------------------------- MODULE Client -------------------------------
(* The client: handlers, outgoing queue, connection, time limits.            *)
(*                                                                           *)
(* Time is in milliseconds since the start of the history.  A connection is  *)
(* a script of input chunks [t, id, acts, end]: at time t the chunk becomes  *)
(* readable; a chunk with end completes a line, otherwise the line goes on   *)
(* in the next chunk.  The chunks of a line name what the recording handlers *)
(* do on it: acts = <<uid, sends, finish, queued>>.  eof is the time the     *)
(* stream ends, or -1 if it just stays silent.                               *)
EXTENDS Queue

NoLimit == -1
DefaultSourceLen == 85
Clamp(ms) == IF ms < 0 THEN NoLimit ELSE IMax(ms, 1000)
EmptyConn == [chunks |-> << >>, eof |-> -1]

CInit(conns) ==
  [q |-> QInit, live |-> {},          \* live handlers: records [uid, id, open]
   chunks |-> conns[1].chunks, eof |-> conns[1].eof, nconn |-> 1, conns |-> conns,
   buf |-> << >>,                     \* chunks of the line read so far
   rlim |-> NoLimit, wlim |-> NoLimit,
   stall |-> 0, sat |-> -1,           \* the next write stalls so long; when a stall under way will end
   pend |-> << >>,                    \* ids taken from the queue by a write that was abandoned
   adj |-> FALSE, resets |-> 0,       \* an adjuster is installed; how often adjusters were reset
   tfn |-> [on |-> FALSE, vs |-> << >>, push |-> FALSE, n |-> 0],
   mark |-> << >>, sl |-> DefaultSourceLen, broken |-> FALSE]
Now(st) == st.q.now
AtTime(st, t) == [st EXCEPT !.q.now = t]
PushId(st, id) == [st EXCEPT !.q.q = Append(@, Msg(id))]
RECURSIVE PushIds(_, _)
PushIds(st, ids) == IF ids = << >> THEN st ELSE PushIds(PushId(st, ids[1]), Tail(ids))

(* ---- flushing: everything the rate limit allows is written, in order ---- *)
RECURSIVE PopAll(_, _)
PopAll(q, w) ==
  LET p == Pop(q)
  IN  IF p.m = << >> THEN [q |-> p.st, w |-> w, wait |-> p.w] ELSE PopAll(p.st, Append(w, p.m[1].id))
(* result: st, w (ids written), wait (-1 = queue empty), err, cut, amb       *)
(* A run may be abandoned (its future dropped) at time cut, -1 = never; what *)
(* the write under way had not written by then is written by the next one.   *)
FlushC(st, cut) ==
  LET p == PopAll(st.q, << >>)
      w == st.pend \o p.w
      s1 == [st EXCEPT !.q = p.q, !.pend = << >>]
      ends == IF st.sat >= 0 THEN st.sat ELSE Now(st) + st.stall
      errs == Now(st) + st.wlim
      late == st.stall > 0 /\ w # << >> /\ ends > Now(st)
      fails == st.wlim # NoLimit /\ ends >= errs
      at == IF fails THEN errs ELSE ends
      R(x, ids, err, gone, amb) == [st |-> x, w |-> ids, wait |-> p.wait, err |-> err, cut |-> gone, amb |-> amb]
  IN  IF w = << >> THEN R(s1, w, FALSE, FALSE, FALSE)
      ELSE IF ~late THEN R([s1 EXCEPT !.stall = 0, !.sat = -1], w, FALSE, FALSE, FALSE)
      ELSE IF cut >= 0 /\ cut <= at
      THEN R([AtTime(s1, cut) EXCEPT !.pend = w, !.sat = ends], << >>, FALSE, TRUE, cut = at)
      ELSE IF fails
      THEN R([AtTime(s1, errs) EXCEPT !.stall = 0, !.sat = -1], << >>, TRUE, FALSE, ends = errs)
      ELSE R([AtTime(s1, ends) EXCEPT !.stall = 0, !.sat = -1], w, FALSE, FALSE, FALSE)
Flush(st) == FlushC(st, -1)

(* ---- reading one message before the deadline dl (-1 = none) ---- *)
RECURSIVE ReadMsg(_, _)
ReadMsg(st, dl) ==
  LET none == st.chunks = << >>
      at == IF none THEN st.eof ELSE st.chunks[1].t
      silent == none /\ st.eof < 0
      t == IMax(Now(st), at)
  IN  IF silent THEN (IF dl < 0 THEN [st |-> st, r |-> "stall", amb |-> FALSE]
                      ELSE [st |-> AtTime(st, dl), r |-> "late", amb |-> FALSE])
      ELSE IF dl >= 0 /\ t >= dl THEN [st |-> AtTime(st, dl), r |-> "late", amb |-> t = dl]
      ELSE IF none THEN [st |-> AtTime(st, t), r |-> "eof", amb |-> FALSE]
      ELSE LET c == st.chunks[1]
               s1 == [AtTime(st, t) EXCEPT !.chunks = Tail(@), !.buf = Append(@, c)]
           IN  IF c.end THEN [st |-> s1, r |-> "msg", amb |-> FALSE] ELSE ReadMsg(s1, dl)

(* ---- running the handlers on the line in buf ---- *)
MsgIds(buf) == MapSeq(LAMBDA c : c.id, buf)
ActsOf(buf, uid) == SelectSeq(Cat(MapSeq(LAMBDA c : c.acts, buf)), LAMBDA a : a[1] = uid)
RECURSIVE SumF(_, _)
SumF(acts, f) == IF acts = << >> THEN 0 ELSE acts[1][f] + SumF(Tail(acts), f)
Finishes(buf, uid) == \E k \in 1..Len(ActsOf(buf, uid)) : ActsOf(buf, uid)[k][3] = 1
Queued(buf, uid) ==
  LET n == SumF(ActsOf(buf, uid), 4)
  IN  [k \in 1..n |-> uid * 10000 + buf[1].id * 10 + (k - 1)]
Sends(buf, h) == IF h.open THEN SumF(ActsOf(buf, h.uid), 2) ELSE 0
(* the recorded calls `calls` = <<uid, ids>> must be one per live handler, in any order *)
CallsOk(st, calls) ==
  /\ Len(calls) = Cardinality(st.live)
  /\ {calls[k][1] : k \in 1..Len(calls)} = {h.uid : h \in st.live}
  /\ \A k \in 1..Len(calls) : calls[k][2] = MsgIds(st.buf)
(* an adjuster sees every line before the handlers do; this one drops queued  *)
(* messages whose id is a multiple of three when the line's last id is odd    *)
AdjMsg(st) ==
  IF st.adj /\ (LET b == st.buf IN b[Len(b)].id % 2 = 1)
  THEN [st EXCEPT !.q.q = SelectSeq(@, LAMBDA m : m.id % 3 # 0)] ELSE st
HandleMsg(st, calls) ==
  LET yl == {h \in st.live : Sends(st.buf, h) > 0}
      fin == {h \in st.live : Finishes(st.buf, h.uid)}
      s1 == PushIds(AdjMsg(st), Cat([k \in 1..Len(calls) |-> Queued(st.buf, calls[k][1])]))
      recv == Cat([k \in 1..Len(calls) |->
                LET h == CHOOSE x \in st.live : x.uid = calls[k][1]
                IN  [j \in 1..Sends(st.buf, h) |-> <<h.uid, st.buf[1].id>>]])
  IN  [st |-> [s1 EXCEPT !.live = @ \ fin, !.buf = << >>],
       y |-> {h.id : h \in yl}, f |-> {h.id : h \in fin},
       fu |-> {h.uid : h \in fin}, recv |-> recv]

(* ---- Client::run; a accumulates what was observed so far ---- *)
Obs0 == [w |-> << >>, tf |-> 0, recv |-> << >>, dropped |-> {}, adj |-> << >>]
Final(st, r, a, log) ==
  [st |-> st, r |-> r, y |-> {}, f |-> {}, a |-> a, rest |-> log, ok |-> TRUE, amb |-> FALSE]
RECURSIVE RunLoopC(_, _, _, _)
RunLoopC(st, log, a0, cut) ==
  LET fl == FlushC(st, cut)
      a == [a0 EXCEPT !.w = @ \o fl.w]
      s == fl.st
  IN  IF fl.amb THEN [Final(s, "amb", a, log) EXCEPT !.amb = TRUE]
      ELSE IF fl.err THEN Final([s EXCEPT !.broken = TRUE], "timeout", a, log)
      ELSE IF fl.cut THEN Final(s, "cut", a, log)
      ELSE IF s.live = {} THEN
        IF fl.wait >= 0 /\ cut >= 0 /\ Now(s) + fl.wait >= cut THEN [Final(AtTime(s, cut), "cut", a, log) EXCEPT !.amb = Now(s) + fl.wait = cut]
        ELSE IF fl.wait >= 0 THEN RunLoopC(AtTime(s, Now(s) + fl.wait), log, a, cut)
        ELSE Final(s, "ok", a, log)
      ELSE
        LET byq == fl.wait >= 0 /\ (s.rlim = NoLimit \/ fl.wait < s.rlim)
            lim == IF byq THEN fl.wait ELSE s.rlim
            dl == IF lim = NoLimit THEN -1 ELSE Now(s) + lim
            first == cut >= 0 /\ (dl < 0 \/ cut <= dl)
            rd == ReadMsg(s, IF first THEN cut ELSE dl)
        IN  IF rd.amb \/ (first /\ cut = dl) THEN [Final(rd.st, "amb", a, log) EXCEPT !.amb = TRUE]
            ELSE IF rd.r = "stall" \/ rd.r = "eof" THEN Final([rd.st EXCEPT !.broken = TRUE], rd.r, a, log)
            ELSE IF rd.r = "late" /\ first THEN Final(rd.st, "cut", a, log)
            ELSE IF rd.r = "late" THEN
              IF byq THEN RunLoopC(rd.st, log, a, cut)
              ELSE IF ~rd.st.tfn.on THEN Final(rd.st, "none", a, log)
              ELSE LET t == rd.st.tfn
                       go == t.vs # << >> /\ t.vs[1]
                       s1 == [rd.st EXCEPT !.tfn.vs = IF t.vs = << >> THEN t.vs ELSE Tail(t.vs), !.tfn.n = @ + 1]
                       s2 == IF t.push THEN PushId(s1, 8000000 + s1.tfn.n) ELSE s1
                       a2 == [a EXCEPT !.tf = @ + 1]
                   IN  IF go THEN RunLoopC(s2, log, a2, cut) ELSE Final([s2 EXCEPT !.broken = TRUE], "timeout", a2, log)
            ELSE
              LET n == Cardinality(rd.st.live)
                  calls == Upto(log, IMin(n, Len(log)))
              IN  IF ~CallsOk(rd.st, calls) THEN [Final(rd.st, "bad", a, log) EXCEPT !.ok = FALSE]
                  ELSE LET h == HandleMsg(rd.st, calls)
                           a2 == [a EXCEPT !.recv = @ \o h.recv, !.dropped = @ \cup h.fu,
                                         !.adj = IF rd.st.adj THEN Append(@, MsgIds(rd.st.buf)) ELSE @]
                           log2 == From(log, n + 1)
                       IN  IF h.y = {} /\ h.f = {} THEN RunLoopC(h.st, log2, a2, cut)
                           ELSE LET f2 == FlushC(h.st, cut)
                                    a3 == [a2 EXCEPT !.w = @ \o f2.w]
                                IN  IF f2.amb THEN [Final(f2.st, "amb", a3, log2) EXCEPT !.amb = TRUE]
                                    ELSE IF f2.cut THEN Final(f2.st, "cut", a3, log2)
                                    ELSE IF f2.err THEN Final([f2.st EXCEPT !.broken = TRUE], "timeout", a3, log2)
                                    ELSE [Final(f2.st, "ok", a3, log2) EXCEPT !.y = h.y, !.f = h.f]

RunLoop(st, log, a0) == RunLoopC(st, log, a0, -1)
CutOf(st, op) == IF "until" \in DOMAIN op THEN Now(st) + op.until ELSE -1

(* ---- the other operations ---- *)
ResetC(st) ==
  [st EXCEPT !.q = Reset(@), !.live = {}, !.buf = << >>, !.pend = << >>, !.mark = << >>, !.sl = DefaultSourceLen,
             !.resets = IF st.adj THEN @ + 1 ELSE @]
NextConn(st) ==
  LET n == st.nconn + 1
      c == IF n <= Len(st.conns) THEN st.conns[n] ELSE EmptyConn
  IN  [st EXCEPT !.nconn = n, !.chunks = c.chunks, !.eof = c.eof, !.stall = 0, !.sat = -1]
CStep(st, op, out) ==
  CASE op.k = "add"   -> PushIds([st EXCEPT !.live = @ \cup {[uid |-> op.uid, id |-> out.id, open |-> TRUE]}],
                                 [k \in 1..op.nq |-> op.uid * 10000 + (k - 1)])
    [] op.k = "close" -> [st EXCEPT !.live = {IF h.uid = op.uid THEN [h EXCEPT !.open = FALSE] ELSE h : h \in @}]
    [] op.k = "push"  -> PushId(st, op.id)
    [] op.k = "adv"   -> AtTime(st, Now(st) + op.ms)
    [] op.k = "rlim"  -> [st EXCEPT !.rlim = Clamp(op.ms)]
    [] op.k = "wlim"  -> [st EXCEPT !.wlim = Clamp(op.ms)]
    [] op.k = "qlim"  -> [st EXCEPT !.q = SetLimit(@, op.d, op.b)]
    [] op.k = "tfn"   -> [st EXCEPT !.tfn = [on |-> TRUE, vs |-> op.vs, push |-> op.push, n |-> 0]]
    [] op.k = "notfn" -> [st EXCEPT !.tfn = [on |-> FALSE, vs |-> << >>, push |-> FALSE, n |-> 0]]
    [] op.k = "stall" -> [st EXCEPT !.stall = op.ms]
    [] op.k = "mark"  -> [st EXCEPT !.mark = <<op.v>>]
    [] op.k = "setsl" -> [st EXCEPT !.sl = op.n]
    [] op.k = "lab"   -> [st EXCEPT !.q.lab = "default"]
    [] op.k = "adj"   -> [st EXCEPT !.adj = TRUE]
    [] op.k = "noadj" -> [st EXCEPT !.adj = FALSE]
    [] op.k \in {"addfail", "withspec"} -> st
    [] op.k = "reset" -> ResetC(st)
    [] op.k = "newconn" -> [NextConn(ResetC(st)) EXCEPT !.broken = FALSE]
    [] op.k = "withconn" -> NextConn(st)
RefusedOk(op, out) == op.k = "addfail" => out.fl = 77       \* the maker's own error comes back
IdOk(st, op, out) == op.k = "add" => out.id >= 0 /\ \A h \in st.live : h.id # out.id
DroppedBy(st, op) == IF op.k \in {"reset", "newconn"} THEN {h.uid : h \in st.live} ELSE {}

(* ---- what can be seen after an operation ---- *)
NoDup(s) == Cardinality(Range(s)) = Len(s)
SameRecv(x, y) ==
  /\ Len(x) = Len(y)
  /\ \A u \in {x[k][1] : k \in 1..Len(x)} \cup {y[k][1] : k \in 1..Len(y)} :
       SelectSeq(x, LAMBDA e : e[1] = u) = SelectSeq(y, LAMBDA e : e[1] = u)
Visible(st, o) ==
  /\ o.nr = (st.live # {} \/ st.q.q # << >> \/ st.pend # << >>)
  /\ o.qn = Len(st.q.q)
  /\ o.lab = (st.q.lab # "none")
  /\ o.mark = st.mark /\ o.sl = st.sl
  /\ o.resets = st.resets
Seen(a, o) ==
  /\ o.w = a.w /\ o.tf = a.tf /\ o.adj = a.adj
  /\ SameRecv(o.recv, a.recv)
  /\ NoDup(o.dropped) /\ Range(o.dropped) = a.dropped
=============================================================================
