----------------------------- MODULE MC_Client ------------------------------
(* Client histories over small alphabets.  Handlers are called in ascending  *)
(* uid order here (the judge accepts any order); ids are allocated as the    *)
(* library does: reuse the most recently finished id, else the live count.   *)
EXTENDS Client, Json
CONSTANTS MaxOps, Emit, Kind
VARIABLES st, hist, conns, last, pushed, wrote, fin
vars == <<st, hist, conns, last, pushed, wrote, fin>>

RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN << >> ELSE LET m == MinOf(S) IN <<m>> \o Asc(S \ {m})
RECURSIVE Feed(_, _, _)
Feed(s, log, cut) ==
  LET r == RunLoopC(s, log, Obs0, cut)
  IN  IF r.ok \/ Len(log) > 60 THEN [r |-> r, log |-> log]
      ELSE Feed(s, log \o MapSeq(LAMBDA u : <<u, MsgIds(r.st.buf)>>, Asc({h.uid : h \in r.st.live})), cut)

(* ---- scripts ---- *)
ActAlts == {<< >>, <<<<1, 0, 1, 0>>>>, <<<<1, 1, 0, 0>>>>, <<<<2, 0, 1, 1>>>>, <<<<1, 0, 1, 1>>, <<2, 0, 1, 0>>>>,
            <<<<1, 1, 1, 0>>, <<3, 1, 0, 2>>>>}
Chunk(k, acts, t, end) == [t |-> t, id |-> k, acts |-> acts, end |-> end]
Scripts ==
  IF Kind = "handlers" THEN
    {[chunks |-> [k \in 1..n |-> Chunk(k, f[k], 0, (k # s))], eof |-> e] :
        n \in 2..3, f \in [1..3 -> ActAlts], s \in {0, 1}, e \in {-1}}
  ELSE {[chunks |-> [k \in 1..n |-> Chunk(k, <<<<1, IF k = 2 THEN 1 ELSE 0, 0, IF k = 1 THEN q ELSE 0>>>>, t[k], e[k])], eof |-> z] :
          n \in 1..2, q \in {0, 2}, t \in {<<a, b>> : a \in {3, 700, 1503}, b \in {1503, 2207, 6001}}, e \in {<<a, b>> : a \in BOOLEAN, b \in {TRUE}}, z \in {-1, 9007}}
Conf ==
  IF Kind = "handlers" THEN {<< >>}
  ELSE {<<[k |-> "qlim", d |-> d, b |-> b], [k |-> "rlim", ms |-> r], [k |-> "wlim", ms |-> w]>> \o x
          : d \in {0, 1000, 2000}, b \in {0, 1}, r \in {-1, 1000, 1500, 4000}, w \in {-1, 1000},
            x \in {<< >>, <<[k |-> "tfn", vs |-> <<TRUE, FALSE>>, push |-> TRUE]>>}}
Second == [chunks |-> <<Chunk(8, <<<<1, 1, 0, 0>>>>, 0, TRUE)>>, eof |-> -1]

NewId == IF fin # << >> THEN fin[Len(fin)] ELSE Cardinality(st.live)
Uid == 1 + Cardinality({k \in 1..Len(hist) : hist[k].k = "add"})
Ops ==
  {[k |-> "run"], [k |-> "push", id |-> 9000000 + Len(hist)]}
  \cup (IF Uid <= 3 THEN {[k |-> "add", uid |-> Uid, nq |-> n, own |-> 0] : n \in 0..1} ELSE {})
  \cup (IF Kind = "handlers" THEN {[k |-> "close", uid |-> 1], [k |-> "reset"], [k |-> "newconn"], [k |-> "qlim", d |-> 0, b |-> 0],
                                 [k |-> "adj"]}
        ELSE {[k |-> "adv", ms |-> 500], [k |-> "stall", ms |-> 1100], [k |-> "run", until |-> 601]})
Init ==
  /\ conns \in {<<s, Second>> : s \in Scripts}
  /\ hist \in Conf
  /\ st = LET RECURSIVE App(_, _)
              App(s, k) == IF k > Len(hist) THEN s ELSE App(CStep(s, hist[k], [id |-> 0]), k + 1)
          IN  App(CInit(conns), 1)
  /\ last = [r |-> "-", from |-> 0, log |-> << >>, ok |-> TRUE, y |-> {}, f |-> {}]
  /\ pushed = << >> /\ wrote = << >> /\ fin = << >>
Base == Len(SelectSeq(hist, LAMBDA o : o.k \in {"qlim", "rlim", "wlim", "tfn"}))
Do(op) ==
  /\ ~(st.broken /\ op.k # "newconn")
  /\ Len(hist) < MaxOps
  /\ hist' = Append(hist, op)
  /\ IF op.k = "run"
     THEN LET r == Feed(st, << >>, CutOf(st, op))
          IN  /\ ~r.r.amb
              /\ st' = r.r.st
              /\ last' = [r |-> r.r.r, from |-> Now(st), log |-> r.log, ok |-> r.r.ok, y |-> r.r.y, f |-> r.r.f]
              /\ wrote' = wrote \o r.r.a.w
              /\ pushed' = pushed      \* handler pushes are accounted for in ExactlyOnce by id
              /\ fin' = fin \o Asc(r.r.f)
     ELSE /\ st' = CStep(st, op, [id |-> NewId])
          /\ last' = [last EXCEPT !.r = "-"]
          /\ IF op.k \in {"reset", "newconn"} THEN pushed' = << >> /\ wrote' = << >> /\ fin' = << >>
             ELSE /\ pushed' = IF op.k = "push" THEN Append(pushed, op.id) ELSE pushed
                  /\ wrote' = wrote
                  /\ fin' = IF op.k = "add" /\ fin # << >> THEN Upto(fin, Len(fin) - 1) ELSE fin
  /\ conns' = conns
Next == \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars
View == <<st, last, fin, Len(hist), wrote, pushed>>

(* ---- properties ---- *)
IdsDistinct == \A a, b \in st.live : a.id = b.id => a = b
FreshId == \A h \in st.live : h.id # NewId
(* user-queued messages come out once and in order *)
UserOrder ==
  LET w == SelectSeq(wrote \o st.pend \o MapSeq(LAMBDA m : m.id, st.q.q), LAMBDA x : x \in Range(pushed))
  IN  ~st.broken =>
        IF ~st.adj THEN w = pushed
        ELSE /\ w = SelectSeq(pushed, LAMBDA x : x \in Range(w))     \* only the adjuster removes any
             /\ \A k \in 1..Len(pushed) : pushed[k] \in Range(w) \/ pushed[k] % 3 = 0
NoRepeat == NoDup(wrote \o st.pend \o MapSeq(LAMBDA m : m.id, st.q.q))
(* each line's calls are exactly one per handler *)
OncePerLine == \A a, b \in 1..Len(last.log) : last.log[a] = last.log[b] => a = b
RunConverges == last.ok
LineEnds == {k \in 1..Len(conns[1].chunks) : conns[1].chunks[k].end}
TimeoutsRight ==
  /\ last.r = "none" =>
       /\ st.rlim # NoLimit /\ Now(st) >= last.from + st.rlim /\ ~st.tfn.on
       \* no line was completed (or left unread) within the limit before the report
       /\ st.nconn = 1 => \A k \in LineEnds : LET t == conns[1].chunks[k].t
                                              IN  t >= Now(st) \/ t <= Now(st) - st.rlim \/ t <= last.from
  /\ last.r = "stall" => st.rlim = NoLimit /\ st.q.q = << >> /\ st.live # {}
  /\ (last.r = "ok" /\ last.y = {} /\ last.f = {}) => st.q.q = << >> /\ st.live = {}
ResetFresh == (Len(hist) > 0 /\ hist[Len(hist)].k \in {"reset", "newconn"}) =>
  st.q.q = << >> /\ st.pend = << >> /\ st.live = {} /\ st.buf = << >> /\ st.mark = << >> /\ st.q.lab = "none"
Emitted == (Emit /\ Len(hist) = MaxOps) => PrintT("@@" \o ToJson([ops |-> hist, conns |-> conns, cut |-> Len(wrote) * 7 + Cardinality(st.live), mode |-> "sync"]))
=============================================================================
