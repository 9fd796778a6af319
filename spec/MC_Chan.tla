------------------------------- MODULE MC_Chan ------------------------------
(* Every interleaving of the atomic steps of small programs over the channel *)
(* and parker; the programs are also printed as scenarios for the real code. *)
EXTENDS Chan, Json
CONSTANTS Size, Emit
VARIABLES scn, cst, pend, at, outs, woken
vars == <<scn, cst, pend, at, outs, woken>>
(* at[t]: next operation of thread t; outs: results so far, as <<t, op, v,   *)
(* result>>; woken: somebody asked for an unpark by hand.                    *)
O(op) == <<op, 0>>
RxProgs(kind) ==
  CASE kind = "raw" -> {<<O("recvnow")>>, <<O("droprx")>>, <<O("empty"), O("recvnow")>>, <<O("peek"), O("droprx")>>, <<O("peek"), O("empty"), O("peek"), O("recvnow")>>}
    [] kind = "park" -> {<<O("recv")>>, <<O("empty"), O("recv")>>, <<O("droprx")>>, <<O("recvnow")>>, <<O("park"), O("recvnow")>>, <<O("peek"), O("recv")>>, <<O("droppk"), O("recvnow")>>, <<O("park"), O("recv")>>}
    [] kind = "dyn" -> {<<O("recv")>>, <<O("peek"), O("recv")>>, <<O("droprx")>>, <<O("droppk"), O("recvnow")>>}
    [] OTHER -> {<<O("park")>>, <<O("park"), O("park")>>, <<O("droppk")>>}
(* values are numbered per thread and position *)
TxProgs(kind, t) ==
  LET s1 == <<"send", 4 * t - 3>>
      s2 == <<"send", 4 * t - 2>>
  IN  CASE kind = "raw" -> {<<s1>>, <<O("closed"), s1>>, <<O("drop")>>, <<O("clone"), s1, s2>>, <<O("clone"), O("drop"), s1>>, <<O("closed"), O("drop")>>}
        [] kind = "park" -> {<<s1>>, <<s1, s2>>, <<O("drop")>>, <<O("clone"), O("drop"), s1>>, <<O("closed"), s1, O("closed")>>, <<O("unpark"), s1>>, <<O("stray"), s1>>, <<O("stray"), O("drop")>>, <<s1, O("await")>>, <<O("clone"), s1, O("await")>>}
        [] kind = "dyn" -> IF t = 1 THEN {<<s1>>, <<O("closed"), s1, O("closed")>>, <<s1, s2>>, <<O("drop")>>, <<O("closed")>>, <<s1, O("await")>>} ELSE {<<O("stray")>>, <<O("stray"), O("stray")>>}
        [] OTHER -> {<<O("unpark")>>, <<O("unpark"), O("unpark")>>, <<O("drop")>>, <<O("clone"), O("unpark"), O("drop")>>, <<O("stray"), O("unpark")>>}
Scns ==
  UNION {{[kind |-> k, rx |-> r, tx |-> <<a>>, spurious |-> sp] : r \in RxProgs(k), a \in TxProgs(k, 1), sp \in IF k = "raw" THEN {0} ELSE {0, 1}} : k \in Kinds}
  \cup UNION {{[kind |-> k, rx |-> r, tx |-> <<a, b>>, spurious |-> 0] : r \in RxProgs(k), a \in TxProgs(k, 1), b \in (IF Size = 1 THEN {CHOOSE x \in TxProgs(k, 2) : TRUE} ELSE TxProgs(k, 2))} : k \in Kinds}
  \cup (IF Size < 3 THEN {} ELSE
        UNION {{[kind |-> k, rx |-> r, tx |-> <<a, b, c>>, spurious |-> 0] : r \in RxProgs(k), a \in TxProgs(k, 1), b \in TxProgs(k, 2), c \in TxProgs(k, 3)} : k \in {"raw", "park"}})
Threads == 0..Len(scn.tx)
Prog(t) == IF t = 0 THEN scn.rx ELSE scn.tx[t]
Init ==
  /\ scn \in Scns
  /\ cst = ChanInit(scn.kind, Len(scn.tx))
  /\ pend = [t \in 0..Len(scn.tx) |-> Idle] /\ at = [t \in 0..Len(scn.tx) |-> 1]
  /\ outs = {} /\ woken = FALSE
(* What thread t does next: its program (operations it has no handle for are *)
(* skipped), then it drops what it holds.                                    *)
HasRx(c) == c.rx = "open"
NextOp(t) ==
  IF at[t] <= Len(Prog(t)) THEN Prog(t)[at[t]]
  ELSE IF t = 0 THEN IF HasRx(cst) THEN <<"droprx", 0>> ELSE << >>
  ELSE IF cst.hs[t] # << >> THEN <<"drop", 0>> ELSE << >>
Skips(t, o) ==
  \/ o[1] = "stray"
  \/ t # 0 /\ cst.hs[t] = << >>
  \/ t # 0 /\ o[1] = "unpark" /\ cst.kind = "raw"
Call(t) ==
  /\ pend[t].op = "idle" /\ NextOp(t) # << >>
  /\ LET o == NextOp(t)
         op == IF o[1] = "closed" /\ cst.kind # "raw" THEN "may" ELSE o[1]
     IN  IF Skips(t, o) THEN UNCHANGED <<pend, woken>>
         ELSE /\ pend' = [pend EXCEPT ![t] = [op |-> op, v |-> o[2], k |-> 1, r |-> << >>]]
              /\ woken' = (woken \/ op = "unpark")
  /\ at' = [at EXCEPT ![t] = @ + 1]
  /\ UNCHANGED <<scn, cst, outs>>
StepT(t) ==
  /\ pend[t].op # "idle"
  /\ \E x \in Micro(cst, t, pend[t]) :
       /\ cst' = x.c
       /\ IF x.p.r = << >> THEN pend' = [pend EXCEPT ![t] = x.p] /\ UNCHANGED outs
          ELSE pend' = [pend EXCEPT ![t] = Idle] /\ outs' = outs \cup {<<t, x.p.op, x.p.v, x.p.r, cst.unp>>}
  /\ UNCHANGED <<scn, at, woken>>
Finished == \A t \in Threads : pend[t].op = "idle" /\ NextOp(t) = << >>
Next == (\E t \in Threads : Call(t) \/ StepT(t)) \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(\E t \in Threads : Call(t) \/ StepT(t))
OneOk == Cardinality({x \in outs : x[2] = "send" /\ x[4] = <<"ok">>}) <= 1
ReceivedSent == \A x \in outs : x[4][1] = "some" => cst.slot = x[4][2]
(* a blocking receive comes back empty only if nobody can send any more, or  *)
(* it was told to stop waiting                                               *)
EmptyHanded == \A x \in outs : (x[2] = "recv" /\ x[4] = <<"none">>) => (x[5] = 0 \/ woken)
(* at the end, every value is accounted for exactly once *)
Ids == {o[2] : o \in UNION {{scn.tx[t][k] : k \in 1..Len(scn.tx[t])} : t \in 1..Len(scn.tx)}} \ {0}
Sent(v) == \E x \in outs : x[2] = "send" /\ x[3] = v
Accounted == Finished => \A v \in Ids : Sent(v) =>
   Cardinality({x \in outs : x[4] = <<"back", v>> \/ (x[2] \in {"recv", "recvnow"} /\ x[4] = <<"some", v>>)}) + (IF v \in cst.lost THEN 1 ELSE 0) = 1
Finishes == <>Finished
Emitted == (Emit /\ outs = {} /\ \A t \in Threads : at[t] = 1) => PrintT("@@" \o ToJson(scn))
NextEmit == FALSE /\ UNCHANGED vars
SpecEmit == Init /\ [][NextEmit]_vars
=============================================================================
