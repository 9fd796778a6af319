------------------------------ MODULE ChanImpl ------------------------------
(* The algorithm of the oneshot channel and the parker, one action per       *)
(* atomic operation of the code, with the memory it manages: a receiver that *)
(* blocks for (or just takes, or drops) a value, and senders that send       *)
(* and/or drop.  Sequentially consistent; a parked thread may be woken for   *)
(* no reason.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Spurious, Emit
(* fin: values dropped or received; boxes: live thread handles (at most one  *)
(* per receiver); viol: what went wrong with memory.                         *)
VARIABLES prog, pc, refs, recver, once, val, inner, ptr, strong, token, box, spur, got, sentOk, fin, viol, hist
vars == <<prog, pc, refs, recver, once, val, inner, ptr, strong, token, box, spur, got, sentOk, fin, viol, hist>>
shared == <<refs, recver, once, val, inner, ptr, strong, token, box, spur, got, sentOk, fin>>
Tx == 1..N
TxProgs == {"send", "drop"}
RxProgs == {"recv", "recvnow", "droprx"}
Init ==
  /\ prog \in {p \in [0..N -> TxProgs \cup RxProgs] : p[0] \in RxProgs /\ \A t \in Tx : p[t] \in TxProgs}
  /\ pc = [t \in 0..N |-> IF t = 0 THEN IF prog[0] = "recv" THEN "r1" ELSE "n1" ELSE IF prog[t] = "send" THEN "s1" ELSE "d1"]
  /\ refs = N + 1 /\ recver = TRUE /\ once = "new" /\ val = 0 /\ inner = "live"
  /\ ptr = "null" /\ strong = N /\ token = FALSE /\ box = "none" /\ spur = Spurious
  /\ got = -1 /\ sentOk = {} /\ fin = << >> /\ viol = {} /\ hist = << >>
Goto(t, l) == pc' = [pc EXCEPT ![t] = l] /\ hist' = Append(hist, t) /\ UNCHANGED prog
Uses(x) == IF x = "live" THEN viol' = viol ELSE viol' = viol \cup {"use after free"}
(* dropping one handle to the shared allocation *)
Release(t, l) ==
  /\ refs' = refs - 1
  /\ IF refs = 1 THEN inner' = IF inner = "live" THEN "freed" ELSE "freed twice" ELSE UNCHANGED inner
  /\ Uses(inner) /\ Goto(t, l)
  /\ UNCHANGED <<recver, once, val, ptr, strong, token, box, spur, got, sentOk, fin>>

(* -------------------------------- senders ------------------------------- *)
S1(t) == pc[t] = "s1" /\ Uses(inner) /\ Goto(t, IF recver THEN "s2" ELSE "s4") /\ UNCHANGED shared
S2(t) == /\ pc[t] = "s2" /\ once # "running" /\ Uses(inner)
         /\ IF once = "done" THEN Goto(t, "s4") /\ UNCHANGED once ELSE Goto(t, "s3") /\ once' = "running"
         /\ UNCHANGED <<refs, recver, val, inner, ptr, strong, token, box, spur, got, sentOk, fin>>
S3(t) == /\ pc[t] = "s3" /\ Uses(inner) /\ val' = t /\ once' = "done" /\ sentOk' = sentOk \cup {t} /\ Goto(t, "s4")
         /\ UNCHANGED <<refs, recver, inner, ptr, strong, token, box, spur, got, fin>>
S4(t) == pc[t] = "s4" /\ Release(t, IF t \in sentOk THEN "s5" ELSE "d1")
S5(t) == /\ pc[t] = "s5" /\ ptr' = "skip" /\ viol' = viol
         /\ Goto(t, IF ptr = "th" THEN "s6" ELSE "d1")
         /\ UNCHANGED <<refs, recver, once, val, inner, strong, token, box, spur, got, sentOk, fin>>
Unpark(t, l) ==
  /\ token' = TRUE /\ box' = IF box = "live" THEN "freed" ELSE "freed twice"
  /\ Uses(box) /\ Goto(t, l)
  /\ UNCHANGED <<refs, recver, once, val, inner, ptr, strong, spur, got, sentOk, fin>>
S6(t) == pc[t] = "s6" /\ Unpark(t, "d1")
(* dropping the unparker, then the sender if it is still there *)
D1(t) == /\ pc[t] = "d1" /\ strong' = strong - 1 /\ viol' = viol
         /\ Goto(t, IF strong = 1 /\ ptr = "th" THEN "d2" ELSE IF prog[t] = "send" THEN "end" ELSE "d3")
         /\ UNCHANGED <<refs, recver, once, val, inner, ptr, token, box, spur, got, sentOk, fin>>
D2(t) == pc[t] = "d2" /\ Unpark(t, IF prog[t] = "send" THEN "end" ELSE "d3")
D3(t) == pc[t] = "d3" /\ Release(t, "end")

(* -------------------------------- receiver ------------------------------ *)
R1 == pc[0] = "r1" /\ Uses(inner) /\ Goto(0, IF once = "done" THEN "n1" ELSE "p1") /\ UNCHANGED shared
Upgrade(from, ok, no) ==
  /\ pc[0] = from /\ viol' = viol
  /\ IF strong = 0 THEN Goto(0, no) /\ UNCHANGED strong ELSE Goto(0, ok) /\ strong' = strong + 1
  /\ UNCHANGED <<refs, recver, once, val, inner, ptr, token, box, spur, got, sentOk, fin>>
P1 == Upgrade("p1", "p2", "n1")
P2 == /\ pc[0] = "p2" /\ viol' = viol
      /\ IF ptr = "null" THEN ptr' = "th" /\ box' = "live" /\ Goto(0, "p3") ELSE UNCHANGED <<ptr, box>> /\ Goto(0, "p6")
      /\ UNCHANGED <<refs, recver, once, val, inner, strong, token, spur, got, sentOk, fin>>
P3 == pc[0] = "p3" /\ viol' = viol /\ Goto(0, IF ptr = "th" THEN "p4" ELSE "p6") /\ UNCHANGED shared
P4 == /\ pc[0] = "p4" /\ strong' = strong - 1
      /\ IF strong = 1 THEN /\ Goto(0, "n1")
                            /\ IF ptr = "th" THEN box' = (IF box = "live" THEN "freed" ELSE "freed twice") /\ Uses(box) ELSE UNCHANGED box /\ viol' = viol
         ELSE Goto(0, "p5") /\ UNCHANGED box /\ viol' = viol
      /\ UNCHANGED <<refs, recver, once, val, inner, ptr, token, spur, got, sentOk, fin>>
P5 == /\ pc[0] = "p5" /\ viol' = viol /\ token /\ token' = FALSE /\ Goto(0, "p5b")
      /\ UNCHANGED <<refs, recver, once, val, inner, ptr, strong, box, spur, got, sentOk, fin>>
Stray == /\ pc[0] = "p5" /\ spur > 0 /\ spur' = spur - 1 /\ viol' = viol /\ Goto(0, "p5b")
         /\ UNCHANGED <<refs, recver, once, val, inner, ptr, strong, token, box, got, sentOk, fin>>
P5b == Upgrade("p5b", "p3", "n1")
P6 == /\ pc[0] = "p6" /\ ptr' = "null" /\ viol' = viol /\ Goto(0, "p7")
      /\ UNCHANGED <<refs, recver, once, val, inner, strong, token, box, spur, got, sentOk, fin>>
P7 == /\ pc[0] = "p7" /\ strong' = strong - 1 /\ viol' = viol /\ Goto(0, "n1")
      /\ UNCHANGED <<refs, recver, once, val, inner, ptr, token, box, spur, got, sentOk, fin>>
N1 == /\ pc[0] = "n1" /\ recver' = FALSE /\ Uses(inner) /\ Goto(0, "n2")
      /\ UNCHANGED <<refs, once, val, inner, ptr, strong, token, box, spur, got, sentOk, fin>>
N2 == /\ pc[0] = "n2" /\ once # "running" /\ Uses(inner) /\ once' = "done"
      /\ IF once = "new" THEN got' = 0 /\ UNCHANGED fin ELSE got' = val /\ fin' = Append(fin, val)
      /\ Goto(0, "n4")
      /\ UNCHANGED <<refs, recver, val, inner, ptr, strong, token, box, spur, sentOk>>
N4 == pc[0] = "n4" /\ Release(0, "end")
Finished == \A t \in 0..N : pc[t] = "end"
Step ==
  \/ \E t \in Tx : S1(t) \/ S2(t) \/ S3(t) \/ S4(t) \/ S5(t) \/ S6(t) \/ D1(t) \/ D2(t) \/ D3(t)
  \/ R1 \/ P1 \/ P2 \/ P3 \/ P4 \/ P5 \/ P5b \/ P6 \/ P7 \/ N1 \/ N2 \/ N4
Next == Step \/ Stray \/ (Finished /\ ~Emit /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)
View == <<prog, pc, refs, recver, once, val, inner, ptr, strong, token, box, spur, got, sentOk, fin, viol>>

MemorySafe == viol = {} /\ inner # "freed twice" /\ box # "freed twice"
AtMostOne == Cardinality(sentOk) <= 1
ExactlyOnce == Finished => /\ fin = (IF sentOk = {} THEN << >> ELSE <<CHOOSE t \in sentOk : TRUE>>)
                           /\ inner = "freed" /\ box \in {"none", "freed"} /\ strong = 0
NothingLost == (Finished /\ prog[0] = "recv" /\ got = 0) => \A t \in Tx : prog[t] = "drop"
Finishes == <>Finished
Emitted == (Emit /\ Finished) => PrintT("@@" \o ToJson([kind |-> "park", spurious |-> Spurious,
   rx |-> <<<<prog[0], 0>>>>, tx |-> [t \in Tx |-> IF prog[t] = "send" THEN <<<<"send", t>>>> ELSE <<<<"drop", 0>>>>], sched |-> hist]))
=============================================================================
