----------------------------- MODULE MC_Queue ------------------------------
(* The token bucket, explored exhaustively: every history of pushes, pops    *)
(* and clock ticks up to a bound, for several limits.                        *)
EXTENDS Queue, Json
CONSTANTS MaxOps, Emit
VARIABLES st, hist, rel, since      \* rel: release times since the last limit change/reset
vars == <<st, hist, rel, since>>

Tick == 500
HugeKind == <<"max", "secs", "i64", "quarter">>    \* how the driver writes a huge delay
Limits == {<<1000, 0>>, <<1000, 2>>, <<2000, 1>>, <<0, 3>>}
Out(t, op) ==
  LET p == IF op.k = "pop" THEN Pop(st) ELSE [m |-> << >>, w |-> -2]
      a == IF op.k = "adj" THEN Adjust(st, op.kind) ELSE [log |-> << >>, asked |-> << >>]
      lb == IF op.k = "plab" /\ st.lab # "none" THEN <<CustomLabel(st.labn + 1)>> ELSE << >>
      b == Basic(t)
  IN  [n |-> b.n, lab |-> b.lab, g |-> b.g, m |-> p.m, w |-> p.w, log |-> a.log, asked |-> a.asked, label |-> lb]
Do(op) ==
  LET lb == IF op.k = "plab" /\ st.lab # "none" THEN <<CustomLabel(st.labn + 1)>> ELSE << >>
      t == After(st, op, [label |-> lb])
  IN  /\ Len(hist) < MaxOps
      /\ st' = t
      /\ hist' = Append(hist, [op |-> op, out |-> Out(t, op)])
      /\ since' = IF op.k \in {"lim", "hlim"} THEN st.now ELSE IF op.k = "reset" THEN -1 ELSE since
      /\ rel' = IF op.k \in {"lim", "hlim", "reset"} THEN << >>
                ELSE IF op.k = "pop" /\ Pop(st).m # << >> THEN Append(rel, st.now) ELSE rel
Init == st = QInit /\ hist = << >> /\ rel = << >> /\ since = -1

RateOps == {[k |-> "push", id |-> Len(hist) + 1, old |-> FALSE], [k |-> "pop"], [k |-> "adv", ms |-> Tick], [k |-> "reset"]}
            \cup {[k |-> "lim", d |-> l[1], b |-> l[2]] : l \in Limits}
            \cup {[k |-> "hlim", u |-> HugeKind[1 + (Len(hist) % 4)], b |-> b] : b \in {0, 2}}
Adjs == {<<[id |-> 1, trig |-> "NICK", dm |-> 3, dr |-> 1]>>,
         <<[id |-> 1, trig |-> "NICK", dm |-> 2, dr |-> 0], [id |-> 2, trig |-> "PART", dm |-> 2, dr |-> 1],
           [id |-> 3, trig |-> "NICK", dm |-> 99, dr |-> 98]>>}
InGuard == st.guards # << >>
EditOps ==
  {[k |-> "push", id |-> Len(hist) + 1, old |-> o] : o \in BOOLEAN} \cup {[k |-> "plab", id |-> Len(hist) + 1, old |-> o] : o \in BOOLEAN}
  \cup (IF Len(st.guards) < 2 THEN {[k |-> "gopen"]} ELSE {})
  \cup (IF InGuard THEN {[k |-> "gclose"], [k |-> "gclear"]}
        ELSE {[k |-> "pop"], [k |-> "ext", id |-> 100 + Len(hist)], [k |-> "clear"], [k |-> "reset"], [k |-> "labcus"], [k |-> "labno"],
              [k |-> "adjno"], [k |-> "adj", kind |-> "NICK"], [k |-> "adj", kind |-> "PART"], [k |-> "adj", kind |-> "PING"]}
             \cup {[k |-> "adjset", adjs |-> a] : a \in Adjs}
             \cup {[k |-> "lim", d |-> 0, b |-> 0]})
NextRate == \E op \in RateOps : Do(op)
NextEdit == \E op \in EditOps : Do(op)
SpecRate == Init /\ [][NextRate]_vars
SpecEdit == Init /\ [][NextEdit]_vars
View == <<st, rel, since, Len(hist)>>

(* --- properties of the bucket --- *)
(* in any window, at most burst+1 messages plus one per full delay *)
RateBound ==
  IF st.huge THEN Len(rel) <= st.burst + 1 ELSE
  \A a, b \in 1..Len(rel) : a <= b /\ st.delay > 0 =>
     b - a + 1 <= st.burst + 1 + (rel[b] - rel[a]) \div st.delay
(* messages released right after a limit change wait for the full delay *)
Pessimistic ==
  (Len(rel) > 0 /\ since >= 0) => ~st.huge /\ rel[1] >= since + st.delay
(* a reported wait is exactly long enough *)
ExactWait ==
  LET p == Pop(st)
  IN  /\ p.w # 0
      /\ p.w > 0 => /\ Pop([st EXCEPT !.now = @ + p.w]).m # << >>
                    /\ Pop([st EXCEPT !.now = @ + p.w - 1]).m = << >>
      /\ (p.w = -1) = (st.q = << >>)
Fifo == \A k \in 1..(Len(st.q) - 1) : st.q[k].id < st.q[k + 1].id
GuardsNested == \A k \in 1..Len(st.guards) : st.guards[k] <= Len(st.q)
                  /\ (k > 1 => st.guards[k - 1] <= st.guards[k])
Emitted == (Emit /\ Len(hist) = MaxOps) => PrintT("@@" \o ToJson(
             [ops |-> MapSeq(LAMBDA h : h.op, hist), exp |-> MapSeq(LAMBDA h : h.out, hist)]))
=============================================================================
