------------------------------ MODULE MC_Split -----------------------------
(* A splitter keeps a running claim about the encoding of what is left (0 =  *)
(* unknown, 1 = UTF-8, 2 = ASCII) without looking at the bytes again.  For   *)
(* every string, every script of steps and every nesting of saved positions  *)
(* the claim is right, and what is left stays a contiguous part of the input.*)
EXTENDS Strings, Json
CONSTANTS MaxLen, MaxOps, Emit
VARIABLES sp, enc, encs, hist, utf
vars == <<sp, enc, encs, hist, utf>>
Alphabet == {90, 32, 195, 169}
Inputs == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Steps ==
  {[s |-> k] : k \in {"next", "rnext", "enc", "ws", "slice"}}
  \cup {[s |-> "inval", ty |-> t] : t \in {"Word", "Cmd"}}
  \cup {[s |-> "count", n |-> n] : n \in 0..2}
  \cup {[s |-> "untileq", b |-> <<x>>] : x \in {32, 169}}
  \cup {[s |-> "untilb", b |-> <<195, 32>>]}
  \cup {[s |-> "save", st |-> a, en |-> b] : a, b \in BOOLEAN}
  \cup (IF sp.saves = << >> THEN {} ELSE {[s |-> "end"]})
  \cup {[s |-> "str", ty |-> t, req |-> r] : t \in {"Word", "Cmd"}, r \in BOOLEAN}
  \cup {[s |-> "rest", ty |-> "Bytes"], [s |-> "strd", ty |-> "Word", req |-> FALSE]}
Unsure(e) == IF e = 1 THEN 0 ELSE e
NextEnc(o) ==
  LET l == Left(sp)
      hit == FirstIn(l, IF o.s \in {"untileq", "untilb"} THEN Range(o.b) ELSE {}, 1)
      high(x) == x >= 128
  IN  CASE o.s = "next" -> IF l = << >> THEN enc ELSE IF high(l[1]) THEN 0 ELSE enc
        [] o.s = "rnext" -> IF l = << >> THEN enc ELSE IF high(l[Len(l)]) THEN 0 ELSE enc
        [] o.s = "enc" -> IF enc = 2 \/ l = << >> THEN enc
                          ELSE IF ~Contains(l, 128..255) THEN 2 ELSE IF IsUtf8(l) THEN 1 ELSE enc
        [] o.s = "count" -> IF IMin(o.n, Len(l)) > 0 THEN Unsure(enc) ELSE enc
        [] o.s = "untilb" -> IF hit > Len(l) THEN enc ELSE IF hit > 1 THEN Unsure(enc) ELSE enc
        [] o.s = "untileq" -> IF hit > Len(l) THEN enc ELSE IF high(o.b[1]) THEN Unsure(enc) ELSE enc
        [] o.s = "end" -> LET h == Head(sp.saves)
                          IN  IF h.st /\ h.en THEN Head(encs) ELSE IF h.st \/ h.en THEN IMin(enc, Head(encs)) ELSE enc
        [] OTHER -> enc
Do(o) ==
  /\ Len(hist) < MaxOps
  /\ sp' = SplitStep(sp, o).sp
  /\ enc' = NextEnc(o)
  /\ encs' = IF o.s = "save" THEN <<enc>> \o encs ELSE IF o.s = "end" THEN Tail(encs) ELSE encs
  /\ hist' = Append(hist, o)
  /\ UNCHANGED utf
Init ==
  /\ \E b \in Inputs : sp = SplitNew(Val("Bytes", SubSeq(b, 1, Len(b)), FALSE))
  /\ utf \in BOOLEAN
  /\ utf => IsUtf8(sp.v.b)
  /\ enc = IF utf THEN 1 ELSE 0
  /\ encs = << >> /\ hist = << >>
Next == \E o \in Steps : Do(o)
Spec == Init /\ [][Next]_vars
View == <<sp, enc, encs, utf, Len(hist)>>
ClaimRight == (enc >= 1 => IsUtf8(Left(sp))) /\ (enc = 2 => ~Contains(Left(sp), 128..255))
Within == 0 <= sp.s /\ sp.s <= sp.e /\ sp.e <= Len(sp.v.b)
(* saved positions enclose one another *)
Nested == \A k \in 1..Len(sp.saves) : sp.saves[k].s <= sp.s /\ sp.e <= sp.saves[k].e
Probe(h) == h \o <<[s |-> "prest", ty |-> "Bytes"], [s |-> "slice"]>>
Case == [op |-> "str", strict |-> FALSE, ops |->
  <<[k |-> "new", how |-> IF utf THEN "static" ELSE "slice", ty |-> "Bytes", b |-> sp.v.b, v |-> 0],
    [k |-> "split", i |-> 2, script |-> Probe(hist)]>>]
Emitted == (Emit /\ Len(hist) = MaxOps) => PrintT("@@" \o ToJson(Case))
=============================================================================
