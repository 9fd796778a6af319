------------------------------ MODULE Framing ------------------------------
(* How a byte stream becomes a sequence of messages and errors.              *)
(* Ref* is the declarative reference: split the whole stream into lines.     *)
(* The incremental reader below (Feed) is what an implementation that sees   *)
(* the stream piecemeal has to do; MC_Framing checks it equals the reference *)
(* for every way the stream can arrive.                                      *)
EXTENDS Msg

Eof == [ok |-> FALSE, err |-> "Eof"]
Done == [ok |-> FALSE, err |-> "Done"]      \* the codec's end of a stream with nothing left over
TooLong == [ok |-> FALSE, err |-> "TooLong"]
BadLine == [ok |-> FALSE, err |-> "InvalidLine"]
StripCr(l) == Upto(l, LastNotIn(l, {CR, LF}))

(* what the limit being hit is reported as: the byte at the limit decides *)
OverLong(b) == IF b \in {CR, NUL} THEN BadLine ELSE TooLong

(* ---- plain readers: one line per call, blank lines skipped ---- *)
RECURSIVE RefRead(_, _, _)
RefRead(side, limit, s) ==
  LET n == FirstIn(s, {LF}, 1)
  IN  IF n > Len(s) THEN IF Len(s) >= limit THEN <<OverLong(s[limit])>> ELSE <<Eof>>
      ELSE IF n > limit THEN <<OverLong(s[limit])>>
      ELSE LET line == StripCr(Upto(s, n))
               rest == RefRead(side, limit, From(s, n + 1))
           IN  IF line = << >> THEN rest ELSE <<ParseLine(side, line)>> \o rest

(* ---- tokio codec: leading whitespace (also blank lines) is skipped ---- *)
RECURSIVE RefDecode(_, _, _)
RefDecode(side, limit, s0) ==
  LET s == From(s0, FirstNotIn(s0, Ws, 1))
      n == FirstIn(s, {LF, NUL}, 1)
  IN  IF s = << >> THEN <<Done>>
      ELSE IF n > Len(s) /\ Len(s) < limit THEN <<Eof>>
      ELSE IF n > limit \/ n > Len(s) THEN <<TooLong>>
      ELSE IF s[n] = NUL THEN <<BadLine>>
      ELSE <<ParseLine(side, StripCr(Upto(s, n)))>> \o RefDecode(side, limit, From(s, n + 1))

Ref(kind, side, limit, s) ==
  IF kind = "codec" THEN RefDecode(side, limit, s) ELSE RefRead(side, limit, s)

(* ---- incremental reader (plain) ---- *)
(* state: [buf, out, dead]; dead once the stream cannot be followed any more *)
Feed(side, limit, st, b) ==
  IF st.dead THEN st
  ELSE LET buf == Append(st.buf, b)
       IN  IF b = LF
           THEN LET line == StripCr(buf)
                IN [st EXCEPT !.buf = << >>,
                              !.out = IF line = << >> THEN @ ELSE Append(@, ParseLine(side, line))]
           ELSE IF Len(buf) >= limit THEN [buf |-> buf, out |-> Append(st.out, OverLong(b)), dead |-> TRUE]
           ELSE [st EXCEPT !.buf = buf]
RECURSIVE FeedAll(_, _, _, _)
FeedAll(side, limit, st, bs) ==
  IF bs = << >> THEN st ELSE FeedAll(side, limit, Feed(side, limit, st, bs[1]), Tail(bs))
Finish(st) == IF st.dead THEN st ELSE [st EXCEPT !.out = Append(@, Eof), !.dead = TRUE]
=============================================================================
