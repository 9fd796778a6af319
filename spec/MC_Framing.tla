---------------------------- MODULE MC_Framing -----------------------------
(* Every short stream over critical pieces, every chunking, every placement  *)
(* of would-block conditions.  Behaviours are emitted as scripts for the     *)
(* real readers.                                                             *)
EXTENDS Framing, Json
CONSTANTS MaxPieces, Limit, Emit, MaxBlocks

Pieces == {<<65>>, <<65, 32, 58, 98>>, <<CR>>, <<LF>>, <<CR, LF>>, <<49>>}
VARIABLES stream, pos, rd, script, done
vars == <<stream, pos, rd, script, done>>

Init ==
  /\ \E n \in 1..MaxPieces : \E f \in [1..n -> Pieces] : stream = Cat(f)
  /\ pos = 0 /\ script = << >> /\ done = FALSE
  /\ rd = [buf |-> << >>, out |-> << >>, dead |-> FALSE]
(* the transport hands over the next n bytes *)
Chunk(n) ==
  /\ ~done /\ pos + n <= Len(stream)
  /\ pos' = pos + n
  /\ rd' = FeedAll("server", Limit, rd, SubSeq(stream, pos + 1, pos + n))
  /\ script' = Append(script, n)
  /\ UNCHANGED <<stream, done>>
(* the transport reports would-block / timed-out (0 in the script) *)
Block ==
  /\ ~done /\ (IF script = << >> THEN TRUE ELSE script[Len(script)] # 0)
  /\ Cardinality({k \in 1..Len(script) : script[k] = 0}) < MaxBlocks
  /\ script' = Append(script, 0)
  /\ UNCHANGED <<stream, pos, rd, done>>
AtEof ==
  /\ ~done /\ pos = Len(stream)
  /\ done' = TRUE /\ rd' = Finish(rd)
  /\ UNCHANGED <<stream, pos, script>>
Next == (\E n \in 1..3 : Chunk(n)) \/ Block \/ AtEof
Spec == Init /\ [][Next]_vars

(* for the exhaustive run the script is history only *)
View == <<stream, pos, rd, done>>
Expected == Ref("read", "server", Limit, stream)
Independent ==      \* nothing lost, duplicated, merged, reordered, for any arrival
  /\ IsPrefixOf(rd.out, Expected)
  /\ done => rd.out = Expected
JRes(r) == IF ~r.ok THEN r
           ELSE [ok |-> TRUE, tags |-> SortTags(r.tags), src |-> r.src, kind |-> r.kind, args |-> r.args, long |-> r.long]
Emitted ==
  (Emit /\ done) => PrintT("@@" \o ToJson(
     [stream |-> stream, script |-> script, side |-> "server",
      kinds |-> <<"own", "bor", "town", "tbor">>,
      exp |-> [i \in 1..4 |-> MapSeq(JRes, rd.out)]]))
=============================================================================
