------------------------------- MODULE Judge -------------------------------
(* Shared skeleton of the trace judges: the recorded ndjson trace named by   *)
(* the environment variable TRACE is walked line by line (in blocks, so that *)
(* TLC's workers share the load); each line is accepted iff the including    *)
(* module's invariant Conforms == Accepts(Trace[lineNo]) holds.  Every line  *)
(* has st = "ok", or "panic" if the code under test panicked, which no       *)
(* specification accepts.                                                    *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
(* The name differs from every bound identifier: otherwise TLC does not      *)
(* treat definitions using such an identifier as constants.                  *)
VARIABLE lineNo
Trace == ndJsonDeserialize(IOEnv.TRACE)
Blocks == 64
BlockLen == (Len(Trace) + Blocks - 1) \div Blocks
Init == lineNo \in {k * BlockLen + 1 : k \in 0..(Blocks - 1)} /\ lineNo <= Len(Trace)
Next == lineNo % BlockLen # 0 /\ lineNo < Len(Trace) /\ lineNo' = lineNo + 1
Spec == Init /\ [][Next]_lineNo
=============================================================================
