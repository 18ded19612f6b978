------------------------------ MODULE TraceTree ------------------------------
(* Walks the recorded cases 1..N as a tree, so that TLC's workers check them   *)
(* in parallel and a counterexample path stays short.                          *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC
Cases == JsonDeserialize(IOEnv.TRACE_FILE)
N == Len(Cases)
VARIABLE i
TreeInit == i = 0
TreeNext == \E k \in 1..16 : i * 16 + k <= N /\ i' = i * 16 + k
=============================================================================
