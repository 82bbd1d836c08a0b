------------------------------ MODULE LibTrace ------------------------------
(* Judges observations of the library; one line is a batch of observations. *)
EXTENDS Lib, Json, IOUtils
Batches == ndJsonDeserialize(IOEnv.TRACES)
Ask == IOEnv.ASK
VARIABLES b, k
Init == b \in 1..Len(Batches) /\ k = 0
Step == /\ k < Len(Batches[b])
        /\ k' = k + 1 /\ UNCHANGED b
        /\ IF LibHolds(Ask, Batches[b][k + 1]) THEN TRUE
           ELSE PrintT(ToJson([x |-> "BAD", b |-> b, k |-> k + 1]))
        /\ IF k + 1 = Len(Batches[b]) THEN PrintT(ToJson([x |-> "END", b |-> b, k |-> k + 1])) ELSE TRUE
Spec == Init /\ [][Step]_<<b, k>>
=============================================================================
