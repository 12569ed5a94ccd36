-------------------------------- MODULE Cases --------------------------------
(* Stateless judging: one state per record of the file named by CASES, and   *)
(* an invariant Inv (defined by the extending module) over each.  The eight  *)
(* initial states only spread the work over the workers.                     *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE l
CInit == l \in -8..-1
CNext == l < 0 /\ l' \in {i \in 1..Len(Cases) : i % 8 = (-l) - 1}
=============================================================================
