------------------------------- MODULE Traces -------------------------------
(* Trace validation.  Every record of the file CASES has a sequence `ev` of  *)
(* events; TLC looks for a behaviour of the extending specification that     *)
(* performs exactly these events.  A trace with no such behaviour ends in a  *)
(* state without successors (deadlock), which identifies trace t and the     *)
(* first event l that is not possible.                                       *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.CASES)
VARIABLES t, l
tvars == <<t, l>>
TrInit == t \in 1..Len(Traces) /\ l = 1
Ev == Traces[t].ev[l]
More == l <= Len(Traces[t].ev)
IsEvent(name) == More /\ Ev.e = name /\ l' = l + 1 /\ UNCHANGED t
Finished == l = Len(Traces[t].ev) + 1
=============================================================================
