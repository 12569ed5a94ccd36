------------------------------ MODULE Schedules ------------------------------
(* The schedules under which threads are run (S25): <<thread, points>>: that  *)
(* thread continues for that many points (0: to its end).  A thread reaches   *)
(* n[t] points by itself.  All schedules are listed that begin with a thread  *)
(* and take it off at most twice: at any point, and the thread that continued *)
(* instead again at any point; every STEP-th, from OFF on.                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils
N0 == atoi(IOEnv.N0)
N1 == atoi(IOEnv.N1)
Step == atoi(IOEnv.STEP)
Off == atoi(IOEnv.OFF)
\* the point at which the first thread is taken off, and the second; 0: not
Pairs(a, b) == [k \in 0..((a * (b + 1) - 1 - Off) \div Step) |-> <<1 + ((Off + k * Step) \div (b + 1)), (Off + k * Step) % (b + 1)>>]
From(t, u, a, b) == [k \in DOMAIN Pairs(a, b) |-> <<<<t, Pairs(a, b)[k][1]>>, <<u, Pairs(a, b)[k][2]>>, <<t, 0>>, <<u, 0>>>>]
All(t, u, a, b) == LET f == From(t, u, a, b) IN [k \in 1..Cardinality(DOMAIN f) |-> f[k - 1]]
ASSUME ndJsonSerialize(IOEnv.OUT, All(0, 1, N0, N1) \o All(1, 0, N1, N0))
VARIABLE x
SInit == x = 0
SNext == FALSE /\ x' = x
==============================================================================
