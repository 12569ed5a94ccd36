----------------------------- MODULE DrbgDesign -----------------------------
(* The design of the generator with small constants and an abstract random   *)
(* function: no output block is ever produced twice, and everything output   *)
(* depends on entropy that the system delivered completely.                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Interval, MaxReq, Steps
VARIABLES epoch,    \* number of completed seedings; 0: not instantiated
          ctr, step,\* generate requests since seeding + 1; state updates so far
          pool, need, produced, reqs, failed
vars == <<epoch, ctr, step, pool, need, produced, reqs, failed>>
Init == /\ epoch = 0 /\ ctr = 0 /\ step = 0 /\ pool = 0 /\ need = 0
        /\ produced = <<>> /\ reqs = 0 /\ failed = FALSE
Blocked == epoch = 0 \/ (need > 0 /\ ctr > Interval)
Request(n) == /\ need = 0 /\ reqs < Steps /\ need' = n /\ reqs' = reqs + 1 /\ pool' = 0
              /\ failed' = FALSE
              /\ UNCHANGED <<epoch, ctr, step, produced>>
SeedPart(k) == /\ need > 0 /\ Blocked /\ pool + k <= 3
               /\ IF pool + k = 3 THEN epoch' = epoch + 1 /\ ctr' = 1 /\ pool' = 0 /\ step' = 0
                                  ELSE pool' = pool + k /\ UNCHANGED <<epoch, ctr, step>>
               /\ UNCHANGED <<need, produced, reqs, failed>>
SeedFail == /\ need > 0 /\ Blocked /\ need' = 0 /\ pool' = 0 /\ failed' = TRUE
            /\ UNCHANGED <<epoch, ctr, step, produced, reqs>>
Generate == /\ need > 0 /\ ~Blocked
            /\ LET n == IF need > MaxReq THEN MaxReq ELSE need
               IN /\ need' = need - n
                  /\ produced' = produced \o [i \in 1..n |-> <<epoch, step, i>>]
            /\ step' = step + 1 /\ ctr' = ctr + 1
            /\ UNCHANGED <<epoch, pool, reqs, failed>>
Next == \/ \E n \in 1..(2 * MaxReq + 1) : Request(n)
        \/ \E k \in 1..3 : SeedPart(k)
        \/ SeedFail \/ Generate
NoRepeat == Cardinality({produced[i] : i \in DOMAIN produced}) = Len(produced)
Seeded == \A i \in DOMAIN produced : produced[i][1] > 0
Reseeded == ctr <= Interval + 1 /\ \A i \in DOMAIN produced : produced[i][2] < Interval
Inv == NoRepeat /\ Seeded /\ Reseeded
=============================================================================
