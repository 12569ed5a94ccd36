-------------------------------- MODULE Accel --------------------------------
(* Which implementation of each algorithm runs (S21).  An algorithm has      *)
(* cores in order of preference; a core needs some CPU features, and may be  *)
(* faulty, which its self-test finds.  The choice is made when the algorithm *)
(* is first used and stays.                                                  *)
EXTENDS AccelOrder
VARIABLES feat,     \* features this machine has
          bad,      \* faulty cores
          choice,   \* the core of each algorithm, "unset" before its first use
          trusted,  \* cores used for results
          truth,    \* have all results so far been right?
          over      \* the process has ended, for want of a healthy core
avars == <<feat, bad, choice, trusted, truth, over>>

AccelInit == /\ choice = [a \in Algs |-> "unset"] /\ trusted = {} /\ truth = TRUE /\ over = FALSE
\* An operation that needs the algorithms as.
Possible(as) == \A a \in as : choice[a] # "unset" \/ Healthy(a, feat, bad) # {}
Use(as) ==
    /\ ~over /\ Possible(as)
    /\ choice' = [a \in Algs |-> IF a \in as /\ choice[a] = "unset" THEN Best(a, feat, bad) ELSE choice[a]]
    /\ trusted' = trusted \cup {choice'[a] : a \in as}
    /\ truth' = (truth /\ \A a \in as : choice'[a] \notin bad)
    /\ UNCHANGED <<feat, bad, over>>
\* There is no healthy core for one of the algorithms: no results.
Refuse(as) == ~over /\ ~Possible(as) /\ over' = TRUE /\ UNCHANGED <<feat, bad, choice, trusted, truth>>
\* Later on a fault disappears: no reason to choose again.
Mend == /\ bad # {} /\ ~over /\ \E c \in bad : bad' = bad \ {c}
        /\ UNCHANGED <<feat, choice, trusted, truth, over>>

\* Which cores an operation may run, other than the chosen ones: those under
\* self-test when a choice is made, and these must be present.
MayRun(a, c) == \/ c = choice'[a]
                \/ choice[a] = "unset" /\ choice'[a] # "unset" /\ c \in Cores(a) /\ Needs[c] \subseteq feat
\* Uses of the algorithms imply each other: scrypt hashes.
==============================================================================
