----------------------------- MODULE AccelDesign -----------------------------
(* All machines and all sets of faulty cores: a result never depends on a    *)
(* core that is absent or faulty, and a choice is never changed.             *)
EXTENDS Accel
Init == /\ feat \in SUBSET Features /\ bad \in SUBSET (Accelerated \cup Tested) /\ AccelInit
Next == (\E as \in SUBSET Algs : as # {} /\ (Use(as) \/ Refuse(as))) \/ Mend
Inv == /\ truth
       /\ \A c \in trusted : Needs[c] \subseteq feat
       /\ \A c \in trusted : c \notin bad
Stays == [][\A a \in Algs : choice[a] # "unset" => choice'[a] = choice[a]]_avars
==============================================================================
