------------------------------ MODULE AccelOrder ------------------------------
(* The cores of each algorithm, in order of preference, and what they need.   *)
EXTENDS Integers, Sequences, FiniteSets
Algs == {"sha", "aes", "smix"}
Features == {"aesni", "rdrand", "shani", "sse2", "ssse3"}
Order == [sha  |-> <<"shani", "shasse2", "soft">>,
          aes  |-> <<"aesni", "aessoft">>,
          smix |-> <<"smixsse2", "smixsoft">>]
Needs == [shani |-> {"shani", "ssse3"}, shasse2 |-> {"sse2"}, aesni |-> {"aesni"}, smixsse2 |-> {"sse2"},
          soft |-> {}, aessoft |-> {}, smixsoft |-> {}]
Cores(a) == {Order[a][i] : i \in 1..Len(Order[a])}
Accelerated == {"shani", "shasse2", "aesni", "smixsse2"}
\* The last resorts that are tested as well.
Tested == {"aessoft", "smixsoft"}

Healthy(a, feat, bad) == {i \in 1..Len(Order[a]) : Needs[Order[a][i]] \subseteq feat /\ Order[a][i] \notin bad}
Best(a, feat, bad) ==
    LET ok == Healthy(a, feat, bad)
    IN Order[a][CHOOSE i \in ok : \A j \in ok : i <= j]
==============================================================================
