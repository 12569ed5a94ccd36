--------------------------------- MODULE Cpu ---------------------------------
(* What CPUID says about the features used (S21): the feature is present iff *)
(* the processor has the leaf and its bit is set.  Registers are given as    *)
(* the set of bits that are 1, in the order A, B, C, D.                      *)
EXTENDS Cases, FiniteSets
Where == [aesni |-> <<1, 3, 25>>, rdrand |-> <<1, 3, 30>>, shani |-> <<7, 2, 29>>,
          sse2 |-> <<1, 4, 26>>, ssse3 |-> <<1, 3, 9>>]
Feats == <<"aesni", "rdrand", "shani", "sse2", "ssse3">>
Leaf(c, n) == IF n = 1 THEN c.leaf1 ELSE c.leaf7
HasBit(s, b) == \E i \in 1..Len(s) : s[i] = b
Present(c, f) == LET w == Where[f] IN c.max >= w[1] /\ HasBit(Leaf(c, w[1])[w[2]], w[3])
Ok(c) == \A i \in 1..5 : (c.det[i] = 1) = Present(c, Feats[i])
                      /\ (c.cpu[i] = 1) = Present(c, Feats[i])
                      \* what was found first is kept
                      /\ (c.later[i] = 1) = Present(c, Feats[i])
Inv == l < 0 \/ Ok(Cases[l])
==============================================================================
