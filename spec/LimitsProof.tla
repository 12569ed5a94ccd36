----------------------------- MODULE LimitsProof -----------------------------
(* The tests of limits that divide are those that multiply, for all sizes.    *)
EXTENDS Integers, TLAPS
LEMMA DivFacts == \A a \in Nat, b \in Nat \ {0} : /\ a \div b \in Nat /\ a % b \in Nat
                                                   /\ a % b < b /\ a = (b * (a \div b)) + (a % b)
  OBVIOUS
LEMMA Mono == \A x, y, b \in Nat : x <= y => b * x <= b * y
  OBVIOUS
THEOREM DivLess == ASSUME NEW a \in Nat, NEW b \in Nat \ {0}, NEW k \in Nat
                   PROVE (a \div b < k) <=> (a < b * k)
<1> DEFINE q == a \div b
<1>0. q \in Nat /\ a % b \in Nat /\ a % b < b /\ a = (b * q) + (a % b) BY DivFacts
<1>1. CASE q < k
  <2>1. q + 1 <= k BY <1>0, <1>1
  <2>2. b * (q + 1) <= b * k BY <2>1, <1>0, Mono
  <2>3. b * (q + 1) = b * q + b BY <1>0
  <2> QED BY <1>0, <1>1, <2>2, <2>3
<1>2. CASE ~(q < k)
  <2>1. k <= q BY <1>0, <1>2
  <2>2. b * k <= b * q BY <2>1, <1>0, Mono
  <2> QED BY <1>0, <1>2, <2>2
<1> QED BY <1>1, <1>2
\* (memlimit / N) / r < 128 says exactly that 128 N r does not fit.
THEOREM Memory == ASSUME NEW m \in Nat, NEW n \in Nat \ {0}, NEW r \in Nat \ {0}
                  PROVE ((m \div n) \div r < 128) <=> (m < n * (r * 128))
<1>1. m \div n \in Nat BY DivFacts
<1>2. ((m \div n) \div r < 128) <=> (m \div n < r * 128) BY <1>1, DivLess
<1>3. r * 128 \in Nat OBVIOUS
<1>4. (m \div n < r * 128) <=> (m < n * (r * 128)) BY <1>3, DivLess
<1> QED BY <1>2, <1>4
==============================================================================
