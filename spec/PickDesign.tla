------------------------------ MODULE PickDesign ------------------------------
(* The choice of parameters as the code makes it -- compare the budgets, take *)
(* N from the smaller one, and p from what time is left -- against what S10   *)
(* demands of it, for all budgets on a machine scaled down by Scale (a power  *)
(* of two): the floors of the budgets are 2^20 / Scale bytes and              *)
(* 2^15 / Scale operations.  The largest r * p is scaled as well (Cap).       *)
EXTENDS Integers, TLC
CONSTANTS Scale, Cap, MaxMem, MaxOps
VARIABLES mem, ops
R == 8
MinMem == 1048576 \div Scale
MinOps == 32768 \div Scale
Max2(a, b) == IF a > b THEN a ELSE b
\* ---- the algorithm (Unit: 128 bytes and 4 operations per N * r, scaled) ----
U == 128
NOf(maxN) == CHOOSE n \in 0..24 : 2 ^ n <= maxN /\ maxN < 2 ^ (n + 1)
Alg(m, o) ==
    LET op == Max2(o, MinOps)
    IN IF op * 32 < m
       THEN [n |-> NOf(op \div (4 * R)), p |-> 1]
       ELSE LET n == NOf(m \div (R * U))
                q == (op \div 4) \div (2 ^ n)
                rp == IF q > Cap THEN Cap ELSE q
            IN [n |-> n, p |-> rp \div R]
\* ---- what it is to satisfy ----
Fits(m, op, n, p) == U * (2 ^ n) * R <= m /\ 4 * (2 ^ n) * R * p <= op
Demand(m, o, q) ==
    LET op == Max2(o, MinOps)
    IN /\ Fits(m, op, q.n, 1) /\ ~Fits(m, op, q.n + 1, 1)
       /\ q.p >= 1 /\ R * q.p <= Cap
       /\ Fits(m, op, q.n, q.p)
       /\ (R * (q.p + 1) > Cap \/ ~Fits(m, op, q.n, q.p + 1))
PdInit == mem \in MinMem..MaxMem /\ ops \in 0..MaxOps
PdNext == FALSE /\ UNCHANGED <<mem, ops>>
Inv == Demand(mem, ops, Alg(mem, ops))
================================================================================
