-------------------------------- MODULE Limits --------------------------------
(* Resource budgets and the parameters they allow (S09, S10, S11).  Sizes and *)
(* operation counts are natural numbers of any size (BigNat); a CPU budget is *)
(* a quotient num/den.                                                        *)
EXTENDS BigNat
MiB == BPow2(20)
RpMax == BPow2(30)     \* r * p has to be below this

Valid(logN, r, p) == /\ logN \in 1..63
                     /\ r # B0 /\ p # B0
                     /\ BLt(BMul(r, p), RpMax)

\* Memory and core operations needed.
MemNeed(logN, r) == BMul(BPow2(logN + 7), r)
OpsNeed(logN, r, p) == BMul(BPow2(logN + 2), BMul(r, p))
MemFits(mem, logN, r) == BLe(MemNeed(logN, r), mem)
OpsFits(num, den, logN, r, p) == BLe(BMul(OpsNeed(logN, r, p), den), num)
\* Speeds and times are floating-point numbers: a budget that is not exactly
\* what is needed but as near as their rounding may count as either.
Near(num, den, logN, r, p) ==
    LET x == BMul(OpsNeed(logN, r, p), den)
        d == IF BLe(x, num) THEN BSub(num, x) ELSE BSub(x, num)
    IN d # B0 /\ BLe(BMul(d, BPow2(50)), x)

\* The parameters that encryption picks: r = 8, the largest N within both
\* limits, and then the largest p.  den = 0 means no limit of time.
PickR == <<8>>
PickFits(mem, num, den, logN) == MemFits(mem, logN, PickR) /\ OpsFits(num, den, logN, PickR, B1)
PickLogN(mem, num, den) == CHOOSE n \in 1..63 : PickFits(mem, num, den, n) /\ (n = 63 \/ ~PickFits(mem, num, den, n + 1))
MaxP == BDivD(BSub(RpMax, B1), 8)[1]
PickP(num, den, logN) == IF den = B0 THEN MaxP ELSE BMin(MaxP, BDiv(num, BMul(den, OpsNeed(logN, PickR, B1))))
\* At least 2^15 operations may be spent.
MinOps == BPow2(15)
Spendable(num, den) == IF den # B0 /\ BLt(num, BMul(MinOps, den)) THEN <<MinOps, B1>> ELSE <<num, den>>
Picked(mem, num, den) ==
    LET b == Spendable(num, den)
        n == PickLogN(mem, b[1], b[2])
    IN [logN |-> n, r |-> PickR, p |-> PickP(b[1], b[2], n)]
==============================================================================
