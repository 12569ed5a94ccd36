--------------------------------- MODULE S11 ---------------------------------
(* The memory budget (S11).  A record has the answers the system gives to    *)
(* the queries of its limits, what was asked for, and the outcome.           *)
(*   as, rss       limits of the process: [k |-> "num", v] or "inf" or "err" *)
(*   total, unit   physical memory and its unit, or "err"                    *)
(*   page, phys    page size and number of pages: "num", "none" (not         *)
(*                 supported: no answer without an error, or EINVAL), "err"  *)
(*   maxmem, fnum, fden   the requested maximum (0: none) and fraction       *)
(*   rc, mem       the outcome                                               *)
EXTENDS Cases, Limits
Err(q) == q.k = "err"
Failed(c) == Err(c.as) \/ Err(c.rss) \/ Err(c.total) \/ Err(c.unit) \/ (Err(c.page) /\ c.phys.k # "none") \/ (Err(c.phys) /\ c.page.k # "none")
\* If one of the two is not supported the other does not matter.
MayFail(c) == Err(c.page) \/ Err(c.phys)

\* The limits there are.
Given(c) == (IF c.as.k = "num" THEN {c.as.v} ELSE {})
            \cup (IF c.rss.k = "num" THEN {c.rss.v} ELSE {})
            \cup {BMul(c.total.v, c.unit.v)}
            \cup (IF c.page.k = "num" /\ c.phys.k = "num" THEN {BMul(c.page.v, c.phys.v)} ELSE {})
Least(S) == CHOOSE x \in S : \A y \in S : BLe(x, y)

\* Of the scaled amount x = num/den: its integer part, or, where the product
\* needs more than the 53 bits of the arithmetic, something within its
\* rounding error.
Exact(num, den) == Bits(num) <= 53 /\ IsPow2(den)
ScaledOK(num, den, m) ==
    IF Exact(num, den) THEN m = BDiv(num, den)
    ELSE LET eps == BAdd(BDiv(num, BMul(den, BPow2(51))), B1)
             x == BDiv(num, den)
         IN BLe(x, BAdd(m, eps)) /\ BLe(m, BAdd(x, eps))
Within(c, scaled) == LET m == IF c.maxmem = B0 THEN scaled ELSE BMin(scaled, c.maxmem) IN BMax(m, MiB)
BudgetOK(c) ==
    LET num == BMul(c.fnum, Least(Given(c)))
        x == BDiv(num, c.fden)
    IN \/ c.mem = Within(c, x)
       \/ ~Exact(num, c.fden) /\ ScaledOK(num, c.fden, c.mem)
                              /\ (c.maxmem = B0 \/ BLe(c.mem, c.maxmem)) /\ BLe(MiB, c.mem)

Ok(c) == \/ c.rc # 0 /\ (Failed(c) \/ MayFail(c))
         \/ c.rc = 0 /\ ~Failed(c) /\ BudgetOK(c)
Inv == l \notin 1..Len(Cases) \/ Ok(Cases[l])
==============================================================================
