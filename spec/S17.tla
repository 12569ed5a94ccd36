--------------------------------- MODULE S17 ---------------------------------
(* The parsing routines and the numeric options (S17).                       *)
EXTENDS Cases, Num, Hex, Limits, Messages
S(c) == Hex(c.s)
SV(x) == <<x.neg = 1, x.mag>>
IntCase(c) ==
    LET lo == SV(c.lo)
        hi == SV(c.hi)
        acc == IntAccepts(S(c), c.base, c.trailing = 1, lo, hi)
    IN /\ (c.ok = 1) = acc
       /\ acc => SV(c.val) = IntValue(S(c), c.base)
Q(x) == <<x.num, x.den>>
\* bounds: [kind "inf"/"num", neg, num, den]; the value is rounded to the type
\* before it is compared with the bounds
RLe(a, b) ==
    IF a.kind = "inf" THEN (a.neg = 1 \/ (b.kind = "inf" /\ b.neg = 0))
    ELSE IF b.kind = "inf" THEN b.neg = 0
    ELSE SLe(<<a.neg = 1 /\ a.num # B0, BMul(a.num, b.den)>>, <<b.neg = 1 /\ b.num # B0, BMul(b.num, a.den)>>)
RealCase(c) ==
    LET n == RealText(S(c))
        given == Whole(S(c), n, c.trailing = 1)
        right ==   \* the value obtained is that of the text
            IF n.kind = "inf" THEN c.val.kind = "inf" /\ (c.val.neg = 1) = n.neg
            ELSE /\ c.val.kind = "num" /\ (n.num # B0 => (c.val.neg = 1) = n.neg \/ (Tiny(n, c.type) /\ c.val.num = B0))
                 /\ Nearest(n, Q(c.val), Q(c.below), Q(c.above))
        inrange == RLe(c.lo, c.val) /\ RLe(c.val, c.hi)
    IN IF ~given \/ n.kind = "nan" \/ (n.kind = "num" /\ Huge(n, c.type)) THEN c.ok = 0
       ELSE IF c.ok = 1 THEN right /\ inrange
       ELSE \/ n.kind = "num" /\ (Tiny(n, c.type) \/ Verge(n, c.type))
            \* refused: the nearest value (which is given along) is out of range
            \/ /\ n.kind = "num" => Nearest(n, Q(c.near), Q(c.below), Q(c.above)) /\ c.near.kind = "num" /\ (n.num # B0 => (c.near.neg = 1) = n.neg)
               /\ n.kind = "inf" => c.near.kind = "inf" /\ (c.near.neg = 1) = n.neg
               /\ ~(RLe(c.lo, c.near) /\ RLe(c.near, c.hi))
            \* refused: the number written is out of range, if only by less than
            \* the type can tell
            \/ LET t == [kind |-> "num", neg |-> IF n.neg THEN 1 ELSE 0, num |-> n.num, den |-> n.den]
               IN n.kind = "num" /\ ~(RLe(c.lo, t) /\ RLe(t, c.hi))
Size(c) ==
    LET acc == SizeAccepts(S(c))
    IN /\ (c.ok = 1) = acc
       /\ acc => c.val.mag = SizeText(S(c)).mag

\* ---- the options of the command: the outcome of an operation whose needs
\* are near the value ----
Zero == <<FALSE, B0>>
Pos(n) == <<FALSE, BN(n)>>
OptInt(c, lo, hi) == LET acc == IntAccepts(S(c), 0, FALSE, Pos(lo), Pos(hi)) IN (c.rc = 0) = acc /\ (acc => c.got = IntValue(S(c), 0)[2])
\* refused before anything is done: no key, no output
Refused(c) == c.rc = 1 /\ Len(c.err) > 0 /\ c.nkdf = 0 /\ c.outlen = 0 /\ \A e \in Errors : ~Says(c.err, Message(e, "", ""))
RealOf(c) == RealText(S(c))
Good(c, n) == n.ok /\ n.used = Len(S(c)) /\ n.kind # "nan" /\ (~n.neg \/ (n.kind = "num" /\ n.num = B0))
\* the double nearest to the text is given along (near, below, above)
NearOk(c, n) == n.kind = "num" => c.near.kind = "num" /\ Nearest(n, Q(c.near), Q(c.below), Q(c.above))
DecOutcome(c, big, slow) ==
    LET e == IF big /\ slow THEN EBIGSLOW ELSE IF big THEN ETOOBIG ELSE IF slow THEN ETOOSLOW ELSE EPASS
    IN c.rc = 1 /\ Says(c.err, Message(e, "", "")) /\ c.nkdf = (IF e = EPASS THEN 1 ELSE 0)
\* with the default fraction of the memory, one half
Big(c) == ~MemFits(BMax(BDiv(c.total, <<2>>), MiB), c.logN, c.r)
Option(c) ==
    CASE c.opt = "--logN" -> OptInt(c, 10, 40) /\ (c.rc # 0 => Refused(c))
      [] c.opt = "-r" -> OptInt(c, 1, 32) /\ (c.rc # 0 => Refused(c))
      [] c.opt = "-p" -> OptInt(c, 1, 2048) /\ (c.rc # 0 => Refused(c))
      [] c.opt = "-M" ->
            IF ~SizeAccepts(S(c)) THEN Refused(c)
            ELSE LET m == SizeText(S(c)).mag
                     half == BDiv(c.total, <<2>>)
                     limit == BMax(IF m = B0 THEN half ELSE BMin(m, half), MiB)
                 IN DecOutcome(c, ~MemFits(limit, c.logN, c.r), FALSE)
      [] c.opt = "-m" ->
            LET n == RealOf(c)
            IN IF ~Good(c, n) \/ n.kind = "inf" \/ (n.kind = "num" /\ Huge(n, "double")) THEN Refused(c)
               ELSE IF Tiny(n, "double") THEN Refused(c) \/ DecOutcome(c, ~MemFits(MiB, c.logN, c.r), FALSE)
               ELSE /\ NearOk(c, n)
                    /\ IF c.near.num = B0 \/ ~QLe(Q(c.near), <<B1, <<2>>>>) THEN Refused(c)
                       ELSE LET limit == BMax(BDiv(BMul(c.total, c.near.num), c.near.den), MiB)
                            IN DecOutcome(c, ~MemFits(limit, c.logN, c.r), FALSE)
      [] c.opt = "-t" ->
            LET n == RealOf(c)
            IN IF ~Good(c, n) \/ (n.kind = "num" /\ Huge(n, "double")) THEN Refused(c)
               ELSE IF n.kind = "inf" THEN DecOutcome(c, Big(c), FALSE)
               ELSE IF Tiny(n, "double") THEN Refused(c) \/ DecOutcome(c, Big(c), TRUE)
               ELSE /\ NearOk(c, n)
                    /\ LET num == BMul(c.speed, c.near.num)
                           fits == OpsFits(num, c.near.den, c.logN, c.r, c.p)
                       IN DecOutcome(c, Big(c), ~fits) \/ (Near(num, c.near.den, c.logN, c.r, c.p) /\ DecOutcome(c, Big(c), fits))
Ok(c) == CASE c.k = "int" -> IntCase(c) [] c.k = "real" -> RealCase(c) [] c.k = "size" -> Size(c) [] c.k = "opt" -> Option(c)
Inv == l \notin 1..Len(Cases) \/ Ok(Cases[l])
==============================================================================
