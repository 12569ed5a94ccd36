--------------------------------- MODULE Num ---------------------------------
(* Numbers as text (S17), over sequences of character codes.                 *)
(*   integers   space* [+-] digits, with 0x... hexadecimal and 0... octal if  *)
(*              no base is prescribed (base 0)                                *)
(*   reals      space* [+-] decimal or hexadecimal, with point and exponent,  *)
(*              or inf, infinity, nan, nan(...)                               *)
(*   sizes      digits, one optional space, one of kMGTPE (powers of 1000),   *)
(*              optional B                                                    *)
(* Each parser returns what it has found and how many characters it used.     *)
EXTENDS BigNat
Space(c) == c = 32 \/ c \in 9..13
IsDigit(c) == c \in 48..57
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
DigitVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF Lower(c) \in 97..122 THEN Lower(c) - 87 ELSE 99
At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
RECURSIVE SkipSpace(_, _)
SkipSpace(s, i) == IF Space(At(s, i)) THEN SkipSpace(s, i + 1) ELSE i
\* First position from i on that is no digit of the base.
RECURSIVE Run(_, _, _)
Run(s, i, base) == IF i <= Len(s) /\ DigitVal(s[i]) < base THEN Run(s, i + 1, base) ELSE i
RECURSIVE Value(_, _, _, _, _)
Value(s, i, j, base, acc) == IF i >= j THEN acc
    ELSE Value(s, i + 1, j, base, BAdd(MulD(acc, base, 1, 0), BN(DigitVal(s[i]))))
Digits(s, i, j, base) == Norm(Value(s, i, j, base, B0))
Sign(s, i) == At(s, i) \in {43, 45}
\* lower-case text w at position i?
Word(s, i, w) == i + Len(w) - 1 <= Len(s) /\ \A k \in 1..Len(w) : Lower(s[i + k - 1]) = w[k]

\* ---- integers ----
NoNumber == [ok |-> FALSE, neg |-> FALSE, mag |-> B0, used |-> 0]
IntText(s, base) ==
    LET i0 == SkipSpace(s, 1)
        neg == At(s, i0) = 45
        i1 == IF Sign(s, i0) THEN i0 + 1 ELSE i0
        hex == base \in {0, 16} /\ At(s, i1) = 48 /\ At(s, i1 + 1) \in {88, 120} /\ DigitVal(At(s, i1 + 2)) < 16
        b == IF hex THEN 16 ELSE IF base # 0 THEN base ELSE IF At(s, i1) = 48 THEN 8 ELSE 10
        i2 == IF hex THEN i1 + 2 ELSE i1
        j == Run(s, i2, b)
    IN IF j = i2 THEN NoNumber ELSE [ok |-> TRUE, neg |-> neg, mag |-> Digits(s, i2, j, b), used |-> j - 1]
Whole(s, n, trailing) == n.ok /\ (trailing \/ n.used = Len(s))
\* signed values: <<neg, magnitude>>
Canon(neg, mag) == <<neg /\ mag # B0, mag>>
SLe(a, b) == CASE a[1] /\ ~b[1] -> TRUE
               [] ~a[1] /\ b[1] -> FALSE
               [] ~a[1] /\ ~b[1] -> BLe(a[2], b[2])
               [] OTHER -> BLe(b[2], a[2])
\* Accepted, for bounds lo..hi (signed values)?
IntAccepts(s, base, trailing, lo, hi) ==
    LET n == IntText(s, base)
    IN Whole(s, n, trailing) /\ SLe(lo, Canon(n.neg, n.mag)) /\ SLe(Canon(n.neg, n.mag), hi)
IntValue(s, base) == LET n == IntText(s, base) IN Canon(n.neg, n.mag)

\* ---- reals: the value is neg, num / den; kind "num", "inf", "nan" ----
\* Exponents beyond 3000 in size make no difference for texts of up to 300
\* digits: huge, tiny, or zero.
RECURSIVE SmallVal(_, _, _, _)
SmallVal(s, i, j, acc) == IF acc > 3000 THEN 3000 ELSE IF i >= j THEN acc ELSE SmallVal(s, i + 1, j, acc * 10 + DigitVal(s[i]))
NoReal == [ok |-> FALSE, kind |-> "num", neg |-> FALSE, num |-> B0, den |-> B1, used |-> 0]
Scaled(mag, base, exp, neg, used) ==
    [ok |-> TRUE, kind |-> "num", neg |-> neg, used |-> used,
     num |-> IF mag = B0 THEN B0 ELSE IF exp >= 0 THEN BMul(mag, BPow(base, exp)) ELSE mag,
     den |-> IF mag = B0 \/ exp >= 0 THEN B1 ELSE BPow(base, -exp)]
RealText(s) ==
    LET i0 == SkipSpace(s, 1)
        neg == At(s, i0) = 45
        i1 == IF Sign(s, i0) THEN i0 + 1 ELSE i0
        hex == At(s, i1) = 48 /\ At(s, i1 + 1) \in {88, 120}
               /\ (DigitVal(At(s, i1 + 2)) < 16 \/ (At(s, i1 + 2) = 46 /\ DigitVal(At(s, i1 + 3)) < 16))
        b == IF hex THEN 16 ELSE 10
        i2 == IF hex THEN i1 + 2 ELSE i1
        j1 == Run(s, i2, b)                               \* end of the integer part
        point == At(s, j1) = 46
        j2 == IF point THEN Run(s, j1 + 1, b) ELSE j1     \* end of the fraction
        digits == (j1 - i2) + (IF point THEN j2 - j1 - 1 ELSE 0)
        mag == Norm(Value(s, j1 + 1, j2, b, Value(s, i2, j1, b, B0)))
        frac == IF point THEN j2 - j1 - 1 ELSE 0
        ech == Lower(At(s, j2)) = (IF hex THEN 112 ELSE 101)
        k1 == IF ech /\ Sign(s, j2 + 1) THEN j2 + 2 ELSE j2 + 1
        k2 == IF ech THEN Run(s, k1, 10) ELSE k1
        hasexp == ech /\ k2 > k1
        e0 == IF hasexp THEN SmallVal(s, k1, k2, 0) ELSE 0
        e == IF hasexp /\ At(s, j2 + 1) = 45 THEN -e0 ELSE e0
        used == IF hasexp THEN k2 - 1 ELSE j2 - 1
        RECURSIVE NanEnd(_)
        NanEnd(i) == IF IsDigit(At(s, i)) \/ Lower(At(s, i)) \in 97..122 \/ At(s, i) = 95 THEN NanEnd(i + 1) ELSE i
    IN IF Word(s, i1, <<105, 110, 102, 105, 110, 105, 116, 121>>) THEN [NoReal EXCEPT !.ok = TRUE, !.kind = "inf", !.neg = neg, !.used = i1 + 7]
       ELSE IF Word(s, i1, <<105, 110, 102>>) THEN [NoReal EXCEPT !.ok = TRUE, !.kind = "inf", !.neg = neg, !.used = i1 + 2]
       ELSE IF Word(s, i1, <<110, 97, 110>>) THEN
            [NoReal EXCEPT !.ok = TRUE, !.kind = "nan", !.neg = neg,
                           !.used = IF At(s, i1 + 3) = 40 /\ At(s, NanEnd(i1 + 4)) = 41 THEN NanEnd(i1 + 4) ELSE i1 + 2]
       ELSE IF digits = 0 THEN NoReal
       ELSE IF hex THEN Scaled(mag, <<2>>, e - 4 * frac, neg, used)
       ELSE Scaled(mag, <<10>>, e - frac, neg, used)
\* Comparison of non-negative quotients.
QLe(a, b) == BLe(BMul(a[1], b[2]), BMul(b[1], a[2]))
Dist(a, b) == LET x == BMul(a[1], b[2])
                  y == BMul(b[1], a[2])
              IN <<IF BLe(x, y) THEN BSub(y, x) ELSE BSub(x, y), BMul(a[2], b[2])>>
\* |value| of the text against a quotient q that has to be the nearest of
\* the representable ones, whose neighbours are lo and hi.
Nearest(n, q, lo, hi) == LET v == <<n.num, n.den>> IN QLe(Dist(v, q), Dist(v, lo)) /\ QLe(Dist(v, q), Dist(v, hi))
Pow2Q(e) == IF e >= 0 THEN <<BPow2(e), B1>> ELSE <<B1, BPow2(-e)>>
\* Too large, or possibly too small to be represented.
Huge(n, type) == QLe(Pow2Q(IF type = "float" THEN 128 ELSE 1024), <<BAdd(n.num, B0), n.den>>)
Verge(n, type) == ~Huge(n, type) /\ ~QLe(<<n.num, n.den>>, IF type = "float" THEN <<BSub(BPow2(128), BPow2(104)), B1>> ELSE <<BSub(BPow2(1024), BPow2(971)), B1>>)
Tiny(n, type) == n.num # B0 /\ ~QLe(Pow2Q(IF type = "float" THEN -126 ELSE -1022), <<n.num, n.den>>)

\* ---- sizes ----
SizeText(s) ==
    LET j == Run(s, 1, 10)
        k == IF At(s, j) = 32 THEN j + 1 ELSE j
        P == <<107, 77, 71, 84, 80, 69>>
        pre == IF \E x \in 1..6 : P[x] = At(s, k) THEN CHOOSE x \in 1..6 : P[x] = At(s, k) ELSE 0
        k2 == IF pre > 0 THEN k + 1 ELSE k
        k3 == IF At(s, k2) = 66 THEN k2 + 1 ELSE k2
    IN [ok |-> j > 1 /\ k3 = Len(s) + 1, mag |-> BMul(Digits(s, 1, j, 10), BPow(<<1000>>, pre))]
SizeAccepts(s) == SizeText(s).ok /\ BLt(SizeText(s).mag, BPow2(64))
==============================================================================
