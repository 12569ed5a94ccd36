------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of any size (TLC's integers have 32 bits): sequences of   *)
(* digits in base 2^15, least significant first, without leading zeros.      *)
EXTENDS Integers, Sequences
BB == 32768
RECURSIVE Norm(_)
Norm(a) == IF Len(a) > 0 /\ a[Len(a)] = 0 THEN Norm(SubSeq(a, 1, Len(a) - 1)) ELSE a
D(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
Max2(x, y) == IF x > y THEN x ELSE y

RECURSIVE BN(_)
BN(n) == IF n = 0 THEN <<>> ELSE <<n % BB>> \o BN(n \div BB)
B0 == <<>>
B1 == <<1>>

RECURSIVE AddC(_, _, _, _)
AddC(a, b, i, c) ==
    IF i > Max2(Len(a), Len(b)) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET s == D(a, i) + D(b, i) + c
         IN <<s % BB>> \o AddC(a, b, i + 1, s \div BB)
PAdd(a, b) == AddC(a, b, 1, 0)

\* a - b for a >= b
RECURSIVE SubC(_, _, _, _)
SubC(a, b, i, c) ==
    IF i > Len(a) THEN <<>>
    ELSE LET s == D(a, i) - D(b, i) - c
         IN <<IF s < 0 THEN s + BB ELSE s>> \o SubC(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
PSub(a, b) == Norm(SubC(a, b, 1, 0))

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0
                    ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1)
                    ELSE CmpFrom(a, b, i - 1)
PCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
              ELSE CmpFrom(a, b, Len(a))
\* The operators B... are evaluated by the Java class of the same name as this
\* module; P... are their meanings (CryptoEquiv compares them).
BAdd(a, b) == PAdd(a, b)
BSub(a, b) == PSub(a, b)      \* for a >= b
BCmp(a, b) == PCmp(a, b)
BLe(a, b) == BCmp(a, b) <= 0
BLt(a, b) == BCmp(a, b) < 0
BMin(a, b) == IF BLe(a, b) THEN a ELSE b
BMax(a, b) == IF BLe(a, b) THEN b ELSE a

\* Multiplication by a digit d < BB (products stay below 2^31).
RECURSIVE MulD(_, _, _, _)
MulD(a, d, i, c) ==
    IF i > Len(a) THEN BN(c)
    ELSE LET s == a[i] * d + c
         IN <<s % BB>> \o MulD(a, d, i + 1, s \div BB)
RECURSIVE PMul(_, _)
PMul(a, b) == IF Len(b) = 0 \/ Len(a) = 0 THEN <<>>
              ELSE Norm(PAdd(MulD(a, b[1], 1, 0), LET m == PMul(a, Tail(b)) IN IF m = <<>> THEN <<>> ELSE <<0>> \o m))
BMul(a, b) == PMul(a, b)

\* Division by a digit: <<quotient, remainder>>.
RECURSIVE DivC(_, _, _, _)
DivC(a, d, i, r) ==
    IF i = 0 THEN <<<<>>, r>>
    ELSE LET s == r * BB + a[i]
             q == DivC(a, d, i - 1, s % d)
         IN <<q[1] \o <<s \div d>>, q[2]>>
BDivD(a, d) == LET q == DivC(a, d, Len(a), 0) IN <<Norm(q[1]), q[2]>>
BEven(a) == Len(a) = 0 \/ a[1] % 2 = 0
BHalf(a) == BDivD(a, 2)[1]

RECURSIVE BPow2(_)
BPow2(n) == IF n < 15 THEN <<2 ^ n>> ELSE <<0>> \o BPow2(n - 15)
RECURSIVE IsPow2(_)
IsPow2(a) == a # <<>> /\ (a = <<1>> \/ (BEven(a) /\ IsPow2(BHalf(a))))

\* floor(a / b) by long division, bit by bit (b # 0).
RECURSIVE Bits(_)
Bits(a) == IF a = <<>> THEN 0 ELSE 15 * (Len(a) - 1) + (CHOOSE k \in 1..15 : 2 ^ (k - 1) <= a[Len(a)] /\ a[Len(a)] < 2 ^ k)
RECURSIVE DivStep(_, _, _, _)
DivStep(rem, b, q, k) ==   \* b * 2^k is subtracted when possible, k downto 0
    IF k < 0 THEN <<q, rem>>
    ELSE LET s == PMul(b, BPow2(k))
         IN IF PCmp(s, rem) <= 0 THEN DivStep(PSub(rem, s), b, PAdd(q, BPow2(k)), k - 1)
            ELSE DivStep(rem, b, q, k - 1)
PDiv(a, b) == Norm(DivStep(a, b, <<>>, Bits(a) - Bits(b))[1])
PMod(a, b) == DivStep(a, b, <<>>, Bits(a) - Bits(b))[2]
BDiv(a, b) == PDiv(a, b)
BMod(a, b) == PMod(a, b)
RECURSIVE PPow(_, _)
PPow(b, n) == IF n = 0 THEN B1 ELSE LET h == PPow(b, n \div 2) IN IF n % 2 = 0 THEN PMul(h, h) ELSE PMul(PMul(h, h), b)
BPow(b, n) == PPow(b, n)

\* Decimal digits, most significant first.
RECURSIVE BDecimal(_)
BDecimal(a) == IF a = <<>> THEN <<>> ELSE LET q == BDivD(a, 10) IN Append(BDecimal(q[1]), q[2])
RECURSIVE BOfDigits(_, _, _)
BOfDigits(ds, base, acc) == IF ds = <<>> THEN acc
    ELSE BOfDigits(Tail(ds), base, BAdd(MulD(acc, base, 1, 0), BN(Head(ds))))
=============================================================================
