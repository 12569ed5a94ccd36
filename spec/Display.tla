------------------------------- MODULE Display -------------------------------
(* What is displayed about parameters and needs (S18).                       *)
EXTENDS Limits, Text
Chars == "0123456789"
DigitText(d) == SubSeq(Chars, d + 1, d + 1)
RECURSIVE DigitsText(_)
DigitsText(ds) == IF ds = <<>> THEN "" ELSE DigitText(Head(ds)) \o DigitsText(Tail(ds))
DecText(n) == IF n = B0 THEN "0" ELSE DigitsText(BDecimal(n))

\* A size: whole bytes below 1000, then with a prefix, and with one decimal
\* place below 10.
Kilo(k) == BPow(<<1000>>, k)
Prefix(k) == SubSeq("kMGTPE", k, k)
KiloOf(n) == CHOOSE k \in 1..6 : BLe(Kilo(k), n) /\ (k = 6 \/ BLt(n, Kilo(k + 1)))
Human(n) ==
    IF BLt(n, <<1000>>) THEN DecText(n) \o " B"
    ELSE LET k == KiloOf(n)
             x == BDiv(BMul(n, <<10>>), Kilo(k))     \* tenths
         IN (IF BLt(x, <<100>>) THEN DecText(BDiv(x, <<10>>)) \o "." \o DecText(BMod(x, <<10>>)) ELSE DecText(BDiv(x, <<10>>)))
            \o " " \o Prefix(k) \o "B"

\* The same, said differently: the sizes that can be displayed, in tenths of a
\* power of 1000, and of those the largest that is not above n.
Forms == {[x |-> t, k |-> k] : t \in (10..99) \cup {10 * i : i \in 10..999}, k \in 1..6} \cup {[x |-> 10 * i, k |-> 0] : i \in 0..999}
FormTimes10(f) == BMul(BN(f.x), Kilo(f.k))
FormText(f) == IF f.k = 0 THEN DecText(BN(f.x \div 10)) \o " B"
               ELSE (IF f.x < 100 THEN DecText(BN(f.x \div 10)) \o "." \o DecText(BN(f.x % 10)) ELSE DecText(BN(f.x \div 10))) \o " " \o Prefix(f.k) \o "B"
IsLargest(t, n) ==
    \E f \in Forms : /\ FormText(f) = t
                     /\ BLe(FormTimes10(f), BMul(n, <<10>>))
                     /\ \A g \in Forms : ~(BLt(FormTimes10(f), FormTimes10(g)) /\ BLe(FormTimes10(g), BMul(n, <<10>>)))

\* ---- a number with one decimal place, against a quotient ----
RECURSIVE DigitsOf(_)
DigitsOf(s) == IF s = "" THEN <<>> ELSE <<CHOOSE d \in 0..9 : DigitText(d) = SubSeq(s, 1, 1)>> \o DigitsOf(SubSeq(s, 2, Len(s)))
AllDigits(s) == s # "" /\ \A i \in 1..Len(s) : HasText(Chars, SubSeq(s, i, i))
IsTenths(s) == Len(s) >= 3 /\ SubSeq(s, Len(s) - 1, Len(s) - 1) = "." /\ AllDigits(SubSeq(s, 1, Len(s) - 2) \o SubSeq(s, Len(s), Len(s)))
Tenths(s) == BOfDigits(DigitsOf(SubSeq(s, 1, Len(s) - 2) \o SubSeq(s, Len(s), Len(s))), 10, B0)
\* Right to within half a unit of its last place, and the rounding of
\* floating-point arithmetic (a part in 2^50).
Shows(s, num, den) ==
    /\ IsTenths(s)
    /\ LET a == BMul(Tenths(s), den)
           b == BMul(num, <<10>>)
           d == IF BLe(a, b) THEN BSub(b, a) ELSE BSub(a, b)
       IN BLe(BMul(d, BPow2(51)), BAdd(BMul(den, BPow2(50)), BMul(b, <<2>>)))

\* ---- the whole display ----
MaxSize == BSub(BPow2(64), B1)
ParamsText(logN, r, p) ==
    "Parameters used: N = " \o DecText(BPow2(logN)) \o "; r = " \o DecText(r) \o "; p = " \o DecText(p) \o ";\n"
    \o "    Decrypting this file requires at least " \o Human(BMin(MemNeed(logN, r), MaxSize)) \o " of memory"
\* Without resource limits (info, and -f).
Plainly(s, logN, r, p) == s = ParamsText(logN, r, p) \o ".\n"
\* With: the memory available, a speed of sn/sd operations per second, and
\* a limit of tn/td seconds (td = 0: none).
Cut(s, x) == CHOOSE i \in 0..(Len(s) - Len(x)) : SubSeq(s, i + 1, i + Len(x)) = x /\ \A j \in 0..(i - 1) : SubSeq(s, j + 1, j + Len(x)) # x
After(s, n) == SubSeq(s, n + 1, Len(s))
Fully(s, logN, r, p, mem, sn, sd, tn, td) ==
    LET a == ParamsText(logN, r, p) \o " (" \o Human(mem) \o " available),\n    and will take approximately "
        s1 == After(s, Len(a))
        b == " seconds (limit: "
        t == SubSeq(s1, 1, Cut(s1, b))
        s2 == After(s1, Len(t) + Len(b))
        c == " seconds).\n"
    IN /\ StartsWith(s, a)
       /\ HasText(s1, b)
       /\ EndsWith(s2, c)
       /\ Shows(t, BMul(OpsNeed(logN, r, p), sd), sn)
       /\ LET lim == SubSeq(s2, 1, Len(s2) - Len(c))
          IN IF td = B0 THEN lim = "inf" ELSE Shows(lim, tn, td)
==============================================================================
