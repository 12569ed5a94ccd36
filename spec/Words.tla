------------------------------- MODULE Words -------------------------------
(* 32-bit words as pairs <<high 16 bits, low 16 bits>> (TLC integers are    *)
(* 32-bit signed, so a word does not fit in one).                           *)
EXTENDS Integers, Sequences, Bitwise

H16 == 0..65535
Word == H16 \X H16

WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
WAnd(a, b) == <<a[1] & b[1], a[2] & b[2]>>
WNot(a) == <<65535 - a[1], 65535 - a[2]>>
WAdd(a, b) == LET lo == a[2] + b[2]
              IN <<((a[1] + b[1]) + (lo \div 65536)) % 65536, lo % 65536>>
WAdd3(a, b, c) == WAdd(WAdd(a, b), c)

P2 == <<2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>
Pow2(n) == IF n = 0 THEN 1 ELSE P2[n]

\* Rotate left by n, 0 < n < 32.
RECURSIVE WRotl(_, _)
WRotl(a, n) ==
    IF n = 16 THEN <<a[2], a[1]>>
    ELSE IF n > 16 THEN WRotl(<<a[2], a[1]>>, n - 16)
    ELSE <<((a[1] * Pow2(n)) % 65536) + (a[2] \div Pow2(16 - n)),
           ((a[2] * Pow2(n)) % 65536) + (a[1] \div Pow2(16 - n))>>
WRotr(a, n) == WRotl(a, 32 - n)
\* Shift right by n, 0 < n < 16.
WShr(a, n) == <<a[1] \div Pow2(n),
                (a[2] \div Pow2(n)) + (a[1] % Pow2(n)) * Pow2(16 - n)>>

\* Word at zero-based byte offset o of s.
BEWord(s, o) == <<s[o + 1] * 256 + s[o + 2], s[o + 3] * 256 + s[o + 4]>>
LEWord(s, o) == <<s[o + 4] * 256 + s[o + 3], s[o + 2] * 256 + s[o + 1]>>
BEBytes(w) == <<w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256>>
LEBytes(w) == <<w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256>>
=============================================================================
