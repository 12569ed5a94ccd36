------------------------------- MODULE Salsa -------------------------------
(* RFC 7914: Salsa20/8, scryptBlockMix, scryptROMix, scrypt; executable.    *)
EXTENDS Sha256

QR(x, a, b, c, d) ==  \* x[b] ^= (x[a]+x[d])<<<7 etc., 1-based word indices
    LET xb == WXor(x[b], WRotl(WAdd(x[a], x[d]), 7))
        xc == WXor(x[c], WRotl(WAdd(xb, x[a]), 9))
        xd == WXor(x[d], WRotl(WAdd(xc, xb), 13))
        xa == WXor(x[a], WRotl(WAdd(xd, xc), 18))
    IN [x EXCEPT ![a] = xa, ![b] = xb, ![c] = xc, ![d] = xd]

DoubleRound(x0) ==
    LET x1 == QR(x0, 1, 5, 9, 13)
        x2 == QR(x1, 6, 10, 14, 2)
        x3 == QR(x2, 11, 15, 3, 7)
        x4 == QR(x3, 16, 4, 8, 12)
        x5 == QR(x4, 1, 2, 3, 4)
        x6 == QR(x5, 6, 7, 8, 5)
        x7 == QR(x6, 11, 12, 9, 10)
        x8 == QR(x7, 16, 13, 14, 15)
    IN x8

Salsa8(b) ==   \* 64 bytes to 64 bytes
    LET x == [i \in 1..16 |-> LEWord(b, 4 * (i - 1))]
        y == FoldLeft(LAMBDA s, i : DoubleRound(s), x, Upto(1, 4))
    IN ConcatAll([i \in 1..16 |-> LEBytes(WAdd(x[i], y[i]))])

BlockMix(B, r) ==
    LET st == FoldLeft(LAMBDA s, i :
                LET X == Salsa8(XorBytes(s[1], Slice(B, 64 * i, 64 * i + 64)))
                IN IF i % 2 = 0 THEN <<X, s[2] \o X, s[3]>>
                                ELSE <<X, s[2], s[3] \o X>>,
                <<Slice(B, 128 * r - 64, 128 * r), <<>>, <<>>>>, Upto(0, 2 * r - 1))
    IN st[2] \o st[3]

\* Integerify(X) mod N, for N a power of two below 2^31
Integerify(X, r, N) ==
    LET o == 128 * r - 64
    IN (X[o + 1] + 256 * X[o + 2] + 65536 * X[o + 3] + 16777216 * (X[o + 4] % 128)) % N

SMix(B, r, N) ==
    LET VX == FoldLeft(LAMBDA s, i : <<Append(s[1], s[2]), BlockMix(s[2], r)>>,
                       <<<<>>, B>>, Upto(1, N))
        V == VX[1]
    IN FoldLeft(LAMBDA X, i : BlockMix(XorBytes(X, V[Integerify(X, r, N) + 1]), r),
                VX[2], Upto(1, N))

Scrypt(P, S, N, r, p, n) ==
    LET B == Pbkdf2(P, S, 1, p * 128 * r)
        M == ConcatAll([i \in 1..p |-> SMix(Slice(B, (i - 1) * 128 * r, i * 128 * r), r, N)])
    IN Pbkdf2(P, M, 1, n)
=============================================================================
