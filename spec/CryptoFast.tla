----------------------------- MODULE CryptoFast -----------------------------
(* The cryptographic functions of Sha256, Salsa and Aes under names that    *)
(* TLC may evaluate with the Java class CryptoFast (spec/java), for speed.  *)
(* The definitions here are the meaning; CryptoEquiv checks, on every run   *)
(* that uses them, that the Java evaluation agrees with these definitions.  *)
LOCAL INSTANCE Salsa
LOCAL INSTANCE Aes
FSha256(m) == Sha256(m)
FSha256Rep(b, nh, nl, m) == Sha256Rep(b, nh, nl, m)
FHmac(k, m) == Hmac(k, m)
FPbkdf2(P, S, c, n) == Pbkdf2(P, S, c, n)
\* the last k bytes of a long output
FPbkdf2Tail(P, S, c, n, k) == LET o == Pbkdf2(P, S, c, n) IN Drop(o, n - k)
FScrypt(P, S, N, r, p, n) == Scrypt(P, S, N, r, p, n)
FAesBlock(k, b) == AesBlock(k, b)
FAesCtr(k, nonce, blkno, off, data) == AesCtr(k, nonce, blkno, off, data)
FSalsa8(b) == Salsa8(b)
FXor(a, b) == XorBytes(a, b)
\* head, then m * 2^20 + n zero bytes encrypted, then the signature of it all:
\* <<SHA-256 of that, the signature>>
FSealZeros(dk, head, m, n) ==
    LET b == head \o AesCtr(Take(dk, 32), Zeros(8), Zeros(8), 0, Zeros(m * 1048576 + n))
        s == Hmac(Drop(dk, 32), b)
    IN <<Sha256(b \o s), s>>
\* SHA-256 of that many zero bytes
FShaZeros(m, n) == Sha256(Zeros(m * 1048576 + n))
\* The parts of scrypt; the first PBKDF2 with a salt of m * 2^20 + n zero bytes, then t.
FMixAll(B, N, r, p) == ConcatAll([i \in 1..p |-> SMix(Slice(B, (i - 1) * 128 * r, i * 128 * r), r, N)])
FPbkSaltZ(P, m, n, t, len) == Pbkdf2(P, Zeros(m * 1048576 + n) \o t, 1, len)
=============================================================================
