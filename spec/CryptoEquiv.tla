----------------------------- MODULE CryptoEquiv -----------------------------
(* Known answers of the executable crypto specification, and agreement of    *)
(* the accelerated evaluation (CryptoFast) with the definitions, on cases    *)
(* read from a file.  One state per case.                                    *)
EXTENDS Salsa, Aes, CryptoFast, Cases, Hex, BigNat

Agree(c) ==
    CASE c.f = "sha"    -> FSha256(c.m) = Sha256(c.m)
      [] c.f = "sharep" -> /\ FSha256Rep(c.b, 0, c.n, c.m) = Sha256Rep(c.b, 0, c.n, c.m)
                           /\ FSha256Rep(c.b, 0, c.n, c.m) = Sha256(ConcatAll([i \in 1..c.n |-> c.b]) \o c.m)
                           /\ BitLenRep(0, c.big, c.k) = <<0>> \o BitLen(64 * c.big + c.k)
                           /\ BitLenRep(4096, c.big, c.k) = [<<0>> \o BitLen(64 * c.big + c.k) EXCEPT ![4] = @ + 2 ^ (20 + 12 + 9 - 40)]
      [] c.f = "pbkdf2tail" -> FPbkdf2Tail(c.p, c.s, c.c, c.n, c.k) = Drop(FPbkdf2(c.p, c.s, c.c, c.n), c.n - c.k)
      [] c.f = "hmac"   -> FHmac(c.k, c.m) = Hmac(c.k, c.m)
      [] c.f = "pbkdf2" -> FPbkdf2(c.p, c.s, c.c, c.n) = Pbkdf2(c.p, c.s, c.c, c.n)
      [] c.f = "salsa"  -> FSalsa8(c.m) = Salsa8(c.m)
      [] c.f = "scrypt" -> /\ FScrypt(c.p, c.s, c.N, c.r, c.pp, c.n) = Scrypt(c.p, c.s, c.N, c.r, c.pp, c.n)
                           /\ LET B == FPbkSaltZ(c.p, 0, c.n, c.s, 128 * c.r * c.pp)
                              IN /\ B = Pbkdf2(c.p, Zeros(c.n) \o c.s, 1, 128 * c.r * c.pp)
                                 /\ FMixAll(B, c.N, c.r, c.pp) = ConcatAll([i \in 1..c.pp |-> SMix(Slice(B, (i - 1) * 128 * c.r, i * 128 * c.r), c.r, c.N)])
                           /\ FPbkSaltZ(c.p, 1, c.n, c.s, 40) = FPbkdf2(c.p, Zeros(1048576 + c.n) \o c.s, 1, 40)
      [] c.f = "aesctr" -> FAesCtr(c.k, c.nonce, c.blkno, c.off, c.m) = AesCtr(c.k, c.nonce, c.blkno, c.off, c.m)
      [] c.f = "zeros"  -> /\ FSealZeros(c.k, c.m, 0, c.n) = LET b == c.m \o AesCtr(Take(c.k, 32), Zeros(8), Zeros(8), 0, Zeros(c.n)) IN <<Sha256(b \o Hmac(Drop(c.k, 32), b)), Hmac(Drop(c.k, 32), b)>>
                           /\ FShaZeros(0, c.n) = Sha256(Zeros(c.n))
                           /\ FShaZeros(1, c.n) = FSha256(Zeros(1048576 + c.n))
                           /\ FSealZeros(c.k, c.m, 1, c.n) = LET b == c.m \o FAesCtr(Take(c.k, 32), Zeros(8), Zeros(8), 0, Zeros(1048576 + c.n)) IN <<FSha256(b \o FHmac(Drop(c.k, 32), b)), FHmac(Drop(c.k, 32), b)>>
      [] c.f = "xor"    -> FXor(c.k, c.m) = XorBytes(c.k, c.m)
      [] c.f = "hex"    -> Hex(c.s) = c.m /\ HexPure(c.s) = c.m /\ ToHex(c.m) = c.s /\ ToHexPure(c.m) = c.s
      [] c.f = "nat"    -> /\ BAdd(c.a, c.b) = PAdd(c.a, c.b) /\ BCmp(c.a, c.b) = PCmp(c.a, c.b) /\ BMul(c.a, c.b) = PMul(c.a, c.b)
                           /\ (PCmp(c.a, c.b) >= 0 => BSub(c.a, c.b) = PSub(c.a, c.b))
                           /\ (c.b # B0 => BDiv(c.a, c.b) = PDiv(c.a, c.b) /\ BMod(c.a, c.b) = PMod(c.a, c.b))
                           /\ BPow(c.a, c.n) = PPow(c.a, c.n)
      [] c.f = "kat"    -> \* published answers, of the pure definitions
            CASE c.g = "sha"    -> Sha256(c.m) = c.out
              [] c.g = "hmac"   -> Hmac(c.k, c.m) = c.out
              [] c.g = "scrypt" -> Scrypt(c.p, c.s, c.N, c.r, c.pp, c.n) = c.out
              [] c.g = "fscrypt" -> FScrypt(c.p, c.s, c.N, c.r, c.pp, c.n) = c.out
              [] c.g = "salsa"  -> Salsa8(c.m) = c.out
              [] c.g = "aes"    -> AesBlock(c.k, c.m) = c.out
Inv == l < 0 \/ Agree(Cases[l])
=============================================================================
