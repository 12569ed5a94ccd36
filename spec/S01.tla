-------------------------------- MODULE S01 --------------------------------
(* S01: what the key-derivation function returned is what RFC 7914 defines.  *)
EXTENDS Cases, CryptoFast, Hex, Bytes

\* Passphrases and salts beyond 2^32 bytes (zeros, then something: pm, sm MiB
\* and pn, sn more bytes of zeros), and such outputs, of which blocks of 32
\* bytes are given with their numbers.
LongPw(c) == IF c.pm = 0 /\ c.pn = 0 THEN Hex(c.pw)
             ELSE FSha256Rep(Zeros(64), c.pm \div 64, (c.pm % 64) * 16384 + (c.pn \div 64), Hex(c.pw))
LongOk(c) ==
    LET P == LongPw(c)
        M == FMixAll(FPbkSaltZ(P, c.sm, c.sn, Hex(c.salt), 128 * c.r * c.p), c.N, c.r, c.p)
    IN c.rc = 0 /\ c.slack = 1 /\ \A k \in 1..Len(c.b) : Hex(c.b[k].out) = FHmac(P, M \o Hex(c.b[k].i))
Ok(c) ==
    CASE c.kind = "kdf" ->
            /\ c.rc = 0
            /\ c.guards = 1
            /\ Hex(c.out) = FScrypt(Hex(c.pw), Hex(c.salt), c.N, c.r, c.p, c.len)
      [] c.kind = "long" -> LongOk(c)
      [] c.kind = "blocks" ->
            \* every block of B is mixed exactly once, with the right N and r
            /\ c.rc = 0
            /\ c.calls = c.p
            /\ c.bad = 0
            /\ c.blocks = c.p
            /\ c.sN = c.N /\ c.sr = c.r
Inv == l < 0 \/ Ok(Cases[l])
=============================================================================
