-------------------------------- MODULE Huge --------------------------------
(* Plaintexts that do not fit 32 bits: zero bytes, so many that positions,    *)
(* lengths and counts of bits pass 2^32 (S03, S04, S05).  Records:            *)
(*   what            "seal", "open" or "altered"                              *)
(*   pw, q, n        passphrase, parameters, <<n \div 2^20, n % 2^20>>        *)
(*   enc, head, sha, tail   result of encryption; first 96 and last 32 bytes  *)
(*                   and SHA-256 of the container                             *)
(*   dec, outlen, sha2      result of decrypting that; length and SHA-256 of  *)
(*                   what came out                                            *)
(*   altered         results of decrypting it with one byte changed, each     *)
(*                   beyond the header                                        *)
EXTENDS Container, Cases, Hex
DkOf(c) == FScrypt(Hex(c.pw), SaltOf(Hex(c.head)), 2 ^ c.q[1], c.q[2], c.q[3], 64)
SealOk(c) ==
    LET h == Hex(c.head)
        dk == DkOf(c)
    IN /\ c.enc = OK
       /\ h = Take(SealKey(dk, SaltOf(h), c.q[1], c.q[2], c.q[3], <<>>), 96)
       /\ <<Hex(c.sha), Hex(c.tail)>> = FSealZeros(dk, h, c.n[1], c.n[2])
OpenOk(c) == c.enc = OK /\ c.dec = OK /\ c.outlen = c.n /\ Hex(c.sha2) = FShaZeros(c.n[1], c.n[2])
AlteredOk(c) == c.enc = OK /\ \A k \in 1..Len(c.altered) : c.altered[k] = EINVAL
Ok(c) == CASE c.what = "seal" -> SealOk(c) [] c.what = "open" -> OpenOk(c) [] c.what = "altered" -> AlteredOk(c)
Inv == l \notin 1..Len(Cases) \/ Ok(Cases[l])
=============================================================================
