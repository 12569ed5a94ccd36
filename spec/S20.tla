-------------------------------- MODULE S20 --------------------------------
(* S20: one-shot results of the hash functions and of byte comparison.       *)
EXTENDS Cases, CryptoFast, Hex, SequencesExt

Cat(parts) == FoldLeft(LAMBDA acc, x : acc \o Hex(x), <<>>, parts)
Ok(c) ==
    /\ c.guards = 1
    /\ CASE c.kind = "sha"    -> Hex(c.out) = FSha256(Cat(c.parts))
         [] c.kind = "hmac"   -> Hex(c.out) = FHmac(Hex(c.key), Cat(c.parts))
         [] c.kind = "pbkdf2" -> Hex(c.out) = FPbkdf2(Hex(c.pw), Hex(c.salt), c.c, c.len)
         [] c.kind = "pbktail" -> Hex(c.out) = FPbkdf2Tail(Hex(c.pw), Hex(c.salt), c.c, c.len, c.k)
         [] c.kind = "rep"    -> Hex(c.out) = FSha256Rep(Hex(c.blk), c.nh, c.nl, Hex(c.tail))
         [] c.kind = "verify" -> (c.out = 0) = (c.x = c.y)
         [] c.kind = "verifyzero" -> (c.out = 0) = (c.pos = -1)
Inv == l < 0 \/ Ok(Cases[l])
=============================================================================
