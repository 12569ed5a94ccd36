--------------------------------- MODULE S04 ---------------------------------
(* S04: a valid container decrypts to exactly the original.                  *)
EXTENDS Container, Cases, Hex
Force == [force |-> 1]
Ok(c) ==
    LET b == Hex(c.box)
        d == Hex(c.data)
        dk == IF c.fake = 1 THEN StandInKey(Hex(c.pw), b) ELSE DKey(Hex(c.pw), b)
    IN /\ EarlyVerdict(b, Force) = OK /\ HeadSigned(dk, b) /\ AllSigned(dk, b) /\ PlainOf(dk, b) = d
       /\ c.rc = 0
       /\ c.guards = 1
       /\ c.outlen = Len(d)
       /\ Hex(c.out) = d
       \* one key is derived, with the parameters of the header
       /\ c.observed = 1 => /\ Len(c.kdf) = 1
                            /\ c.kdf[1].N = BPow2(HLogN(b)) /\ c.kdf[1].r = HR(b) /\ c.kdf[1].p = HP(b)
                            /\ Hex(c.kdf[1].salt) = SaltOf(b)
       /\ c.rep # <<>> => c.rep = <<HLogN(b), SmallR(b), SmallP(b)>>
Inv == l < 0 \/ Ok(Cases[l])
==============================================================================
