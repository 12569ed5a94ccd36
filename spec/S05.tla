--------------------------------- MODULE S05 ---------------------------------
(* S05: decryption succeeds exactly on what the passphrase holder produced.  *)
EXTENDS Container, Cases, Hex
Force == [force |-> 1]
Ok(c) ==
    LET v == IF c.fake = 1 THEN VerdictBy(StandInKey, Hex(c.pw), Hex(c.box), Force) ELSE Verdict(Hex(c.pw), Hex(c.box), Force)
    IN /\ (c.rc = 0) = (v = OK)
       /\ c.rc \in (IF c.cli = 1 THEN 0..1 ELSE {OK} \cup Errors)
       \* the cases that are meant to be attacks are
       /\ c.attack = 1 => v # OK
       \* ... and what the symbolic model says (Splice) is true
       /\ IF "says" \in DOMAIN c THEN v = c.says ELSE TRUE
Inv == l < 0 \/ Ok(Cases[l])
==============================================================================
