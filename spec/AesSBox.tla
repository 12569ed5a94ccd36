------------------------------ MODULE AesSBox ------------------------------
(* The S-box table of Aes is the inverse in GF(2^8) followed by the affine   *)
(* map of FIPS 197.  One state per table entry.                              *)
EXTENDS Aes
VARIABLE x
Init == x \in 0..255
Next == UNCHANGED x
Inv == SBox[x] = SBoxDef(x)
=============================================================================
