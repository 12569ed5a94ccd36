------------------------------- MODULE Results -------------------------------
(* Results of the library, as in scryptenc.h.                                *)
EXTENDS Integers
OK == 0 ELIMIT == 1 ECLOCK == 2 EKEY == 3 ESALT == 4 EOPENSSL == 5 ENOMEM == 6 EINVAL == 7 EVERSION == 8
ETOOBIG == 9 ETOOSLOW == 10 EPASS == 11 EWRFILE == 12 ERDFILE == 13 EPARAM == 14 EBIGSLOW == 15
Errors == 1..15
==============================================================================
