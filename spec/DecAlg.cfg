CONSTANTS HeadLen = 2
 SigLen = 2
 Block = 3
 MaxLen = 11
INIT AInit
NEXT ANext
INVARIANT Inv
PROPERTY Refines
CHECK_DEADLOCK TRUE
