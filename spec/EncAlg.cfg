CONSTANTS HeadLen = 2
 SigLen = 2
 Block = 3
 MaxLen = 8
INIT AInit
NEXT ANext
INVARIANT Inv
PROPERTY Refines
CHECK_DEADLOCK TRUE
