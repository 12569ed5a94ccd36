CONSTANTS MaxWords = 3
 MaxChars = 3
SPECIFICATION Spec
INVARIANT Inv
PROPERTY Progress
CHECK_DEADLOCK FALSE
