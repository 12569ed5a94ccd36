CONSTANTS Sigs = {1, 2, 3} MaxSigs = 4 MaxTries = 2
INIT Init
NEXT Next
INVARIANTS Progress Safe
CHECK_DEADLOCK FALSE
