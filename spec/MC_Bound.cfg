INIT Init
NEXT Next
INVARIANT Inv
CONSTANTS N = 3
 Y = {0, 1, 3}
CHECK_DEADLOCK FALSE
