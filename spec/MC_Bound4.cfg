INIT Init
NEXT Next
INVARIANT Inv
CONSTANTS N = 4
 Y = {0, 2}
CHECK_DEADLOCK FALSE
