INIT Init
NEXT Next
INVARIANT Inv
CONSTANTS N = 4
 F = {0, 1}
 Y = {0, 1}
CHECK_DEADLOCK FALSE
