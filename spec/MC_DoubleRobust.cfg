INIT Init
NEXT Next
INVARIANT Inv
CONSTANTS Arms = 3
 Y = {0, 1, 2}
CHECK_DEADLOCK FALSE
