INIT Init
NEXT Next
INVARIANT Inv
CONSTANTS Arms = 4
 Y = {0, 1, 5}
CHECK_DEADLOCK FALSE
