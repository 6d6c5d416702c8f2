INIT Init
NEXT Next
INVARIANT Inv
CONSTANTS N = 3
 X <- MinusToOne
 T0 = {0, 1}
CHECK_DEADLOCK FALSE
