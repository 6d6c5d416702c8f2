INIT Init
NEXT Next
INVARIANT Inv
CONSTANTS N = 3
 X <- MinusToTwo
 T0 <- MinusToOne
CHECK_DEADLOCK FALSE
