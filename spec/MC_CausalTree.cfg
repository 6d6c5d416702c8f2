SPECIFICATION Spec
CONSTANTS N = 4 X = {0, 1, 2} Y <- Outcomes
INVARIANTS Partition Limited Same InRange
PROPERTIES Helps Ends
CHECK_DEADLOCK FALSE
