SPECIFICATION Spec
CONSTANTS N = 5 X = {0, 1} Y <- Outcomes
INVARIANTS Partition Limited Same InRange
PROPERTIES Helps Ends
CHECK_DEADLOCK FALSE
