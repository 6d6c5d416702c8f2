SPECIFICATION Spec
CONSTANTS N = 4 X = {0, 1} C = {0, 1} Y <- Outcomes
INVARIANTS Partition Weights Difference Level Linear NotNegative
PROPERTIES Ends
CHECK_DEADLOCK FALSE
