SPECIFICATION Spec
CONSTANTS N = 5 X = {0, 1, 2} E <- Effects
INVARIANTS Partition Between Limited
PROPERTIES Helps Ends
CHECK_DEADLOCK FALSE
