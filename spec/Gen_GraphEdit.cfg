SPECIFICATION GenSpec
CONSTANTS
  N = {"a", "b", "c"}
  Handles = 1
CHECK_DEADLOCK FALSE
