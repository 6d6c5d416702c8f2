SPECIFICATION Spec
CONSTANTS
  N = {"a", "b", "c"}
  Handles = 1
INVARIANTS AllWellFormed AllAcyclic Laws
PROPERTY OneChange
CHECK_DEADLOCK FALSE
