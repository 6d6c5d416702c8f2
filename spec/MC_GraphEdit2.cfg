SPECIFICATION Spec
CONSTANTS
  N = {"a", "b", "c"}
  Handles = 2
INVARIANTS AllWellFormed AllAcyclic Laws
PROPERTY OneChange
CHECK_DEADLOCK FALSE
