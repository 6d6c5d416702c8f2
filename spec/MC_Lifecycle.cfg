SPECIFICATION Spec
INVARIANT Functional
CONSTANTS
  Data = {"A", "B"}
  Questions = {"p", "q"}
  Depth = 5
  Flaw = "none"
CHECK_DEADLOCK FALSE
