SPECIFICATION Spec
CONSTANTS
  N = {"a", "b", "c"}
  Seeds <- TwoSeeds
INVARIANTS Tables Backdoor Frontdoor EmptyInvalid
CHECK_DEADLOCK FALSE
