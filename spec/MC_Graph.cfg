SPECIFICATION Spec
CONSTANT N = {"a", "b", "c"}
INVARIANTS SeparationAgrees Symmetric Graphoid Adjacent
CHECK_DEADLOCK FALSE
