SPECIFICATION Spec
CONSTANT N = {"a", "b", "c", "d"}
INVARIANTS SeparationAgrees Symmetric Graphoid Adjacent
CHECK_DEADLOCK FALSE
