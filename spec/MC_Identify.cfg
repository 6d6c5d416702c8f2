SPECIFICATION Spec
CONSTANT N = {"a", "b", "c"}
INVARIANTS BackdoorIdentifies FrontdoorIdentifies NoLatentsIdentifies BowDoesNot NotAncestor Canonical PathsDecideEmpty InstrumentsAreExogenous
CHECK_DEADLOCK FALSE
