SPECIFICATION Spec
CONSTANT Big = FALSE
INVARIANTS ResultOK Progress StrongestSurvives RolesOK
CHECK_DEADLOCK FALSE
