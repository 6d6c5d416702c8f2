SPECIFICATION Spec
CONSTANT Big = TRUE
INVARIANTS ResultOK Progress StrongestSurvives RolesOK
PROPERTY Terminates
CHECK_DEADLOCK FALSE
