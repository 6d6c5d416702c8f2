SPECIFICATION Spec
CONSTANTS Vals = {1, 3}
          Wide = TRUE
INVARIANTS BasisOK CodeOK EffectOK CovariateOK StageOK
CHECK_DEADLOCK FALSE
