SPECIFICATION Spec
CONSTANTS Vals = {1, 2}
          Wide = FALSE
INVARIANTS BasisOK CodeOK EffectOK CovariateOK StageOK
CHECK_DEADLOCK FALSE
