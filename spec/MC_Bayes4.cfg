SPECIFICATION Spec
CONSTANTS N = 4
          Lives = 1
CONSTRAINT Small
INVARIANTS BlanketOK LeastOK ReachOK SetOK ParentsOK SeeOK EffectOK PathOK OwnOK FitOK
CHECK_DEADLOCK FALSE
