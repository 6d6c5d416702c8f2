SPECIFICATION Spec
CONSTANTS N = 3
          Lives = 2
CONSTRAINT Small
INVARIANTS BlanketOK LeastOK ReachOK SetOK ParentsOK SeeOK EffectOK PathOK OwnOK FitOK
CHECK_DEADLOCK FALSE
