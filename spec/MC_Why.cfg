SPECIFICATION Spec
CONSTANTS N = 4
          K = 2
INVARIANTS WhatIfOK LinesOK IndividualOK PolicyOK UpliftOK RolesOK
CHECK_DEADLOCK FALSE
