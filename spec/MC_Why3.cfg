SPECIFICATION Spec
CONSTANTS N = 6
          K = 2
INVARIANTS WhatIfOK LinesOK IndividualOK PolicyOK UpliftOK RolesOK
CHECK_DEADLOCK FALSE
