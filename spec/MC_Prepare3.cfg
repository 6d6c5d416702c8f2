SPECIFICATION Spec
CONSTANTS N = 3
          Deep = FALSE
INVARIANTS ReplayOK GoneOK OrderOK WithdrawnOK CodesOK MapOK ScoreOK TaskOK SelectOK
CHECK_DEADLOCK FALSE
