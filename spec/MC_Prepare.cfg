SPECIFICATION Spec
CONSTANTS N = 2
          Deep = TRUE
INVARIANTS ReplayOK GoneOK OrderOK WithdrawnOK CodesOK MapOK ScoreOK TaskOK SelectOK
CHECK_DEADLOCK FALSE
