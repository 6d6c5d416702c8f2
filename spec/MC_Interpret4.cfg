SPECIFICATION Spec
CONSTANTS N = 4
          X = {0, 1}
          E = {0, 2}
INVARIANTS Partition Less Whole Limited
PROPERTIES Helps Ends
CHECK_DEADLOCK FALSE
