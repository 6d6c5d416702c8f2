SPECIFICATION Spec
CONSTANTS N = 3
          X = {0, 1, 2}
          E = {0, 2}
INVARIANTS Partition Less Whole Limited
PROPERTIES Helps Ends
CHECK_DEADLOCK FALSE
