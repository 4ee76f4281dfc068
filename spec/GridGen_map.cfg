SPECIFICATION GSpec
CONSTANTS Ids = {1, 2, 3}
          K = 7
          Vals = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 100, 120}
          Kinds = {"axes", "uni1", "uni2", "uni3", "asym", "default"}
          Ops = {"row", "acc", "raw", "resize"}
INVARIANTS TypeOK ExtentsFit Emitted
CHECK_DEADLOCK FALSE
