SPECIFICATION GSpec
CONSTANTS Ids = {1}
          K = 2
          Vals = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 100, 120}
          Kinds = {"big3"}
          Ops = {"row", "acc", "raw"}
INVARIANTS TypeOK ExtentsFit Emitted
CHECK_DEADLOCK FALSE
