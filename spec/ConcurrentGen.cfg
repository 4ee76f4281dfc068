SPECIFICATION CGSpec
CONSTANTS Ids = {1, 2, 3}
          K = 7
          N = 4
          Vals = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 100, 120}
          Kinds = {"uni2", "asym"}
          Ops = {"neighbours"}
INVARIANTS TypeOK ExtentsFit Emitted
CHECK_DEADLOCK FALSE
