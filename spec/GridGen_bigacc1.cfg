SPECIFICATION GSpec
CONSTANTS Ids = {1}
          K = 7
          Vals = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 100, 120}
          Kinds = {"big1"}
          Ops = {"acc", "neighbours"}
INVARIANTS TypeOK ExtentsFit Emitted
CHECK_DEADLOCK FALSE
