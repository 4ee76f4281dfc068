SPECIFICATION GSpec
CONSTANTS Ids = {1, 2, 3}
          K = 7
          Vals = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 100, 120}
          Kinds = {"tiny", "uni1", "axes", "default1d"}
          Exhaustive = FALSE
INVARIANTS TypeOK Emitted
CHECK_DEADLOCK FALSE
