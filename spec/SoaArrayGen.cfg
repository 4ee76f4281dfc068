SPECIFICATION GSpec
CONSTANTS Ids = {1, 2, 3, 4}
          Cap <- GenCap
          K = 7
          Vals = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 100, 120}
          MaxCtor = 10
          Exhaustive = FALSE
INVARIANTS WithinCapacity Emitted
CHECK_DEADLOCK FALSE
