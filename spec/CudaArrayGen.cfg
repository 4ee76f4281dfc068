SPECIFICATION GSpec
CONSTANTS Ids = {1, 2, 3}
          Unset <- UnsetVal
          M = 120
          Vals = {0, 1, 2, 3, 40, 77, 119}
          Exhaustive = FALSE
INVARIANTS OwnsOneBlock Emitted
CHECK_DEADLOCK FALSE
