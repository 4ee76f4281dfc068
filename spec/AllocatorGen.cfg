SPECIFICATION GSpec
CONSTANTS Ids = {1, 2, 3, 4}
          Word = 8
          Exhaustive = FALSE
INVARIANTS Aligned Exclusive Inside Emitted
CHECK_DEADLOCK FALSE
