SPECIFICATION MCSpec
CONSTANTS Ids = {1, 2}
          Word = 2
          MaxBase = 9
          MaxBytes = 3
          Aligns = {1, 2, 4}
INVARIANTS Aligned Exclusive Inside Possible
PROPERTY Keeps
CHECK_DEADLOCK FALSE
