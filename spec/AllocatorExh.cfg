SPECIFICATION ESpec
CONSTANTS Ids = {1}
          Word = 8
          Exhaustive = TRUE
INVARIANTS Aligned Inside EEmitted
CHECK_DEADLOCK FALSE
