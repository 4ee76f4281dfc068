SPECIFICATION Spec
CONSTANTS Ids = {1, 2}
          K = 1
          Vals = {0, 1}
          Dims <- SmallDims3
          Kind = "asym"
          Asym = TRUE
          Ops = {"call", "value"}
VIEW MCView
INVARIANTS TypeOK ExtentsFit
PROPERTIES FailureIsNoop Frame ReadsArePure
CHECK_DEADLOCK FALSE
