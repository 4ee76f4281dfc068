SPECIFICATION Spec
CONSTANTS Ids = {1}
          K = 2
          Vals = {0, 1}
          Dims <- SmallDims
          Kind = "uni2"
          Asym = FALSE
          Ops = {"row", "acc", "raw"}
VIEW MCView
INVARIANTS TypeOK ExtentsFit
PROPERTIES FailureIsNoop Frame ReadsArePure
CHECK_DEADLOCK FALSE
