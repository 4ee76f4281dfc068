SPECIFICATION Spec
CONSTANTS Ids = {1, 2, 3}
          K = 1
          Vals = {0, 1}
          Dims <- ValueDims
          Kind = "uni2"
          Asym = FALSE
          Ops = {"value"}
VIEW MCView
INVARIANTS TypeOK ExtentsFit
PROPERTIES FailureIsNoop Frame ReadsArePure
CHECK_DEADLOCK FALSE
