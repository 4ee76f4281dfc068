SPECIFICATION Spec
CONSTANTS Ids = {1, 2}
          K = 1
          Vals = {0, 1}
          Dims <- RawDims
          Kind = "uni2"
          Asym = FALSE
          Ops = {"raw"}
VIEW MCView
INVARIANTS TypeOK ExtentsFit
PROPERTIES FailureIsNoop Frame ReadsArePure
CHECK_DEADLOCK FALSE
