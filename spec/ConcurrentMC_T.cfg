SPECIFICATION Spec
CONSTANTS Ids = {1, 2}
          K = 1
          N = 2
          Vals = {1}
          Dims <- MCDims
          Kind = "uni2"
          Steps = 4
          Phases = 1
          Ops = {"row", "raw", "call", "value"}
VIEW View
INVARIANTS TypeOK SoloView
CHECK_DEADLOCK FALSE
