SPECIFICATION MCSpec
CONSTANTS Ids = {1, 2}
          K = 1
          Vals = {1, 2}
          Max = 3
INVARIANT TypeOK
PROPERTIES FailureKeepsElements Prefix Frame
CHECK_DEADLOCK FALSE
