SPECIFICATION Spec
CONSTANTS Ids = {1, 2, 3}
          Cap <- MCCap
          K = 1
          Vals = {1, 2}
INVARIANTS WithinCapacity DeadIsEmpty
PROPERTIES FailureIsNoop Frame
CHECK_DEADLOCK FALSE
