SPECIFICATION Spec
CONSTANTS Ids = {1, 2}
          Unset <- UnsetVal
          M = 4
          Vals = {3}
          MaxN = 3
INVARIANTS OwnsOneBlock CapacityFits
PROPERTIES Frame CapacityStays PrefixKept
CONSTRAINT MaxRuns
CHECK_DEADLOCK FALSE
