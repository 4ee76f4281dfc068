SPECIFICATION ESpec
CONSTANTS Ids = {1, 4}
          Cap <- ExhCap
          K = 7
          Vals = {1, 50}
          MaxCtor = 5
          Exhaustive = TRUE
          Pick <- PickAll
VIEW EView
INVARIANT WithinCapacity
ACTION_CONSTRAINT EmitTransition
CHECK_DEADLOCK FALSE
