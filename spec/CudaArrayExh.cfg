SPECIFICATION ESpec
CONSTANTS Ids = {1, 2}
          Unset <- UnsetVal
          M = 120
          Vals = {5}
          Exhaustive = TRUE
          Pick <- PickAll
VIEW EView
INVARIANTS OwnsOneBlock
ACTION_CONSTRAINT EmitTransition
CHECK_DEADLOCK FALSE
