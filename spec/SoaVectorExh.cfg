SPECIFICATION ESpec
CONSTANTS Ids = {1, 2}
          K = 7
          Vals = {1}
          Kinds = {"tiny"}
          Exhaustive = TRUE
          Pick <- PickAll
VIEW EView
INVARIANT TypeOK
ACTION_CONSTRAINT EmitTransition
CHECK_DEADLOCK FALSE
