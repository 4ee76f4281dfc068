SPECIFICATION Spec
CONSTANTS Arities = {1, 2, 4}
          NReg = 2
          NScalar = 1
          Rounds = 1
INVARIANTS WellFounded LanesSeparate
PROPERTIES Frame
CONSTRAINT Short
CHECK_DEADLOCK FALSE
