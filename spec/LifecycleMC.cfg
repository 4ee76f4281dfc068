SPECIFICATION Spec
CONSTANTS
  MaxBorn = 13
  Slots = 2
  MaxBlocks = 4
  Stamps = 3
CONSTRAINT Bound
INVARIANTS ExactlyOnce Intact Housed NothingLeft AllGone NeverStuck
PROPERTY CallsReturn
CHECK_DEADLOCK FALSE
