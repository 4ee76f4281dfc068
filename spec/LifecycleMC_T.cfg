SPECIFICATION Spec
CONSTANTS
  MaxBorn = 16
  Slots = 3
  MaxBlocks = 5
  Stamps = 3
CONSTRAINT Bound
INVARIANTS ExactlyOnce Intact Housed NothingLeft AllGone NeverStuck
PROPERTY CallsReturn
CHECK_DEADLOCK FALSE
