SPECIFICATION GSpec
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
