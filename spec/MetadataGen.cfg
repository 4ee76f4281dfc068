SPECIFICATION GSpec
CONSTANTS TypeSize <- GenTypeSize
          ArrayLengths <- GenArrayLengths
          MaxDeclared = 100
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
