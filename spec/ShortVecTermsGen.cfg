SPECIFICATION GSpec
CONSTANTS Arities = {1, 2, 4, 8, 16, 32}
          NReg = 3
          NScalar = 6
          Rounds = 0
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
