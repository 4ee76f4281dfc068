SPECIFICATION Spec
CONSTANTS Arities = {1}
          Families = {"real", "int"}
          NReg = 2
          Slack = 0
          Grain = 1
          Values = {0, 3, 64, 900000001, 900000002, 900000003, 900000004}
          MaxAbs = 16
          Part = "arith"
CONSTRAINT Small
INVARIANTS TypeOK Equivariant Algebra Comparisons Blends Memory
CHECK_DEADLOCK FALSE
