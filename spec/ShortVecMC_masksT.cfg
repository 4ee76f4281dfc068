SPECIFICATION Spec
CONSTANTS Arities = {3}
          Families = {"real", "int"}
          NReg = 2
          Slack = 0
          Grain = 1
          Values = {0, 3, 900000001, 900000004}
          MaxAbs = 300
          Part = "masks"
CONSTRAINT Small
INVARIANTS TypeOK Equivariant Algebra Comparisons Blends Memory
CHECK_DEADLOCK FALSE
