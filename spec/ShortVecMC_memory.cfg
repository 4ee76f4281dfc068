SPECIFICATION Spec
CONSTANTS Arities = {2}
          Families = {"real", "int"}
          NReg = 1
          Slack = 1
          Grain = 1
          Values = {5, 6}
          MaxAbs = 300
          Part = "memory"
CONSTRAINT Small
INVARIANTS TypeOK Equivariant Algebra Comparisons Blends Memory
CHECK_DEADLOCK FALSE
