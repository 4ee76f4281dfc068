SPECIFICATION ESpec
CONSTANTS Arities = {1, 2, 4, 8, 16, 32}
          Families = {"real", "int"}
          NReg = 3
          Slack = 48
          Grain = 16
          Focus = "any"
          MaxExp = 8
INVARIANTS TypeOK Emitted
CHECK_DEADLOCK FALSE
