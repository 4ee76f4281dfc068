SPECIFICATION Spec
CONSTANTS TypeSize <- MCTypeSize
          ArrayLengths = {0, 1, 2}
          MaxDeclared = 3
INVARIANTS TilingInv LookupInv ListInv
PROPERTY Stable
CHECK_DEADLOCK FALSE
