SPECIFICATION Spec
CONSTANTS TypeSize <- MCTypeSize
          ArrayLengths = {0, 2, 3}
          MaxDeclared = 4
INVARIANTS TilingInv LookupInv ListInv
PROPERTY Stable
CHECK_DEADLOCK FALSE
