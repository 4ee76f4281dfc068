SPECIFICATION Spec
CONSTANTS Arities = {1, 2, 4, 8}
          MaxEnd = 26
INVARIANTS Bounded Seamless Aligned FewScalar AtMost3 AllChunks
PROPERTY Terminates
CHECK_DEADLOCK FALSE
