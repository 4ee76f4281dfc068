SPECIFICATION Spec
CONSTANTS Arities = {1, 2, 4, 8, 16, 32}
          MaxEnd = 70
INVARIANTS Bounded Seamless Aligned FewScalar AtMost3 AllChunks Emitted
CHECK_DEADLOCK FALSE
