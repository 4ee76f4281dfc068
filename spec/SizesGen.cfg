SPECIFICATION SSpec
CONSTANTS Ids = {1}
          K = 1
          Dense = 40
          Kinds = {"default", "default1d", "default2d", "default2du", "default3d", "default3du", "axes", "uni1", "uni2", "uni3", "asym"}
INVARIANTS AllCorrect Emitted
CHECK_DEADLOCK FALSE
