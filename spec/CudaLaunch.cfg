SPECIFICATION Stutter
CONSTANTS MaxX = 9
          MaxY = 7
          MaxZ = 3
          WideBlock <- Wide
          TallBlock <- Tall
          TallFrom = 4
INVARIANTS Injective Covered Minimal
CHECK_DEADLOCK FALSE
