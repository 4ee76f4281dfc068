SPECIFICATION Spec
CONSTANTS Isas = {"scalar", "sse", "sse2", "sse41", "avx", "avx2", "avx512", "neon", "mic", "cudadev"}
          Ilps = {1, 2, 3, 4, 5, 6, 7, 8, 16}
          DimProds = {1, 63, 64, 65, 4095, 4096, 4097, 1048576, 33554431, 33554432, 40000000}
          CellSizes = {1, 8, 24}
          Caches = {64, 4096, 98304, 1048576, 33554432}
INVARIANTS FillsRegisters Monotone Inverse Emitted
CHECK_DEADLOCK FALSE
