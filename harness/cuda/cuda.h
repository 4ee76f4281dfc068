#include "cuda_shim.hpp"
