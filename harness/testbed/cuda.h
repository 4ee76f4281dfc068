// stand-in for the parts of the CUDA runtime which gpu_benchmark uses
#ifndef VERIF_TESTBED_CUDA_H
#define VERIF_TESTBED_CUDA_H
#include <cstring>
#include <string>
#include <vector>
struct cudaDeviceProp { char name[256]; int major, minor; };
typedef int cudaError_t;
static const int cudaSuccess = 0;
inline std::vector<std::string>& verif_gpus() { static std::vector<std::string> v; return v; }
inline int& verif_gpu() { static int g; return g; }
inline cudaError_t cudaGetDeviceCount(int *n) { *n = int(verif_gpus().size()); return 0; }
inline cudaError_t cudaGetDevice(int *d) { *d = verif_gpu(); return 0; }
inline cudaError_t cudaGetDeviceProperties(cudaDeviceProp *p, int d)
{
    if (d < 0 || d >= int(verif_gpus().size())) return 1;
    memset(p, 0x55, sizeof(*p));
    strcpy(p->name, verif_gpus()[std::size_t(d)].c_str());
    return 0;
}
#endif
