// A CUDA device in plain C++: device memory can only be accessed by kernels and
// cudaMemcpy (AddressSanitizer poisons it otherwise), kernels' threads run one after
// another in varying order. bin/props.py turns kernel<<<grid, block>>>(args) into
// verif_cuda::launch(verif_cuda::config(grid, block), kernel, args);
// arguments are passed by value, as CUDA does.
#ifndef VERIF_CUDA_SHIM_HPP
#define VERIF_CUDA_SHIM_HPP
#include "../replay.hpp"
#include <cstddef>
#include <algorithm>
#if defined(__SANITIZE_ADDRESS__)
#define VERIF_ASAN
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VERIF_ASAN
#endif
#endif
#ifdef VERIF_ASAN
#include <sanitizer/asan_interface.h>
#else
#define ASAN_POISON_MEMORY_REGION(p, n) ((void)(p))
#define ASAN_UNPOISON_MEMORY_REGION(p, n) ((void)(p))
#endif

#define __global__
#define __host__
#define __device__
#define __constant__
#define __forceinline__ inline
#define __launch_bounds__(...)

struct dim3
{
    unsigned x, y, z;
    dim3(unsigned x = 1, unsigned y = 1, unsigned z = 1) : x(x), y(y), z(z) {}
};
typedef dim3 uint3;
static dim3 blockIdx, threadIdx, blockDim, gridDim;

enum cudaError_t { cudaSuccess = 0, cudaErrorInvalidValue = 1 };
typedef cudaError_t cudaError;
enum cudaMemcpyKind { cudaMemcpyHostToHost, cudaMemcpyHostToDevice, cudaMemcpyDeviceToHost, cudaMemcpyDeviceToDevice, cudaMemcpyDefault };
typedef void *cudaStream_t;

namespace verif_cuda {

struct Device
{
    std::map<char*, std::size_t> blocks;      // device memory
    std::map<char*, std::size_t> host;        // host memory kernels must not touch
    long launches = 0, threads = 0, copies = 0;
    bool in_kernel = false;
};
inline Device& dev() { static Device d; return d; }

inline void fail(const std::string& what) { rep().fail("DEVICE", what); }

// 1: completely within a device block, 0: no device memory at all, -1: partly
inline int where(const void *vp, std::size_t n)
{
    char *p = (char*)vp;
    auto& b = dev().blocks;
    auto i = b.upper_bound(p);
    if (i != b.begin()) {
        auto j = i; --j;
        if (p < j->first + j->second) return p + n <= j->first + j->second ? 1 : -1;
    }
    if (i != b.end() && p + n > i->first) return -1;
    return 0;
}
inline void open(bool o)
{
    for (auto& b : dev().blocks) { if (o) ASAN_UNPOISON_MEMORY_REGION(b.first, b.second); else ASAN_POISON_MEMORY_REGION(b.first, b.second); }
}

struct HostOnly
{
    char *p;
    HostOnly(const void *q, std::size_t n) : p((char*)q) { if (n) dev().host[p] = n; }
    ~HostOnly() { dev().host.erase(p); }
};

struct config
{
    dim3 grid, block;
    config(const dim3& grid, const dim3& block, std::size_t = 0, cudaStream_t = 0) : grid(grid), block(block) {}
};

template<typename KERNEL, typename... ARGS>
inline void launch(const config& c, const KERNEL& kernel, ARGS... args)
{
    const dim3& g = c.grid;
    const dim3& b = c.block;
    unsigned long nb = (unsigned long)g.x * g.y * g.z, nt = (unsigned long)b.x * b.y * b.z;
    ++dev().launches;
    // an invalid configuration runs nothing (kernels over empty ranges rely on this)
    if (nb == 0 || nt == 0) return;
    if (nt > 1024 || b.x > 1024 || b.y > 1024 || b.z > 64 || g.x > 2147483647u || g.y > 65535 || g.z > 65535) { fail("launch exceeds the device's limits"); return; }
    if (nb * nt > 200000000ul) { fail("excessive number of threads"); return; }
    open(true);
    for (auto& h : dev().host) ASAN_POISON_MEMORY_REGION(h.first, h.second);
    dev().in_kernel = true;
    blockDim = b; gridDim = g;
    unsigned order = unsigned(dev().launches % 3);
    for (unsigned long ib = 0; ib < nb; ++ib) {
        unsigned long kb = order == 0 ? ib : (order == 1 ? nb - 1 - ib : (ib + nb / 2) % nb);
        blockIdx = dim3(unsigned(kb % g.x), unsigned(kb / g.x % g.y), unsigned(kb / g.x / g.y));
        for (unsigned long it = 0; it < nt; ++it) {
            unsigned long kt = order == 0 ? it : (order == 1 ? nt - 1 - it : (it + nt / 2 + 1) % nt);
            threadIdx = dim3(unsigned(kt % b.x), unsigned(kt / b.x % b.y), unsigned(kt / b.x / b.y));
            kernel(args...);
        }
    }
    dev().threads += long(nb * nt);
    dev().in_kernel = false;
    for (auto& h : dev().host) ASAN_UNPOISON_MEMORY_REGION(h.first, h.second);
    open(false);
}

}

extern HeapStat heap_stat;

template<typename T> inline cudaError_t cudaMalloc(T **p, std::size_t n)
{
    if (n > (std::size_t(1) << 34)) { *p = 0; return cudaErrorInvalidValue; }
    // (zero bytes: no memory)
    if (n == 0) { *p = 0; return cudaSuccess; }
    char *q = (char*)malloc(n);
    memset(q, 0xC5, n);
    *p = (T*)q;
    verif_cuda::dev().blocks[q] = n;
    ++heap_stat.blocks;
    ASAN_POISON_MEMORY_REGION(q, n);
    return cudaSuccess;
}
template<typename T> inline cudaError_t cudaFree(T *p)
{
    if (!p) return cudaSuccess;
    auto i = verif_cuda::dev().blocks.find((char*)p);
    if (i == verif_cuda::dev().blocks.end()) { verif_cuda::fail("cudaFree of something which isn't allocated"); return cudaErrorInvalidValue; }
    ASAN_UNPOISON_MEMORY_REGION(i->first, i->second);
    memset(i->first, 0xDD, i->second);
    free(i->first);
    verif_cuda::dev().blocks.erase(i);
    --heap_stat.blocks;
    return cudaSuccess;
}
inline cudaError_t cudaMemcpy(void *d, const void *s, std::size_t n, cudaMemcpyKind kind)
{
    ++verif_cuda::dev().copies;
    if (n == 0) return cudaSuccess;
    int wd = verif_cuda::where(d, n), ws = verif_cuda::where(s, n);
    int dd = kind == cudaMemcpyHostToDevice || kind == cudaMemcpyDeviceToDevice, ds = kind == cudaMemcpyDeviceToHost || kind == cudaMemcpyDeviceToDevice;
    if (kind == cudaMemcpyDefault) { dd = wd != 0; ds = ws != 0; }
    if (wd != dd) { verif_cuda::fail("cudaMemcpy: target is not (completely) in the memory it should be in"); return cudaErrorInvalidValue; }
    if (ws != ds) { verif_cuda::fail("cudaMemcpy: source is not (completely) in the memory it should be in"); return cudaErrorInvalidValue; }
    if (d != s && (char*)d < (char*)s + n && (char*)s < (char*)d + n) { verif_cuda::fail("cudaMemcpy: source and target overlap"); return cudaErrorInvalidValue; }
    verif_cuda::open(true);
    if (d != s) memcpy(d, s, n);
    verif_cuda::open(false);
    return cudaSuccess;
}
inline cudaError_t cudaMemcpyAsync(void *d, const void *s, std::size_t n, cudaMemcpyKind kind, cudaStream_t = 0) { return cudaMemcpy(d, s, n, kind); }
inline cudaError_t cudaMemset(void *d, int v, std::size_t n)
{
    if (n == 0) return cudaSuccess;
    if (verif_cuda::where(d, n) != 1) { verif_cuda::fail("cudaMemset: target is not in device memory"); return cudaErrorInvalidValue; }
    verif_cuda::open(true);
    memset(d, v, n);
    verif_cuda::open(false);
    return cudaSuccess;
}
inline cudaError_t cudaMemsetAsync(void *d, int v, std::size_t n, cudaStream_t = 0) { return cudaMemset(d, v, n); }
inline cudaError_t cudaDeviceSynchronize() { return cudaSuccess; }
inline cudaError_t cudaThreadSynchronize() { return cudaSuccess; }
inline cudaError_t cudaStreamSynchronize(cudaStream_t) { return cudaSuccess; }
inline cudaError_t cudaGetLastError() { return cudaSuccess; }
inline cudaError_t cudaPeekAtLastError() { return cudaSuccess; }
inline const char *cudaGetErrorString(cudaError_t) { return "error"; }
#endif
