// Runs CUDA kernels on the host: every thread of a launch is a fiber, scheduled one at a time in a given order.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstring>
#define __global__
#define __device__
#define __host__
#define __forceinline__ inline
#define __shared__ static
#undef __restrict__
#define __restrict__
struct sim_uint3 { unsigned x, y, z; };
extern sim_uint3 threadIdx, blockIdx, blockDim, gridDim;
void sim_barrier();
enum { SIM_READ = 0, SIM_WRITE = 1, SIM_ATOMIC = 2 };
void sim_access(const void *p, size_t n, int kind);
#define __launch_bounds__(...)
#define __constant__ static
using std::max;
using std::min;
template <typename T> __attribute__((always_inline)) inline T __ldg(const T *p) { return *p; }
inline void __syncthreads() { sim_barrier(); }
template <typename T, typename U>
__attribute__((noinline, no_sanitize("thread"))) T atomicAdd(T *p, U v) {
    sim_access(p, sizeof(T), SIM_ATOMIC);
    T old = *p;
    *p = old + (T) v;
    return old;
}
