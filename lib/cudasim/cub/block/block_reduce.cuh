// Block-wide sum: every thread stores its part, a barrier, the first thread adds them. The storage may be used again
// only after another barrier, as with the original.
#pragma once
#include "cudasim.h"
namespace cub {
template <typename T, int N>
struct BlockReduce {
    struct TempStorage { T part[N]; };
    TempStorage &s;
    __attribute__((no_sanitize("thread"))) explicit BlockReduce(TempStorage &t) : s(t) {}
    template <int M>
    __attribute__((noinline, no_sanitize("thread"))) T Sum(T (&items)[M]) {
        T v = 0;
        for (int i = 0; i < M; i++) v += items[i];
        return Sum(v);
    }
    __attribute__((noinline, no_sanitize("thread"))) T Sum(T v) {
        unsigned t = threadIdx.x;
        sim_access(&s.part[t], sizeof(T), SIM_WRITE);
        s.part[t] = v;
        sim_barrier();
        if (threadIdx.x != 0) return (T) -12345;    // undefined in other threads
        T r = 0;
        for (unsigned i = 0; i < blockDim.x; i++) {
            sim_access(&s.part[i], sizeof(T), SIM_READ);
            r += s.part[i];
        }
        return r;
    }
};
}
