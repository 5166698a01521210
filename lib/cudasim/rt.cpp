#include "cudasim.h"
#include <cstdio>
#include <cstdlib>
#include <unordered_map>
#include <vector>
#include <ucontext.h>

sim_uint3 threadIdx, blockIdx, blockDim, gridDim;

namespace {
const size_t STACK = 64 * 1024;
struct Slot { int tid, block, phase; };
struct Byte { Slot s[3][2]; int n[3]; };
struct Range { uintptr_t a, b; };
std::unordered_map<uintptr_t, Byte> shadow;
std::vector<Range> ranges;
char *stacks; size_t nstacks;
std::vector<ucontext_t> ctx;
std::vector<char> done;
ucontext_t home;
int cur, curblock, phase;
bool active, failed;
char message[256];
long accesses, switches;
void (*kernel)(void **); void **kargs;

void fail(const char *what, const void *p) {
    if (!failed) {
        snprintf(message, sizeof message, "%s by thread %d of block %d, array %d", what, cur, curblock, (int) [&] {
            for (size_t i = 0; i < ranges.size(); i++)
                if ((uintptr_t) p >= ranges[i].a && (uintptr_t) p < ranges[i].b) return (int) i;
            return -1; }());
        failed = true;
    }
    swapcontext(&ctx[cur], &home);      // never resumed
}
void entry() {
    kernel(kargs);
    done[cur] = 1;
    swapcontext(&ctx[cur], &home);
}
}
extern "C" char __bss_start __attribute__((visibility("hidden"))), _end __attribute__((visibility("hidden")));

void sim_access(const void *p, size_t n, int kind) {
    if (!active || failed) return;
    uintptr_t a = (uintptr_t) p;
    if (a >= (uintptr_t) stacks && a < (uintptr_t) stacks + nstacks * STACK) return;
    bool shared = a >= (uintptr_t) &__bss_start && a < (uintptr_t) &_end;
    if (!shared) {
        if (p >= (void *) &threadIdx && p < (void *) (&threadIdx + 1)) return;
        bool in = false;
        for (auto &r : ranges) in |= a >= r.a && a + n <= r.b;
        if (!in) { fail(kind ? "write outside of the arrays" : "read outside of the arrays", p); return; }
    }
    accesses++;
    const char *conflict = nullptr;
    for (size_t i = 0; i < n; i++) {
        uintptr_t key = (a + i) ^ (shared ? (uintptr_t) (curblock + 1) << 48 : 0);
        Byte &b = shadow[key];
        for (int k = 0; k < 3; k++) {
            if (k == kind && kind != SIM_WRITE) continue;
            for (int j = 0; j < b.n[k]; j++) {
                Slot &s = b.s[k][j];
                if ((s.tid != cur || s.block != curblock) && (s.block != curblock || s.phase == phase))
                    conflict = "conflicting accesses without synchronisation";
            }
        }
        int j = 0;
        for (; j < b.n[kind]; j++) {
            Slot &s = b.s[kind][j];
            if (s.block == curblock && (s.tid == cur || s.phase != phase)) break;
        }
        if (j < 2) { b.s[kind][j] = Slot{cur, curblock, phase}; if (j == b.n[kind]) b.n[kind]++; }
    }
    if (conflict) fail(conflict, p);
}
void sim_barrier() { switches++; swapcontext(&ctx[cur], &home); }

extern "C" {
#define A(n) void __tsan_read##n(void *p) { sim_access(p, n, SIM_READ); } void __tsan_write##n(void *p) { sim_access(p, n, SIM_WRITE); } \
    void __tsan_unaligned_read##n(void *p) { sim_access(p, n, SIM_READ); } void __tsan_unaligned_write##n(void *p) { sim_access(p, n, SIM_WRITE); } \
    void __tsan_volatile_read##n(void *p) { sim_access(p, n, SIM_READ); } void __tsan_volatile_write##n(void *p) { sim_access(p, n, SIM_WRITE); }
A(1) A(2) A(4) A(8) A(16)
void __tsan_read_range(void *p, unsigned long n) { sim_access(p, n, SIM_READ); }
void __tsan_write_range(void *p, unsigned long n) { sim_access(p, n, SIM_WRITE); }
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **, void *) {}
int __cxa_guard_acquire_sim(void *) { return 0; }

// order: 0.. chooses the order of the threads of a block (all permutations up to 5 threads, else rotations and
// reversals) and of the blocks
int sim_launch(void (*f)(void **), void **args, int nblocks, int nthreads, const uintptr_t *lim, int nlim, long order) {
    kernel = f; kargs = args; failed = false; message[0] = 0; shadow.clear(); ranges.clear();
    for (int i = 0; i < nlim; i++) ranges.push_back(Range{lim[2 * i], lim[2 * i + 1]});
    if ((size_t) nthreads > nstacks) { free(stacks); stacks = (char *) malloc(nthreads * STACK); nstacks = nthreads; }
    blockDim = {(unsigned) nthreads, 1, 1}; gridDim = {(unsigned) nblocks, 1, 1};
    std::vector<int> perm(nthreads);
    {
        long o = order;
        std::vector<int> pool(nthreads);
        for (int i = 0; i < nthreads; i++) pool[i] = i;
        if (nthreads <= 5)
            for (int i = 0; i < nthreads; i++) { int k = o % (nthreads - i); o /= nthreads - i; perm[i] = pool[k]; pool.erase(pool.begin() + k); }
        else
            for (int i = 0; i < nthreads; i++) perm[i] = (o & 1) ? (int) ((nthreads - 1 - i + o / 2) % nthreads) : (int) ((i + o / 2) % nthreads);
    }
    ctx.assign(nthreads, ucontext_t());
    done.assign(nthreads, 0);
    for (int bi = 0; bi < nblocks && !failed; bi++) {
        curblock = (order & 1) ? nblocks - 1 - bi : (int) ((bi + order / 2) % nblocks);
        blockIdx = {(unsigned) curblock, 0, 0};
        phase = 0;
        for (int t = 0; t < nthreads; t++) {
            getcontext(&ctx[t]);
            ctx[t].uc_stack.ss_sp = stacks + t * STACK; ctx[t].uc_stack.ss_size = STACK; ctx[t].uc_link = nullptr;
            makecontext(&ctx[t], entry, 0);
            done[t] = 0;
        }
        for (;;) {
            int ran = 0, ended = 0;
            for (int i = 0; i < nthreads && !failed; i++) {
                int t = perm[i];
                if (done[t]) continue;
                cur = t; threadIdx = {(unsigned) t, 0, 0};
                active = true; swapcontext(&home, &ctx[t]); active = false;
                ran++; ended += done[t];
            }
            if (failed || !ran) break;
            if (ended && ended != ran) {    // some threads wait at a barrier others never reach
                failed = true; snprintf(message, sizeof message, "barrier not reached by all threads of block %d", curblock);
                break;
            }
            phase++;
        }
    }
    return failed;
}
const char *sim_message() { return message; }
long sim_accesses() { return accesses; }
}
