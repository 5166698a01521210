// Controlled scheduler for the parallel regions of the code under test.
//
// The extension is compiled with -fopenmp -fsanitize=thread and linked against
// this file instead of libgomp and libtsan.  The instrumentation calls report
// every memory access, the OpenMP entry points create the team, and exactly one
// member of the team runs at a time.  A scheduling point lies before every
// access made by an instruction that was seen to conflict with another thread,
// and before every synchronising operation; at each of them the driver's
// decision list says who runs next.
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <pthread.h>
#include <semaphore.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#define EXPORT extern "C" __attribute__((visibility("default")))
typedef uintptr_t uptr;

namespace {
const int MAXT = 256;
enum State { RUN, BLOCKED, DONE };

struct Thread {
    sem_t go;
    State state;
    const void *wait;      // lock or barrier waited for
    bool created;
    pthread_t th;
    long loop_seq, single_seq;
};

struct Acc { uptr pc; uint8_t bytes; uint8_t write; bool atomic; short tid; };

// state of one worksharing construct
struct Work { long next, end, incr, chunk, left; bool is_single; bool up; };

bool on = false;            // controlled run under way
bool logging = true;
int max_threads = 1;
pid_t owner = 0;
Thread thr[MAXT];
int team = 1;               // members of the team in the region being run
bool in_region = false;
int cur = 0;                // who has the processor
sem_t region_done;
void (*region_fn)(void *);
void *region_data;
std::unordered_map<uptr, std::vector<Acc>> *accesses;
std::unordered_set<uptr> *hot, *hot_regions;
uptr region_key;
std::unordered_map<long, Work> *works;
std::unordered_map<const void *, int> *lock_owner;
std::vector<void *> *copypriv;
int barrier_count;

const int *preset; int n_preset;
struct Choice { int n, cur_enabled, chosen; };
std::vector<Choice> *choices;
long n_steps, n_points, n_regions, n_access, n_conf, n_plain, new_hot, step_limit = 2000000;
int failed;                 // 1 deadlock, 2 step limit, 3 bad preset

__thread int tid = 0;
__thread int depth = 0;     // nesting of parallel regions
__thread bool busy = false; // inside this runtime
__thread int held = 0;      // locks held by this thread

struct Guard { bool was; Guard() : was(busy) { busy = true; } ~Guard() { busy = was; } };

void init() {
    Guard guard;
    if (owner == getpid()) return;
    owner = getpid();
    for (int i = 0; i < MAXT; i++) { thr[i].created = false; sem_init(&thr[i].go, 0, 0); }
    sem_init(&region_done, 0, 0);
    if (!accesses) {
        accesses = new std::unordered_map<uptr, std::vector<Acc>>();
        hot = new std::unordered_set<uptr>();
        hot_regions = new std::unordered_set<uptr>();
        works = new std::unordered_map<long, Work>();
        lock_owner = new std::unordered_map<const void *, int>();
        copypriv = new std::vector<void *>();
        choices = new std::vector<Choice>();
    }
}

void fatal(int code) {
    failed = code;
    // no way to unwind other threads: report and end the process
    static const char *msg[] = {"", "deadlock", "endless execution", "replay diverged"};
    fprintf(stderr, "VERIF-SCHED: %s\n", msg[code]);
    _exit(100 + code);
}

// Picks who runs next; `self` may go on (RUN) or not.
int pick(int self) {
    bool me = thr[self].state == RUN;
    int cand[MAXT], n = 0;
    if (me) cand[n++] = self;
    for (int i = 0; i < team; i++)
        if (i != self && thr[i].state == RUN) cand[n++] = i;
    if (n == 0) return -1;
    int k = 0;
    if (n > 1 && hot_regions->count(region_key)) {
        size_t pos = choices->size();
        if ((int) pos < n_preset) {
            k = preset[pos];
            if (k >= n) fatal(3);
        }
        choices->push_back({n, me, k});
    }
    return cand[k];
}

void switch_now(int self);
void switch_from(int self) {
    bool was = busy;
    busy = true;
    switch_now(self);
    busy = was;
}
void switch_now(int self) {
    if (++n_steps > step_limit) fatal(2);
    int nxt = pick(self);
    if (nxt < 0) {
        for (int i = 0; i < team; i++)
            if (thr[i].state == BLOCKED) fatal(1);
        sem_post(&region_done);        // everybody done
        return;
    }
    if (nxt == self) return;
    bool wait = thr[self].state != DONE;
    cur = nxt;
    sem_post(&thr[nxt].go);
    if (wait) while (sem_wait(&thr[self].go)) {}
}

inline bool controlled() { return in_region && depth == 1 && team > 1; }

void point() {
    n_points++;
    switch_from(tid);
}

void block_on(const void *what) {
    thr[tid].state = BLOCKED;
    thr[tid].wait = what;
    switch_from(tid);
}

void wake(const void *what) {
    for (int i = 0; i < team; i++)
        if (thr[i].state == BLOCKED && thr[i].wait == what) thr[i].state = RUN;
}

void record(uptr pc, uptr g, uint8_t bytes, bool write, bool atomic) {
    auto &v = (*accesses)[g];
    bool known = false;
    for (auto &a : v) {
        if (a.tid != tid && (a.bytes & bytes) && (a.write || write)) {
            n_conf++;
            if (!(a.atomic && atomic)) n_plain++;
            hot_regions->insert(region_key);
            if (hot->insert(a.pc).second) new_hot++;
            if (hot->insert(pc).second) new_hot++;
        }
        if (a.tid == tid && a.pc == pc && a.write == write) { a.bytes |= bytes; known = true; }
    }
    if (!known) v.push_back({pc, bytes, (uint8_t) write, atomic, (short) tid});
}

void access(uptr pc, uptr a, long size, bool write, bool atomic = false) {
    if (!controlled() || busy) return;
    busy = true;
    n_access++;
    bool h = hot->count(pc);
    busy = false;
    if (h) point();
    if (!logging) return;
    busy = true;
    while (size > 0) {
        uptr g = a >> 3;
        int off = a & 7, n = 8 - off < size ? 8 - off : (int) size;
        record(pc, g, (uint8_t) (((1u << n) - 1) << off), write, atomic || held > 0);
        a += n; size -= n;
    }
    busy = false;
}

void *thread_main(void *p) {
    tid = (int) (intptr_t) p;
    for (;;) {
        while (sem_wait(&thr[tid].go)) {}
        depth = 1;
        region_fn(region_data);
        depth = 0;
        thr[tid].state = DONE;
        switch_from(tid);
    }
    return nullptr;
}

void lock(const void *l) {
    if (!controlled()) return;
    Guard guard;
    point();
    for (;;) {
        auto it = lock_owner->find(l);
        if (it == lock_owner->end()) break;
        if (it->second == tid) { fatal(1); }
        block_on(l);
    }
    (*lock_owner)[l] = tid;
    held++;
}

void unlock(const void *l) {
    if (!controlled()) return;
    Guard guard;
    lock_owner->erase(l);
    held--;
    wake(l);
    point();
}

void barrier() {
    if (!controlled()) return;
    Guard guard;
    static char key;
    point();
    if (++barrier_count == team) {
        barrier_count = 0;
        wake(&key);
        accesses->clear();           // ordered by the barrier
        return;
    }
    block_on(&key);
}

void run_team(void (*fn)(void *), void *data, unsigned want, void (*key)(void *) = nullptr) {
    init();
    int n = want ? (int) want : max_threads;
    if (n > MAXT) n = MAXT;
    if (n < 1) n = 1;
    if (in_region || n == 1) {          // nested or sequential
        int t = tid, d = depth;
        bool outer = in_region;
        if (!outer) { tid = 0; }
        depth = d + (outer ? 1 : 0);
        int saved = team;
        if (!outer) team = 1;
        fn(data);
        team = saved; tid = t; depth = d;
        return;
    }
    for (int i = 1; i < n; i++)
        if (!thr[i].created) {
            thr[i].created = true;
            pthread_attr_t at;
            pthread_attr_init(&at);
            pthread_attr_setstacksize(&at, 1 << 20);
            if (pthread_create(&thr[i].th, &at, thread_main, (void *) (intptr_t) i)) {
                perror("pthread_create"); _exit(99);
            }
        }
    n_regions++;
    team = n;
    { Guard guard; accesses->clear(); works->clear(); lock_owner->clear(); }
    barrier_count = 0;
    region_fn = fn; region_data = data; region_key = (uptr) (key ? key : fn);
    for (int i = 0; i < n; i++) {
        thr[i].state = RUN; thr[i].loop_seq = thr[i].single_seq = 0;
    }
    in_region = true;
    tid = 0; depth = 1;
    point();                            // who starts
    fn(data);
    depth = 0;
    thr[0].state = DONE;
    switch_from(0);                     // others go on; last one posts
    while (sem_wait(&region_done)) {}
    in_region = false;
    team = 1;
    Guard guard;
    accesses->clear();
}

Work &work(long seq, bool &fresh) {
    auto it = works->find(seq);
    fresh = it == works->end();
    return (*works)[seq];
}

bool loop_next(long *s, long *e) {
    Guard guard;
    point();
    Work &w = (*works)[thr[tid].loop_seq];
    if (w.incr > 0 ? w.next >= w.end : w.next <= w.end) return false;
    *s = w.next;
    long step = w.chunk * w.incr, n = w.next + step;
    if (w.incr > 0 ? n > w.end : n < w.end) n = w.end;
    *e = n; w.next = n;
    return true;
}

bool loop_start(long start, long end, long incr, long chunk, long *s, long *e) {
    if (!controlled()) {               // sequential: one chunk
        if (incr > 0 ? start >= end : start <= end) return false;
        *s = start; *e = end;
        // later next() must return false
        return true;
    }
    Guard guard;
    long seq = ++thr[tid].loop_seq;
    bool fresh;
    Work &w = work(seq, fresh);
    if (fresh) { w.next = start; w.end = end; w.incr = incr; w.chunk = chunk > 0 ? chunk : 1; }
    return loop_next(s, e);
}
bool any_next(long *s, long *e) { return controlled() ? loop_next(s, e) : false; }

// static schedule: the k-th chunk of each member
bool static_start(long start, long end, long incr, long chunk, long *s, long *e) {
    return loop_start(start, end, incr, chunk > 0 ? chunk : 1, s, e);
}
}  // namespace

// ---------------------------------------------------------------- control
EXPORT void sched_reset(const int *p, int n, int keep_hot) {
    Guard guard;
    init();
    preset = p; n_preset = n;
    choices->clear();
    n_steps = n_points = n_regions = n_access = n_conf = n_plain = new_hot = 0;
    failed = 0;
    if (!keep_hot) { hot->clear(); hot_regions->clear(); }
}
EXPORT void sched_log(int v) { logging = v; }
EXPORT long sched_stat(int i) {
    switch (i) {
        case 0: return n_steps; case 1: return n_points; case 2: return n_regions;
        case 3: return n_access; case 4: return n_conf; case 5: return new_hot;
        case 6: return (long) hot->size(); case 7: return (long) choices->size(); case 8: return n_plain;
    }
    return -1;
}
EXPORT int sched_choices(int *out, int cap) {
    int n = (int) choices->size();
    if (n > cap) n = cap;
    for (int i = 0; i < n; i++) {
        out[3 * i] = (*choices)[i].n; out[3 * i + 1] = (*choices)[i].cur_enabled;
        out[3 * i + 2] = (*choices)[i].chosen;
    }
    return n;
}

// ---------------------------------------------------------------- OpenMP
#define API extern "C"
API void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { run_team(fn, data, n); }
API int omp_get_num_threads() { return depth == 1 && in_region ? team : 1; }
API int omp_get_thread_num() { return depth == 1 && in_region ? tid : 0; }
API int omp_get_max_threads() { return max_threads; }
API void omp_set_num_threads(int n) { if (n > 0) max_threads = n; }
API int omp_get_num_procs() { return 8; }
API int omp_in_parallel() { return in_region && team > 1; }
API void omp_set_dynamic(int) {}
API int omp_get_dynamic() { return 0; }
API void omp_set_nested(int) {}
API int omp_get_nested() { return 0; }
API int omp_get_thread_limit() { return MAXT; }
API int omp_get_level() { return depth; }
API int omp_get_active_level() { return in_region && team > 1; }
API void omp_set_max_active_levels(int) {}
API int omp_get_max_active_levels() { return 1; }
API void omp_set_schedule(int, int) {}
API void omp_get_schedule(int *k, int *m) { *k = 1; *m = 0; }
API double omp_get_wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
API double omp_get_wtick() { return 1e-9; }
API void GOMP_barrier() { barrier(); }
API bool GOMP_barrier_cancel() { barrier(); return false; }
static char crit, atom;
API void GOMP_critical_start() { lock(&crit); }
API void GOMP_critical_end() { unlock(&crit); }
API void GOMP_critical_name_start(void **p) { lock(p); }
API void GOMP_critical_name_end(void **p) { unlock(p); }
API void GOMP_atomic_start() { lock(&atom); }
API void GOMP_atomic_end() { unlock(&atom); }
API void omp_init_lock(void **) {}
API void omp_destroy_lock(void **) {}
API void omp_set_lock(void **p) { lock(p); }
API void omp_unset_lock(void **p) { unlock(p); }
API bool GOMP_single_start() {
    if (!controlled()) return true;
    Guard guard;
    point();
    long seq = (1L << 40) + ++thr[tid].single_seq;
    bool fresh; work(seq, fresh);
    return fresh;
}
API void *GOMP_single_copy_start() {
    if (GOMP_single_start()) return nullptr;
    barrier();
    void *r = copypriv->empty() ? nullptr : copypriv->back();
    barrier();
    return r;
}
API void GOMP_single_copy_end(void *d) { copypriv->push_back(d); barrier(); barrier(); }
#define LOOP(name) \
API bool GOMP_loop_##name##_start(long a, long b, long i, long c, long *s, long *e) { return loop_start(a, b, i, c, s, e); } \
API bool GOMP_loop_##name##_next(long *s, long *e) { return any_next(s, e); } \
API void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, long c, unsigned) { \
    pl_a = a; pl_b = b; pl_i = i; pl_c = c; pl_fn = fn; pl_d = d; run_team(pl_run, nullptr, n, fn); }
#define LOOPRT(name) \
API bool GOMP_loop_##name##_start(long a, long b, long i, long *s, long *e) { return loop_start(a, b, i, 1, s, e); } \
API bool GOMP_loop_##name##_next(long *s, long *e) { return any_next(s, e); } \
API void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, unsigned) { \
    pl_a = a; pl_b = b; pl_i = i; pl_c = 1; pl_fn = fn; pl_d = d; run_team(pl_run, nullptr, n, fn); }
// combined parallel loop: the body only calls next(), so the loop is opened here
static long pl_a, pl_b, pl_i, pl_c; static void (*pl_fn)(void *); static void *pl_d;
static bool pl_seq_open; static long pl_seq_done;
static void pl_run(void *) {
    if (controlled()) {
        long seq = ++thr[tid].loop_seq;
        {
            Guard guard;
            bool fresh; Work &w = work(seq, fresh);
            if (fresh) { w.next = pl_a; w.end = pl_b; w.incr = pl_i; w.chunk = pl_c > 0 ? pl_c : 1; }
        }
        pl_fn(pl_d);
    } else {
        pl_seq_open = true;
        pl_fn(pl_d);
        pl_seq_open = false;
    }
}
#undef any_next
static bool next_or_open(long *s, long *e) {
    if (controlled()) return loop_next(s, e);
    if (pl_seq_open) {
        pl_seq_open = false;
        if (pl_i > 0 ? pl_a >= pl_b : pl_a <= pl_b) return false;
        *s = pl_a; *e = pl_b; return true;
    }
    return false;
}
#define any_next next_or_open
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
LOOPRT(runtime) LOOPRT(maybe_nonmonotonic_runtime) LOOPRT(nonmonotonic_runtime)
API void GOMP_loop_end() { barrier(); }
API void GOMP_loop_end_nowait() {}
API bool GOMP_loop_end_cancel() { barrier(); return false; }
API unsigned GOMP_sections_start(unsigned n) {
    long s, e;
    return loop_start(1, (long) n + 1, 1, 1, &s, &e) ? (unsigned) s : 0;
}
static unsigned seq_section;
API unsigned GOMP_sections_next() {
    long s, e;
    return controlled() ? (loop_next(&s, &e) ? (unsigned) s : 0) : 0;
}
API void GOMP_sections_end() { barrier(); }
API void GOMP_sections_end_nowait() {}
API void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned count, unsigned) {
    pl_a = 1; pl_b = (long) count + 1; pl_i = 1; pl_c = 1; pl_fn = fn; pl_d = d;
    run_team(pl_run, nullptr, n, fn);
}
API bool GOMP_cancel(int, bool) { return false; }
API bool GOMP_cancellation_point(int) { return false; }
API void GOMP_task(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long size, long align, bool, unsigned) {
    if (cpyfn) {
        std::vector<char> buf(size + align);
        char *a = (char *) (((uptr) buf.data() + align - 1) & ~(uptr) (align - 1));
        cpyfn(a, data); fn(a);
    } else fn(data);
}
API void GOMP_taskwait() {}
API void GOMP_taskyield() {}
API void GOMP_taskgroup_start() {}
API void GOMP_taskgroup_end() {}

// ---------------------------------------------------------------- instrumentation
#define PC ((uptr) __builtin_return_address(0))
#define RW(n) \
API void __tsan_read##n(void *a) { access(PC, (uptr) a, n, false); } \
API void __tsan_write##n(void *a) { access(PC, (uptr) a, n, true); } \
API void __tsan_read_write##n(void *a) { access(PC, (uptr) a, n, false); access(PC, (uptr) a, n, true); } \
API void __tsan_unaligned_read##n(void *a) { access(PC, (uptr) a, n, false); } \
API void __tsan_unaligned_write##n(void *a) { access(PC, (uptr) a, n, true); } \
API void __tsan_volatile_read##n(void *a) { access(PC, (uptr) a, n, false); } \
API void __tsan_volatile_write##n(void *a) { access(PC, (uptr) a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
API void __tsan_read_range(void *a, uptr n) { access(PC, (uptr) a, n, false); }
API void __tsan_write_range(void *a, uptr n) { access(PC, (uptr) a, n, true); }
API void __tsan_func_entry(void *) {}
API void __tsan_func_exit(void *) {}
API void __tsan_init() {}
API void __tsan_vptr_update(void **, void *) {}
API void __tsan_vptr_read(void **) {}

// an atomic load may be the visible half of a compare-and-swap loop: it counts as a write
#define ATOMIC(bits, T) \
API T __tsan_atomic##bits##_load(const volatile T *a, int) { access(PC, (uptr) a, sizeof(T), true, true); return *a; } \
API void __tsan_atomic##bits##_store(volatile T *a, T v, int) { access(PC, (uptr) a, sizeof(T), true, true); *a = v; } \
API T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { access(PC, (uptr) a, sizeof(T), true, true); return __atomic_exchange_n(a, v, 5); } \
API T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { access(PC, (uptr) a, sizeof(T), true, true); return __atomic_fetch_add(a, v, 5); } \
API T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { access(PC, (uptr) a, sizeof(T), true, true); return __atomic_fetch_sub(a, v, 5); } \
API T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { access(PC, (uptr) a, sizeof(T), true, true); return __atomic_fetch_and(a, v, 5); } \
API T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { access(PC, (uptr) a, sizeof(T), true, true); return __atomic_fetch_or(a, v, 5); } \
API T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { access(PC, (uptr) a, sizeof(T), true, true); return __atomic_fetch_xor(a, v, 5); } \
API int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { access(PC, (uptr) a, sizeof(T), true, true); return __atomic_compare_exchange_n(a, c, v, false, 5, 5); } \
API int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { access(PC, (uptr) a, sizeof(T), true, true); return __atomic_compare_exchange_n(a, c, v, false, 5, 5); } \
API T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { access(PC, (uptr) a, sizeof(T), true, true); __atomic_compare_exchange_n(a, &c, v, false, 5, 5); return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
API void __tsan_atomic_thread_fence(int) {}
API void __tsan_atomic_signal_fence(int) {}

// block operations of the code under test inside a region
API void *memcpy(void *d, const void *s, size_t n) {
    access(PC, (uptr) s, n, false); access(PC, (uptr) d, n, true);
    return memmove(d, s, n);
}
API void *memset(void *d, int c, size_t n) {
    access(PC, (uptr) d, n, true);
    volatile unsigned char *p = (volatile unsigned char *) d;
    unsigned char *q = (unsigned char *) d;
    unsigned long w = 0x0101010101010101ul * (unsigned char) c;
    while (n >= 8) { __builtin_memcpy(q, &w, 8); q += 8; n -= 8; asm volatile("" ::: "memory"); }
    p = q;
    while (n--) *p++ = (unsigned char) c;
    return d;
}
