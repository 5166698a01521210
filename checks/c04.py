"""C04: results do not depend on the number of threads or their schedule."""
import ctypes
import importlib.util
import importlib.machinery
import os
from common import *
import common

RT = os.path.join(ROOT, 'lib', 'sched_rt.cpp')
RT_FLAGS = ['-O2', '-fno-builtin', '-fno-tree-loop-distribute-patterns']

S = None       # the controlled runtime inside the extension
FREE = None    # ordinary build of the same extension, on the real OpenMP runtime
CAP = 200000


class Sched:
    def __init__(self, so):
        self.l = ctypes.CDLL(so)
        self.l.sched_stat.restype = ctypes.c_long
        self.buf = (ctypes.c_int * (3 * CAP))()

    def start(self, prefix, keep):
        self.pre = (ctypes.c_int * max(1, len(prefix)))(*prefix)
        self.l.sched_reset(self.pre, len(prefix), int(keep))

    def stat(self, i):
        return self.l.sched_stat(i)

    def choices(self):
        n = self.l.sched_choices(self.buf, CAP)
        return [(self.buf[3 * i], self.buf[3 * i + 1], self.buf[3 * i + 2]) for i in range(n)]


# --------------------------------------------------------------------------
# operations: name -> list of shapes; each returns a function(lib) -> outcome
# --------------------------------------------------------------------------
class Err:
    def __init__(self, e):
        self.what = type(e).__name__ + ': ' + str(e)

    def __repr__(self):
        return self.what


def op_kick(lib, up, dt, n, shape):
    if dt == 'm':
        from types import SimpleNamespace as N
        m = N(phi0=np.array([2.9, 3.0, 3.1]), phi12=0.3, h_ratio=2.0,
              deltaE0=np.array([10., 20., 30.]))
        dphi, de = pattern(n, 3, -3, 3), pattern(n, 4, -1e5, 1e5)
        lib.kick(m, de, dphi, np.array([1e3, 2e3, 3e3]), np.array([5e2, 6e2, 7e2]), n, 1, up)
        return [de]
    t = np.float64
    dphi, de = pattern(n, 3, -3, 3).astype(t), pattern(n, 4, -1e5, 1e5).astype(t)
    f = lib.kick_up if up else lib.kick_down
    f(dphi, de, 2.3e3, 1.1e3, 2.9, 0.3, 2.0, n, 150.0)
    return [de, dphi]


def op_drift(lib, up, dt, n, shape):
    dphi, de = pattern(n, 5, -3, 3), pattern(n, 6, -1e5, 1e5)
    if dt == 'm':
        lib.drift(de, dphi, np.array([1e-7, 2e-7]), n, 1, up)
    else:
        (lib.drift_up if up else lib.drift_down)(dphi, de, 3e-7, n)
    return [dphi, de]


def op_track(lib, rec, dt, n, shape):
    nprof, dturns = shape
    t = np.float32 if dt == 'f' else np.float64
    nt = (nprof - 1) * dturns
    k = np.arange(nt + 1)
    xp, yp = np.zeros((nprof, n), t), np.zeros((nprof, n), t)
    dphi, de = pattern(n, 7, -1, 1).astype(t), pattern(n, 8, -1e5, 1e5).astype(t)
    lib.kick_and_drift(xp, yp, de, dphi, (3e3 + 10 * k).astype(t), (1e3 + 5 * k).astype(t),
                       (2.8 + 1e-3 * k).astype(t), (100. + k).astype(t),
                       (1e-7 * (1 + 1e-3 * k)).astype(t), (0.1 + 1e-3 * k).astype(t),
                       t(2.0), dturns, rec, 0, nt, n, False, None)
    return [xp, yp]


def op_rec(lib, niter, dt, n, shape):
    nprof, nbins = shape
    t = np.float32 if dt == 'f' else np.float64
    xp = lcg(n * nprof, nbins, 3).reshape(n, nprof).astype(np.int32)
    w = (pattern((nprof, nbins), 9, 0.05, 1.0)).astype(t)
    w /= w.sum(axis=1, keepdims=True)
    return list(lib.reconstruct(xp, w, niter, nbins, n, nprof, False, None))


def op_rec_zero(lib, niter, dt, n, shape):
    nprof, nbins = shape
    t = np.float32 if dt == 'f' else np.float64
    xp = np.zeros((n, nprof), np.int32)
    w = np.zeros((nprof, nbins), t)
    w[:, -1] = 1
    return list(lib.reconstruct(xp, w, niter, nbins, n, nprof, False, None))


def op_recm(lib, niter, dt, n, shape):
    nprof, nbins, nc = shape
    t = np.float32 if dt == 'f' else np.float64
    width = nbins // nc
    xp = lcg(n * nprof, width, 5).reshape(n, nprof).astype(np.int32)
    w = pattern((nprof, nbins), 9, 0.05, 1.0).astype(t)
    w /= w.sum(axis=1, keepdims=True)
    cen = np.array([c * width for c in range(nc)], np.int32)
    cl = cen.copy()
    cr = np.array([min(nbins, (c + 1) * width) for c in range(nc)], np.int32)
    return list(lib.reconstruct_multi(xp, w, cl, cr, cen, niter, nbins, n, nprof, nc, False, None))


def op_project(lib, _, dt, n, shape):
    nprof, nbins = shape
    xp = lcg(n * nprof, nbins, 3).reshape(n, nprof)
    fp = (xp + nbins * np.arange(nprof)).astype(np.int32)
    rec = np.zeros(nprof * nbins)
    return [lib.project(rec, fp, pattern(n, 2, 0, 1), n, nprof, nbins)]


def op_back(lib, _, dt, n, shape):
    nprof, nbins = shape
    xp = lcg(n * nprof, nbins, 3).reshape(n, nprof)
    fp = (xp + nbins * np.arange(nprof)).astype(np.int32)
    return [lib.back_project(pattern(n, 2, 0, 1), fp, pattern(nprof * nbins, 4), n, nprof)]


def op_count(lib, multi, dt, n, shape):
    nprof, nbins = shape
    t = np.float32 if dt == 'f' else np.float64
    p = np.zeros((nprof, nbins), t)
    if multi:
        xp = lcg(n * nprof, nbins // 2, 3).reshape(n, nprof).astype(np.int32)
        cen = np.array([0, nbins // 2], np.int32)
        return [lib.count_particles_in_bins_multi(p, xp, cen, nprof, n, nbins, 2)]
    xp = lcg(n * nprof, nbins, 3).reshape(n, nprof).astype(np.int32)
    return [lib.count_particles_in_bins(p, xp, nprof, n, nbins)]


def op_image(lib, _, dt, n, shape):
    nbins = shape[0]
    t = np.float32 if dt == 'f' else np.float64
    return [lib.make_phase_space(lcg(n, nbins, 3).astype(np.int32),
                                 lcg(n, nbins, 4).astype(np.int32),
                                 pattern(n, 5, 0, 1).astype(t), nbins)]


OPS = dict(kick=op_kick, drift=op_drift, track=op_track, rec=op_rec, rec_zero=op_rec_zero,
           recm=op_recm, project=op_project, back=op_back, count=op_count, image=op_image)


def run_op(lib, case):
    try:
        return [np.array(a, copy=True) for a in
                OPS[case['op']](lib, case['arg'], case['dt'], case['n'], case['shape'])]
    except RuntimeError as e:
        return Err(e)


def compare(case, got, want, what):
    ctx = f'{what}, ' + str({k: v for k, v in case.items() if k != 'base'})
    if isinstance(got, Err) or isinstance(want, Err):
        if repr(got) != repr(want):
            raise Violation(f'outcome differs {ctx}: {got!r} instead of {want!r}')
        return
    tol = 2e-4 if case['dt'] == 'f' else 1e-9
    for k, (g, w) in enumerate(zip(got, want)):
        same(f'result {k}', g, w, tol, ctx=ctx)


def brief(prefix):
    return {i: k for i, k in enumerate(prefix) if k}


def explore(lib, case, T, bound, cap):
    """All schedules of one call that deviate at most `bound` times from the
    default one (run a member until it blocks or ends, then the next)."""
    base = case['base']
    st = dict(schedules=0, transitions=0, conflicts=0, plain=0, level=-1)
    lib.set_num_threads(T)

    def execute(prefix, keep):
        S.start(prefix, keep)
        got = run_op(lib, case)
        st['schedules'] += 1
        st['transitions'] += S.stat(1)
        st['conflicts'] += S.stat(4)
        st['plain'] += S.stat(8)
        compare(case, got, base, f'team of {T}, schedule {brief(prefix)}')
        return S.choices()

    execute([], False)
    if S.stat(6) == 0:
        st['level'] = bound
        return st                     # no two members touch the same data
    for level in range(bound + 1):
        prefix = []
        while prefix is not None:
            if st['schedules'] >= (cap if not st['plain'] else max(cap, 60 if T < 9 else 6)):
                return st
            ch = execute(prefix, True)
            if S.stat(5):             # a new conflicting instruction: more points, again
                prefix = []
                continue
            nxt, dev = None, sum(1 for x in ch if x[2])
            for i in range(len(ch) - 1, -1, -1):
                n, _, k = ch[i]
                dev -= 1 if k else 0
                if k + 1 < n and dev + 1 <= level:
                    nxt = [x[2] for x in ch[:i]] + [k + 1]
                    break
            prefix = nxt
        st['level'] = level
    return st


def run_sched(lib, case):
    lib.set_num_threads(1)
    S.start([], False)
    case = dict(case)
    case['base'] = run_op(lib, case)
    tot = dict(states=0, transitions=0, traces=0, schedules=0, conflicting_calls=0)
    for T in case['T']:
        st = explore(lib, case, T, case['bound'], case['cap'])
        tot['states'] += st['schedules']
        tot['schedules'] += st['schedules']
        tot['traces'] += st['schedules']
        tot['transitions'] += st['transitions']
        if st['conflicts']:
            tot['conflicting_calls'] += 1
            tot['unsynchronised_calls'] = tot.get('unsynchronised_calls', 0) + (1 if st['plain'] else 0)
            k = f'calls_complete_to_{st["level"]}_deviations'
            tot[k] = tot.get(k, 0) + 1
    lib.set_num_threads(1)
    return tot


def body(c, lib):
    global S, FREE
    S = Sched(os.environ['VERIF_SO'])
    thorough = c.thorough
    bound = 6 if thorough else 3
    cap = 60000 if thorough else 1500

    def case(op, arg, dt, n, shape, T, **kw):
        d = dict(op=op, arg=arg, dt=dt, n=n, shape=shape, T=list(T), bound=bound, cap=cap)
        d.update(kw)
        return d

    # --- small inputs, every schedule ------------------------------------
    small = []
    teams = range(2, 5)
    for n in range(1, 7):
        for up in (True, False):
            for dt in ('d', 'm'):
                small.append(case('kick', up, dt, n, None, range(2, 9)))
                small.append(case('drift', up, dt, n, None, range(2, 9)))
        for dt in 'df':
            for shape in ((1, 1), (2, 1), (2, 3), (3, 2)):
                for rec in range(shape[0]):
                    small.append(case('track', rec, dt, n, shape, range(2, 9)))
            for shape in ((2, 4), (3, 2)):
                small.append(case('count', 0, dt, n, shape, teams))
                small.append(case('count', 1, dt, n, shape, teams))
                small.append(case('image', 0, dt, n, shape, teams))
        for shape in ((1, 2), (2, 3), (3, 4), (4, 2)):
            small.append(case('project', 0, 'd', n, shape, teams))
            small.append(case('back', 0, 'd', n, shape, range(2, 9)))
    for dt in 'df':
        for n in (1, 2, 3, 5):
            for nprof in (1, 2, 3, 4):
                for nbins in (2, 3):
                    for niter in (0, 1, 2):
                        small.append(case('rec', niter, dt, n, (nprof, nbins), teams))
                    small.append(case('rec_zero', 1, dt, n, (nprof, nbins), teams))
                for nc in (1, 2, 3):
                    for niter in (0, 1):
                        small.append(case('recm', niter, dt, n, (nprof, 2 * nc, nc), teams))
    c.part('schedules', small, lambda k: run_sched(lib, k), chunk=4, case_timeout=300)

    # --- larger inputs and teams: one schedule unless something conflicts -
    big = []
    sizes = [16, 17, 31, 33, 64, 65, 100, 127, 128, 129, 255, 257, 500, 512, 1000, 1024, 1025,
             2047, 2049, 4096, 4097, 5000] + ([8191, 8193, 10001, 16385, 20000] if thorough else [])
    T = [2, 3, 5, 7, 8, 13, 16, 32, 64, 65, 100, 128, 200]
    lim = dict(bound=1, cap=3 if not thorough else 100)
    for n in sizes:
        for up in (True, False):
            big.append(case('kick', up, 'd', n, None, T, **lim))
            big.append(case('drift', up, 'd', n, None, T, **lim))
        for dt in 'df':
            big.append(case('track', 1, dt, n, (3, 2), T, **lim))
            big.append(case('rec', 2, dt, n, (5, 9), T, **lim))
            big.append(case('recm', 2, dt, n, (4, 12, 3), T, **lim))
            big.append(case('image', 0, dt, n, (11,), T, **lim))
            big.append(case('count', 0, dt, n, (3, 7), T, **lim))
            big.append(case('count', 1, dt, n, (3, 8), T, **lim))
        big.append(case('project', 0, 'd', n, (5, 9), T, **lim))
        big.append(case('back', 0, 'd', n, (5, 9), T, **lim))
    for nprof, nbins in ((1, 100), (2, 64), (16, 16), (17, 33), (33, 17), (64, 50), (100, 40),
                         (150, 205)):
        for dt in 'df':
            big.append(case('rec', 2, dt, 40, (nprof, nbins), T, **lim))
            for nc in (1, 2, 5):
                big.append(case('recm', 2, dt, 40, (nprof, nbins, nc), T, **lim))
        big.append(case('project', 0, 'd', 60, (nprof, nbins), T, **lim))
        big.append(case('back', 0, 'd', 60, (nprof, nbins), T, **lim))
    # as many particles as real data give
    huge = []
    lim['cap'] = 1
    for n in (65537, 140000, 300000, 600000) + ((1200000, 3000000) if thorough else ()):
        P = 2 if n != 600000 else 5
        for op, arg, dt, shape in (('kick', 1, 'd', None), ('kick', 0, 'd', None), ('drift', 1, 'd', None), ('drift', 0, 'd', None),
                                   ('track', 0, 'd', (2, 1)), ('track', 1, 'd', (2, 1)), ('rec', 1, 'd', (P, 3)),
                                   ('recm', 1, 'd', (P, 4, 2)), ('project', 0, 'd', (P, 3)), ('back', 0, 'd', (P, 3)),
                                   ('count', 0, 'd', (P, 3)), ('count', 1, 'd', (P, 4)), ('image', 0, 'd', (7,))):
            huge.append(case(op, arg, dt, n, shape, [2, 5], **lim))
    c.part('many particles', huge, lambda k: run_sched(lib, k), chunk=1, case_timeout=600)
    c.part('teams', big, lambda k: run_sched(lib, k), chunk=1, case_timeout=600)

    # --- the real runtime: every thread count ------------------------------
    so = build('normal')
    spec = importlib.util.spec_from_file_location(
        'libtomo', so, loader=importlib.machinery.ExtensionFileLoader('libtomo', so))
    FREE = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(FREE)

    def run_free(k):
        FREE.set_num_threads(1)
        base = run_op(FREE, k)
        n = 0
        for t in k['T']:
            FREE.set_num_threads(t)
            compare(k, run_op(FREE, k), base, f'{t} threads')
            n += 1
        return dict(states=n, transitions=n, traces=n)

    free = []
    FT = list(range(2, 17)) + [24, 31, 32, 33, 64, 65, 100, 128]
    for n in (1, 2, 3, 5, 8, 100, 1000, 5000, 20000) + ((100000,) if thorough else ()):
        for up in (True, False):
            for dt in ('d', 'm'):
                free.append(case('kick', up, dt, n, None, FT))
                free.append(case('drift', up, dt, n, None, FT))
        for dt in 'df':
            for rec in (0, 2):
                free.append(case('track', rec, dt, n, (3, 2), FT))
            free.append(case('rec', 3, dt, n, (7, 20), FT))
            free.append(case('rec_zero', 1, dt, n, (7, 20), FT))
            free.append(case('recm', 3, dt, n, (6, 24, 3), FT))
            free.append(case('image', 0, dt, n, (50,), FT))
            free.append(case('count', 0, dt, n, (7, 20), FT))
            free.append(case('count', 1, dt, n, (7, 20), FT))
        free.append(case('project', 0, 'd', n, (7, 20), FT))
        free.append(case('back', 0, 'd', n, (7, 20), FT))
    c.part('thread counts', free, run_free, chunk=1, case_timeout=300)


if __name__ == '__main__':
    main(body, 'C04', variant='sched', extra_sources=[(RT, RT_FLAGS)], assumptions=[
        'members of a team interact only through memory accesses and OpenMP constructs seen by '
        'the compiler instrumentation (sequential consistency; no weak-memory reordering)',
        'two schedules of a parallel region in which no byte is touched by two members with a '
        'write among them are equivalent (one representative is run)',
        'schedules with a bounded number of deviations from the default one (the completed bound is '
        'counted per call in the coverage)',
        'results compared up to rounding (1e-9 double, 2e-4 single)'])
