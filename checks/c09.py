"""C09: every sequence of callback calls, a failure injected at every call
position, live allocations of the compiled code counted around each call, and
callbacks that use the library themselves."""
import ctypes
import functools
import gc
import threading
import tracemalloc
from tracklib import *


class Own(Exception):
    pass


class OwnBase(BaseException):
    pass


class Callable_:
    def __init__(self, g):
        self.g = g

    def __call__(self, i, n):
        self.g(i, n)

    def m(self, i, n):
        self.g(i, n)


def body(c, lib):
    lib.set_num_threads(2)
    from longitudinal_tomography.tracking.tracking import Tracking
    from longitudinal_tomography.tomography.tomography import Tomography
    from longitudinal_tomography.tomography.tomography_multibunch import Tomography as Multi
    from longitudinal_tomography import shortcuts as sc
    th = c.thorough
    dll = ctypes.CDLL(lib.__file__)
    live, total = dll.verif_live, dll.verif_total
    live.restype = total.restype = ctypes.c_long
    ERR = [ValueError('boom'), Own('x', 3), KeyboardInterrupt(), OwnBase(7), StopIteration(2), MemoryError(), SystemExit(3),
           RuntimeError('Phase space reduced to zeroes!'), IndexError()]

    # ---- the computations that take a callback
    def waterfall(nprof, nbins, s=1):
        return np.abs(pattern((nprof, nbins), s, 0.05, 1.0)) + 0.1

    def job(kind, a, b, d):
        """returns (function(callback, has) -> result arrays, expected calls, inputs)"""
        if kind.startswith('track'):
            nprof, dturns, rec = a, b, d
            m = synth(nprof, dturns, {'track': 'single', 'trackd': 'double', 'trackt': 'turn', 'tracka': 'single'}[kind])
            if kind == 'tracka':
                m = machine(nprofiles=nprof, dturns=dturns)
            x, y = cloud(5)
            t = Tracking(m)
            n = dturns * (nprof - 1)
            if kind == 'tracka':
                f = lambda *cb: t.track(rec, **(dict(callback=cb[0]) if cb else {}))
            else:
                f = lambda *cb: t.track(rec, (x, y), *cb)
            return f, [(i + 1, n) for i in range(n)], [x, y]
        niter, seed, verbose = a, b, d
        nprof, nbins, npart = 3, 5, 9
        xp = lcg(npart * nprof, nbins - 1, seed + 3).reshape(npart, nprof).astype(np.int32)
        w = waterfall(nprof, nbins, seed + 2)
        want = [(i + 1, niter) for i in range(niter)] + [(niter, niter)]
        if kind == 'tomo':
            t = Tomography(w, xp)
            return (lambda *cb: (t.run(niter, bool(verbose), *cb), t.diff, t.recreated)), want, [xp, w]
        if kind == 'raw':
            f = (w / w.sum(axis=1, keepdims=True)).ravel()
            return (lambda *cb: lib.reconstruct(xp, f, niter, nbins, npart, nprof, bool(verbose), *cb)), want, [xp, f]
        if kind == 'short':
            return (lambda *cb: (lambda t: (t.weight, t.diff, t.recreated))(
                sc.tomogram(w, xp, xp, niter, **(dict(callback=cb[0]) if cb else {})))), want, [xp, w]
        cl, cr, ce = (np.array(v, dtype=np.int32) for v in ([0, 0], [4, 4], [0, 1]))
        if kind == 'rawmulti':
            f = (w / w.sum(axis=1, keepdims=True)).ravel()
            return (lambda *cb: lib.reconstruct_multi(xp, f, cl, cr, ce, niter, nbins, npart, nprof, 2, bool(verbose), *cb)), \
                want, [xp, f, cl, cr, ce]
        if kind == 'multi':
            t = Multi(w, xp)
            return (lambda *cb: (t.run([0, 1], [0, 0], [4, 4], niter, bool(verbose), *cb), t.weight_combined, t.diff,
                                 t.diff_split, t.recreated)[1:]), want, [xp, w]
        raise AssertionError(kind)

    gc.collect()
    gc.freeze()
    TRACKS = ('track', 'trackd', 'trackt', 'tracka')
    RECS = ('tomo', 'raw', 'short', 'rawmulti', 'multi')

    def flat(r):
        return [np.array(v, float) for v in r if v is not None]

    def check_equal(a, b, ctx):
        expect(len(a) == len(b), ctx)
        for i, (u, v) in enumerate(zip(a, b)):
            same(f'result {i}', u, v, 1e-12, ctx=ctx)

    def settle(f):
        """Live blocks of the compiled code after f, garbage collected."""
        f()
        gc.collect()
        return live()

    # ---- sequences
    def run_seq(case):
        kind, a, b, d, single = case
        precision(single)
        try:
            f, want, inputs = job(kind, a, b, d)
            plain = flat(f())
            copies = [v.copy() for v in inputs]
            calls = []
            got = flat(f(lambda i, n: calls.append((i, n))))
            expect(calls == want, f'calls {calls}, expected {want} {case}')
            expect(all(type(i) is int and type(n) is int for i, n in calls), f'types {calls}')
            check_equal(got, plain, f'with callback {case}')
            # anything the callback returns is ignored
            check_equal(flat(f(lambda i, n: i % 2 == 0)), plain, f'returning callback {case}')
            check_equal(flat(f(None)), plain, f'None {case}')
            for mk in (lambda g: Callable_(g).m, lambda g: functools.partial(g), lambda g: Callable_(g)):
                calls = []
                check_equal(flat(f(mk(lambda i, n: calls.append((i, n))))), plain, f'other kind of callback {case}')
                expect(calls == want, f'calls {calls} {case}')
            for v, w in zip(inputs, copies):
                expect(np.array_equal(v, w), f'input changed {case}')
        finally:
            precision(False)
        return dict(states=4, transitions=2 * len(want), traces=4)

    nmax = 12 if th else 8
    seqs = [[k, n, d, r, s] for k in TRACKS for n in range(1, nmax) for d in (1, 2, 3, 4, 5, 7) for r in range(n) for s in (0, 1)
            if not (k == 'tracka' and s)] + \
           [[k, it, sd, v, s] for k in RECS for it in list(range(1, 26)) + [50, 127, 128, 129, 256] for sd in (0, 1) for v in (0, 1) for s in (0, 1)]
    c.part('call_sequences', seqs, run_seq)
    c.part('long_sequences', [[k, n, d, r, s] for k in TRACKS for n, d in
                              [(2, v) for v in (255, 256, 257, 999, 1000, 1001, 1999, 2000, 2001, 4097, 5003, 10007)] +
                              [(3, 1000), (3, 1001), (4, 1250), (1001, 1), (301, 7)] + ([(2, 33000), (2, 70001)] if th or k == 'track' else [])
                              for r in sorted({0, n - 1} | ({1} if n < 5 else {n // 2})) for s in (0, 1)
                              if not (k == 'tracka' and (s or d > 2001 or n > 4))] +
           [[k, it, 0, 0, s] for k in RECS for it in (1000, 1001, 2000, 3001) + ((10001, 40000, 70001) if th or k == 'tomo' else ())
            for s in (0, 1)], run_seq, chunk=1, case_timeout=400)

    # ---- a failure at every call
    def run_fault(case):
        kind, a, b, d, single = case
        precision(single)
        try:
            f, want, inputs = job(kind, a, b, d)
            plain = flat(f())
            copies = [v.copy() for v in inputs]
            n = 0
            f(lambda i, k: None)
            for pos in range(len(want)):
                for e in range(len(ERR)):
                    seen = []

                    def cb(i, k, e=e, pos=pos):
                        seen.append((i, k))
                        if len(seen) == pos + 1:
                            raise ERR[e]

                    gc.collect()
                    before = live()
                    refs = [sys.getrefcount(v) for v in inputs] + [sys.getrefcount(cb)]
                    err = None
                    try:
                        f(cb)
                    except BaseException as ex:
                        err = ex
                    expect(err is ERR[e], f'raised {ERR[e]!r} at call {pos}, the caller got {err!r} {case}')
                    expect(seen == want[:pos + 1], f'calls {seen} when failing at {pos} {case}')
                    ERR[e].__traceback__ = None
                    ERR[e].__context__ = None
                    err = None
                    gc.collect()
                    expect([sys.getrefcount(v) for v in inputs] + [sys.getrefcount(cb)] == refs,
                           f'references kept after a failure at call {pos} {case}')
                    now = live()
                    expect(now == before, f'{now - before} blocks lost by a failure at call {pos} {case}')
                    n += 1
                check_equal(flat(f()), plain, f'after a failure at call {pos} {case}')
                calls = []
                check_equal(flat(f(lambda i, k: calls.append((i, k)))), plain, f'after a failure at call {pos} {case}')
                expect(calls == want, f'calls after a failure {calls} {case}')
                for v, w in zip(inputs, copies):
                    expect(np.array_equal(v, w), f'input changed by a failing call {case}')
        finally:
            precision(False)
        return dict(states=n, transitions=n * len(want), traces=n)

    faults = [[k, n, d, r, s] for k in TRACKS for n in range(2, 8 if th else 6) for d in (1, 2, 3, 5) for r in range(n) for s in (0, 1)
              if not (k == 'tracka' and s)] + \
             [[k, it, 0, v, s] for k in RECS for it in (1, 2, 3, 4, 5, 6, 11, 17) for v in (0, 1) for s in (0, 1)]
    c.part('fault_points', faults, run_fault, chunk=1)

    # ---- memory of ordinary and failing calls, and things that cannot be called
    def run_mem(case):
        kind, a, b, d, what = case
        f, want, inputs = job(kind, a, b, d)
        plain = flat(f())

        def once():
            if what == 'ok':
                r = f(lambda i, n: None)
                del r
            elif what == 'none':
                f()
            else:
                bad = {'notcallable': 5, 'signature': lambda i: None, 'noargs': lambda: None}[what]
                if not want:
                    f(bad)
                    return
                try:
                    f(bad)
                except TypeError:
                    return
                raise Violation(f'{what} accepted {case}')

        a0 = settle(once)
        a0 = settle(once)
        for _ in range(5):
            a1 = settle(once)
            expect(a1 == a0, f'{a1 - a0} blocks lost per call {case}')
        check_equal(flat(f()), plain, f'later {case}')
        return dict(states=7, transitions=7, traces=7)

    c.part('ordinary_calls', [[k, 3, 2, r, w] for k in TRACKS for r in (0, 1, 2) for w in ('ok', 'none', 'notcallable',
                                                                                          'signature', 'noargs')] +
           [[k, 4, 0, v, w] for k in RECS for v in (0, 1) for w in ('ok', 'none', 'notcallable', 'signature', 'noargs')], run_mem)

    # ---- reconstructions that fail by themselves
    def run_zero(case):
        niter, single, multi, idx = case
        precision(single)
        n = 0
        try:
            nprof, nbins, npart = 2, 3, 2
            for j in range(idx, idx + 81):
                if j >= nbins ** (npart * nprof):
                    break
                xp = xp_of(j, npart, nprof, nbins)
                for w in (np.array([[1.0, 0, 0], [0, 0, 1.0]]), np.array([[0.2, 0.8, 0], [0.9, 0.0, 0.1]]), np.zeros((2, 3))):
                    calls = []

                    def go():
                        cb = lambda i, k: calls.append((i, k))
                        if multi:
                            one = lambda v: np.array([v], dtype=np.int32)
                            lib.reconstruct_multi(xp, w.ravel(), one(0), one(2), one(0), niter, nbins, npart, nprof, 1, False, cb)
                        else:
                            lib.reconstruct(xp, w.ravel(), niter, nbins, npart, nprof, False, cb)

                    try:
                        go()
                    except RuntimeError:
                        pass
                    calls = []
                    gc.collect()
                    before = live()
                    try:
                        go()
                        expect(calls == [(i + 1, niter) for i in range(niter)] + [(niter, niter)], f'{calls} {case} {j}')
                    except RuntimeError:
                        expect(calls == [(i + 1, niter) for i in range(len(calls))] and len(calls) <= niter,
                               f'calls {calls} of a failing reconstruction {case} {j}')
                    gc.collect()
                    expect(live() == before, f'{live() - before} blocks lost {case} {j} calls={calls}')
                    n += 1
        finally:
            precision(False)
        return dict(states=n, transitions=n, traces=n)

    c.part('vanishing_phase_space', [[it, 0, mu, i] for it in (1, 2, 5) for mu in (0, 1) for i in range(0, 81, 81)], run_zero)

    # ---- callbacks that use the library
    def run_nest(case):
        outer, inner, pos, fail = case
        f, want, _ = job(*outer)
        g, gwant, _ = job(*inner)
        pf, pg = flat(f()), flat(g())
        seen, inn = [], []

        def cb(i, n):
            seen.append((i, n))
            if len(seen) == pos + 1:
                if fail == 1:
                    e = Own(1)

                    def bad(i, n):
                        raise e
                    try:
                        g(bad)
                    except Own as x:
                        expect(x is e, 'other exception')
                    else:
                        expect(not gwant, 'inner failure lost')
                lib.set_num_threads(1 + pos % 3)
                calls = []
                if fail == 2:       # from another Python thread
                    out = []
                    th_ = threading.Thread(target=lambda: out.append(flat(g(lambda i, n: calls.append((i, n))))), daemon=True)
                    th_.start()
                    th_.join(60)
                    expect(len(out) == 1, f'no answer from a call in another thread {case}')
                    check_equal(out[0], pg, f'inner thread {case}')
                else:
                    check_equal(flat(g(lambda i, n: calls.append((i, n)))), pg, f'inner {case}')
                expect(calls == gwant, f'inner calls {calls} {case}')
                check_equal(flat(f_other()), pf, f'inner second object {case}')
                inn.append(1)

        f_other = job(*outer)[0]
        before = settle(lambda: None)
        check_equal(flat(f(cb)), pf, f'outer {case}')
        expect(seen == want and inn == [1], f'outer calls {seen} {case}')
        check_equal(flat(f()), pf, f'outer again {case}')
        check_equal(flat(g()), pg, f'inner again {case}')
        lib.set_num_threads(2)
        return dict(states=1, transitions=len(want), traces=1)

    jobs = [('track', 3, 2, 1), ('tracka', 3, 2, 0), ('trackt', 2, 2, 1), ('tomo', 3, 0, 0), ('multi', 2, 1, 0), ('raw', 2, 1, 1)]
    nest = [[o, i, p, x] for o in jobs for i in jobs for p in range(len(job(*o)[1])) for x in (0, 1, 2)]
    c.part('nested', [[list(o), list(i), p, x] for o, i, p, x in nest], run_nest)

    # ---- sizes
    def run_size(case):
        kind, npart = case
        if kind == 'track':
            m = synth(3, 2, 'double')
            x, y = pattern((npart,), 1), pattern((npart,), 2)
            f = lambda *cb: Tracking(m).track(1, (x, y), *cb)
            want = [(i + 1, 4) for i in range(4)]
        else:
            xp = lcg(npart * 3, 20, 5).reshape(npart, 3).astype(np.int32)
            w = M.counts(xp, 3, 20) * (1 + 0.01 * waterfall(3, 20))
            t = Tomography(w, xp) if kind == 'tomo' else Multi(w, xp)
            f = lambda *cb: (t.run(3, False, *cb) if kind == 'tomo' else t.run([0], [0], [19], 3, False, *cb), t.diff,
                             t.recreated)[1:]
            want = [(1, 3), (2, 3), (3, 3), (3, 3)]
        plain = flat(f())
        for pos in range(5):
            calls = []

            def cb(i, n):
                calls.append((i, n))
                if len(calls) == pos + 1:
                    raise Own

            before = settle(lambda: None)
            try:
                got = flat(f(cb))
                expect(pos == 4, f'failure lost {case}')
                check_equal(got, plain, f'{case}')
                got = None
            except Own:
                expect(pos < 4, 'raised')
            expect(calls == want[:pos + 1], f'{calls} {case}')
            if pos < 4:
                expect(settle(lambda: None) == before, f'blocks lost {case} {pos}')
        check_equal(flat(f()), plain, f'later {case}')
        return dict(states=6, transitions=24, traces=6)

    c.part('sizes', [[k, n] for k in ('track', 'tomo', 'multi') for n in ladder(70 if not th else 600, 14 if not th else 17)],
           run_size)

    # ---- repeated failures do not accumulate memory on the Python side either
    def run_growth(case):
        kind, single, pos = case
        precision(single)
        try:
            npart = 4000
            if kind == 'track':
                m = synth(3, 2, 'double')
                x, y = pattern((npart,), 1), pattern((npart,), 2)
                t = Tracking(m)
                f = lambda cb: t.track(1, (x, y), cb)
            else:
                xp = lcg(npart * 3, 20, 5).reshape(npart, 3).astype(np.int32)
                w = waterfall(3, 20)
                t = Tomography(w, xp) if kind == 'tomo' else Multi(w, xp)
                f = lambda cb: t.run(4, False, cb) if kind == 'tomo' else t.run([0], [0], [19], 4, False, cb)

            def cb(i, n):
                cb.k += 1
                if cb.k == pos:
                    raise Own

            def many(k):
                for _ in range(k):
                    cb.k = 0
                    try:
                        f(cb)
                    except Own:
                        pass
                gc.collect()

            tracemalloc.start()
            many(3)
            a = tracemalloc.get_traced_memory()[0]
            many(25)
            b = tracemalloc.get_traced_memory()[0]
            tracemalloc.stop()
            expect(b - a < 4 * npart * 4, f'{b - a} bytes after 25 calls {case}')
        finally:
            precision(False)
        return dict(states=28, transitions=28, traces=28)

    c.part('growth', [[k, s, p] for k in ('track', 'tomo', 'multi') for s in (0, 1) for p in (1, 2, 4, 99)], run_growth)


main(body, 'C09', variant='count', extra_sources=[(os.path.join(ROOT, 'lib', 'count_rt.cpp'), ['-O2'])],
     assumptions=['Memory of the compiled code is counted at its operator new and delete; numpy memory by tracemalloc.',
                  'Failure of an allocation itself (bad_alloc) is not injected.'])
