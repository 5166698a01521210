"""C07: every sequence of operations on a tomography object, up to a depth,
against a two-field reference state machine (stored x, stored y)."""
from tracklib import *

NPROF, NBINS = 3, 4
WF = np.array([[0.0, 2.0, 3.0, 1.0], [0.0, 1.0, 4.0, 2.0], [0.0, 3.0, 1.0, 1.0]])
X = {
    'a': np.array([[1, 2, 3], [2, 2, 1]], dtype=np.int32),
    'b': np.array([[1.0, 2.5, 3.9], [2.2, 1.0, 1.999], [2.0, 3.0, 0.0], [3.5, 2.0, 2.0]]),
    'edge': np.array([[0, 3, 3], [3, 0, 1], [1, 1, 1], [2, 2, 2]], dtype=np.int64),
    'zero': np.zeros((2, 3), dtype=np.int32),       # only bins without signal: the run fails
}
BAD = {
    'neg': np.array([[1, -1, 2], [1, 1, 1]]),
    'high': np.array([[1, 2, 3], [1, 4, 1]]),
    'fneg': np.array([[1, -0.25, 2.0]]),
    'fhigh': np.array([[1, 2.0, 4.0]]),
    'nan': np.array([[1, np.nan, 2.0]]),
    'inf': np.array([[1, np.inf, 2.0]]),
    '1d': np.array([1, 2, 3]),
    '3d': np.ones((2, 3, 1)),
    'wide': np.ones((2, 4)),
    'narrow': np.ones((2, 2)),
    'scalar': 3,
    'float': 2.5,
}
OPS = (['x_' + k for k in X] + ['x_none'] + ['bad_' + k for k in BAD] +
       ['y_ok', 'y_shape', 'y_none', 'y_scalar', 'touch', 'run0', 'run2', 'hybrid', 'cbfail'])


class Boom(Exception):
    pass


def body(c, lib):
    lib.set_num_threads(1)
    from longitudinal_tomography.tomography.tomography import Tomography
    from longitudinal_tomography.tomography.tomography_multibunch import Tomography as Multi
    from longitudinal_tomography import exceptions as expt
    th = c.thorough

    def do_run(t, cls, niter, cb=None):
        if cls == 'multi':
            t.run([0], [0], [NBINS], niter=niter, callback=cb)
            return t.weight_combined
        return t.run(niter=niter, callback=cb)

    def do_hybrid(t, cls):
        if cls == 'multi':
            t.run_hybrid([0], [[-1, NBINS]], niter=1)
            return t.weight_combined
        return t.run_hybrid(niter=1)

    def make(cls, *a):
        return (Multi if cls == 'multi' else Tomography)(*a)

    fresh_cache = {}

    def fail_cb(*a):
        raise Boom()

    def fresh(cls, single, key, what):
        """Outcome of one operation on a fresh object (differential oracle)."""
        k = (cls, single, key, what)
        if k not in fresh_cache:
            t = make(cls, WF.copy(), X[key].copy())
            try:
                if what == 'cbfail':
                    do_run(t, cls, 2, fail_cb)
                    raise Violation(f'callback failure lost on a fresh object {cls} {key}')
                w = do_hybrid(t, cls) if what == 'hybrid' else do_run(t, cls, what)
                fresh_cache[k] = (w.copy(), t.diff.copy(), t.recreated.copy())
            except Boom:
                fresh_cache[k] = 'boom'
            except (RuntimeError, expt.WaterfallReducedToZero):
                fresh_cache[k] = None
        return fresh_cache[k]

    for cls in ('single', 'multi'):
        for key in ('a', 'b'):
            assert fresh(cls, False, key, 2) is not None, 'useless alphabet'
        for key in X:
            for what in (0, 2, 'hybrid', 'cbfail'):
                fresh(cls, False, key, what)

    norm = WF / WF.sum(axis=1, keepdims=True)

    def sequence(cls, single, init, seq):
        ctx = f'{cls} single={single} init={init} {seq}'
        own = {}
        xkey, y = None, None            # reference state
        given = []                      # caller's arrays still referenced

        def mk(key):
            v = X[key].copy()
            given.append((v, v.copy()))
            return v

        wf = WF.copy()
        if init == 'none':
            t = make(cls, wf)
        elif init == 'x':
            t = make(cls, wf, mk('a'))
            xkey = 'a'
        else:
            yv = np.array([[1, 2, 3], [3, 2, 1]])
            t = make(cls, wf, mk('a'), yv)
            xkey, y = 'a', yv.copy()
        wf[:] = 77.0                    # caller reuses the measurement array
        steps = 0
        for op in seq:
            steps += 1
            err = None
            before = (t.weight, t.diff, t.recreated)
            if op.startswith('x_') and op != 'x_none':
                t.xp = mk(op[2:])
                xkey = op[2:]
            elif op == 'x_none':
                t.xp = None
                xkey = None
            elif op.startswith('bad_'):
                k = op[4:]
                want = expt.XPOutOfImageWidthError if k in ('neg', 'high', 'fneg', 'fhigh', 'nan', 'inf') \
                    else expt.CoordinateImportError
                v = BAD[k].copy() if isinstance(BAD[k], np.ndarray) else BAD[k]
                try:
                    t.xp = v
                    raise Violation(f'invalid coordinates {k} accepted {ctx}')
                except want:
                    pass
                expect(t.weight is before[0] and t.diff is before[1] and t.recreated is before[2],
                       'rejected coordinates changed the results ' + ctx)
            elif op == 'y_ok':
                if xkey is None:
                    try:
                        t.yp = np.ones((2, 3), dtype=int)
                        raise Violation('y accepted without x ' + ctx)
                    except expt.CoordinateImportError:
                        pass
                else:
                    v = (np.arange(X[xkey].size) % NBINS).reshape(X[xkey].shape).astype(float)
                    y = v.astype(int)
                    t.yp = v
                    v[:] = 99
            elif op in ('y_shape', 'y_scalar'):
                shape = None if t.xp is None else t.xp.shape
                for bad in ([4] if op == 'y_scalar' else [np.ones((7, NPROF))] + ([] if shape is None else [
                        np.ones(shape[::-1]), np.ones((shape[0] * shape[1], 1)), np.ones(shape[0] * shape[1]),
                        np.ones((shape[0], shape[1] + 1)), np.ones((1,) + shape), np.ones((shape[0] - 1, shape[1]))])):
                    if np.shape(bad) == shape:
                        continue
                    try:
                        t.yp = bad
                        raise Violation(f'invalid y of shape {np.shape(bad)} accepted {ctx}')
                    except expt.CoordinateImportError:
                        pass
            elif op == 'y_none':
                t.yp = None
                y = None
            elif op == 'touch':
                for v, _ in given:
                    v[:] = 3
                given = []
            elif op in ('run0', 'run2', 'hybrid', 'cbfail'):
                what = {'run0': 0, 'run2': 2, 'hybrid': 'hybrid', 'cbfail': 'cbfail'}[op]
                res = None
                cb = fail_cb if op == 'cbfail' else None
                try:
                    w = do_hybrid(t, cls) if op == 'hybrid' else \
                        do_run(t, cls, 2 if op == 'cbfail' else what, cb)
                    res = (w, t.diff, t.recreated)
                except expt.CoordinateError:
                    expect(xkey is None, 'run refused although coordinates are set ' + ctx)
                    err = 'coord'
                except (RuntimeError, expt.WaterfallReducedToZero):
                    err = 'zero'
                except Boom:
                    err = 'boom'
                if xkey is None:
                    expect(err == 'coord', 'run without coordinates not refused ' + ctx)
                else:
                    f = fresh(cls, single, xkey, what)
                    if f is None:
                        expect(err == 'zero', f'expected failing run, got {err} {ctx}')
                    elif f == 'boom':
                        expect(err == 'boom', f'callback failure lost ({err}) {ctx}')
                    else:
                        expect(err is None, f'run failed: {err} {ctx}')
                        for a, b, nm in zip(res, f, ('weights', 'diff', 'recreated')):
                            same(nm + ' after history', a, b, 1e-6 if single else 1e-12, ctx=ctx)
                        res[0][:] = -5.0     # results belong to the caller
            # invariants in every state
            if xkey is None:
                expect(t.xp is None and not t.nparts, 'x not cleared ' + ctx)
            else:
                expect(np.array_equal(t.xp, X[xkey].astype(int)), f'x differs {t.xp} {ctx}')
                expect(t.nparts == len(X[xkey]), f'particle count {t.nparts} {ctx}')
            if y is None:
                expect(t.yp is None, 'y not cleared ' + ctx)
            else:
                expect(np.array_equal(t.yp, y), f'y differs {t.yp} {ctx}')
            expect(t.nprofs == NPROF and t.nbins == NBINS, 'dimensions changed ' + ctx)
            same('waterfall', t.waterfall, norm, 1e-6 if single else 1e-12, ctx=ctx)
            for v, k in given:
                expect(np.array_equal(v, k), "caller's array modified " + ctx)
        return steps

    depth = 4 if th else 3
    # every prefix of two operations is one case; the rest is enumerated inside
    cases = [[cls, s, init, list(pre)] for cls in ('single', 'multi') for s in (False, True)
             for init in ('none', 'x', 'xy') for pre in itertools.product(OPS, repeat=2)]

    def run_case(case):
        cls, single, init, pre = case
        precision(single)
        n = tr = 0
        for tail in itertools.product(OPS, repeat=depth - 2):
            tr += sequence(cls, single, init, list(pre) + list(tail))
            n += 1
        precision(False)
        return dict(states=n, transitions=tr, traces=n)

    c.part(f'all_sequences_depth_{depth}', cases, run_case)

    # longer histories over the operations that change what a run computes
    core = ['x_a', 'x_b', 'x_zero', 'x_none', 'bad_high', 'y_ok', 'touch', 'run2', 'cbfail']
    d2 = 6 if th else 5
    lc = [[cls, s, list(pre)] for cls in ('single', 'multi') for s in (False,)
          for pre in itertools.product(core, repeat=3)]

    def run_long(case):
        cls, single, pre = case
        precision(single)
        n = tr = 0
        for tail in itertools.product(core, repeat=d2 - 3):
            tr += sequence(cls, single, 'none', pre + list(tail) + ['run2'])
            n += 1
        precision(False)
        return dict(states=n, transitions=tr, traces=n)

    c.part(f'core_sequences_depth_{d2 + 1}', lc, run_long)

    # exact acceptance: every single coordinate value, position and count
    vals = [-1e9, -2, -1, -0.5, -1e-9, 0, 0.5, 1, 2, 3, 3.5, 3.999, 4, 4.0001, 5, 1e9, float('nan'),
            float('inf'), float('-inf')]
    ac = [[n, p, v, s] for n in (1, 2, 5) for p in range(n * NPROF) for v in range(len(vals)) for s in (False, True)]

    def run_acc(case):
        n, p, v, single = case
        precision(single)
        x = np.ones((n, NPROF))
        x.flat[p] = vals[v]
        ok = 0 <= vals[v] < NBINS
        for cls in ('single', 'multi'):
            for how in ('setter', 'constructor'):
                try:
                    if how == 'setter':
                        t = make(cls, WF.copy())
                        t.xp = x
                    else:
                        t = make(cls, WF.copy(), x)
                    got = True
                except expt.XPOutOfImageWidthError:
                    got = False
                expect(got == ok, f'coordinate {vals[v]} at {p}: accepted={got}')
                if ok:
                    expect(np.array_equal(t.xp, x.astype(int)) and t.nparts == n, f'stored {t.xp}')
        precision(False)
        return dict(states=4, transitions=4, traces=4)

    c.part('coordinate_acceptance', ac, run_acc)


main(body, 'C07', assumptions=['coordinates are numpy arrays, nested sequences are outside the alphabet',
                               'setting x keeps a stored y (current behaviour)'])
