"""C05: reconstruction equals the documented iteration, for every coordinate
matrix of the enumerated universes."""
from common import *

WF = {}


def waterfalls(nprof, nbins, thorough):
    """Alphabet of measured profiles (raw, may hold zeros and negatives)."""
    key = (nprof, nbins, thorough)
    if key in WF:
        return WF[key]
    n = nprof * nbins
    res = []
    if n <= (6 if thorough else 4):
        for t in itertools.product((0.0, 1.0, 3.0) if n > 3 else (0.0, 1.0, 3.0, -1.0), repeat=n):
            res.append(np.array(t).reshape(nprof, nbins))
    else:
        base = [np.ones((nprof, nbins)),
                (np.arange(n) + 1.0).reshape(nprof, nbins),
                pattern((nprof, nbins), 3, 0.0, 1.0) ** 2,
                np.where(lcg(n, 3, 5) == 0, 0.0, 1.0 + lcg(n, 4, 6)).reshape(nprof, nbins),
                pattern((nprof, nbins), 9, -0.5, 1.0)]
        one = np.zeros((nprof, nbins))
        one[:, 0] = 2.0
        base.append(one)
        base.append(-np.ones((nprof, nbins)))
        res = base
    WF[key] = res
    return res


def one(lib, xp, wf, niter, single, tol, ctx):
    """One execution of the compiled reconstruction against the model."""
    dt = np.float32 if single else np.float64
    prof = np.ascontiguousarray(wf, dtype=dt)
    xin, pin = xp.copy(), prof.copy()
    npart, nprof = xp.shape
    nbins = wf.shape[1]
    eps = 3e-3 if single else 1e-6
    try:
        w, d, rec, hist = M.reconstruct(xp, prof.astype(float), niter, eps)
        want = 'ok'
    except M.Zero:
        want = 'zero'
    except M.Ambiguous:
        want = 'any'
    try:
        gw, gd, gr = lib.reconstruct(xin, pin, niter, nbins, npart, nprof)
        got = 'ok'
    except RuntimeError:
        got = 'zero'
    expect(np.array_equal(xin, xp) and np.array_equal(pin, prof), 'inputs modified %s', ctx)
    if want == 'any':
        return 1
    expect(want == got, f'expected outcome {want}, got {got} {ctx}')
    if got == 'zero':
        return 1
    expect(gw.shape == (npart,) and gd.shape == (niter + 1,) and gr.shape == (nprof, nbins),
           f'wrong shapes {gw.shape} {gd.shape} {gr.shape} {ctx}')
    expect(gw.dtype == gd.dtype == gr.dtype == dt, f'result types {gw.dtype} {ctx}')
    expect(np.all(gw >= 0), f'negative weight {ctx}')
    same('weights', gw, w, tol, ctx=ctx)
    same('discrepancy', gd, d, tol, tol * max(np.abs(rec).max(), np.abs(prof).max()), ctx=ctx)
    same('recreated', gr, rec, tol, tol, ctx=ctx)
    # recreated is the projection of the returned weights, each profile summing to one
    p = np.zeros((nprof, nbins))
    for j in range(nprof):
        np.add.at(p[j], xp[:, j], gw.astype(float))
    same('normalised projection of returned weights', gr, p / p.sum(axis=1, keepdims=True),
         tol, tol, ctx=ctx)
    return 1


def body(c, lib):
    lib.set_num_threads(1)
    th = c.thorough
    lim = 70000 if th else 4200
    cases = []
    for npart in range(1, 7 if th else 6):
        for nprof in range(1, 5 if th else 4):
            for nbins in range(1, 6 if th else 5):
                total = nbins ** (npart * nprof)
                if total <= lim:
                    for a, b in blocks(total, 32):
                        cases.append([npart, nprof, nbins, a, b])

    def run_small(case):
        npart, nprof, nbins, a, b = case
        n = 0
        tr = 0
        for i in range(a, b):
            xp = xp_of(i, npart, nprof, nbins)
            wfs = waterfalls(nprof, nbins, th)
            if nbins ** (npart * nprof) > 1000 and len(wfs) > 20:
                wfs = wfs[i % 4::4] if not th else wfs
            for k, wf in enumerate(wfs):
                for niter in ((0, 1, 2, 3) if th else (0, 1, 3)):
                    n += one(lib, xp, wf, niter, False, 1e-8,
                             f'xp={xp.tolist()} wf={wf.tolist()} niter={niter}')
                    tr += niter + 1
                if k % 4 == i % 4:      # many iterations: fixed points and cycles
                    n += one(lib, xp, wf, 11, False, 1e-6, f'xp={xp.tolist()} wf={wf.tolist()} niter=11')
                    tr += 12
                if k % 7 == 0:
                    n += one(lib, xp, wf, 2, True, 2e-3,
                             f'single xp={xp.tolist()} wf={wf.tolist()} niter=2')
                    tr += 3
        return dict(states=n, transitions=tr, traces=n)

    c.part('all_small_universes', cases, run_small)

    # larger shapes: every particle count to 300 and sizes around powers of two
    shp = []
    for n in ladder(300, 16 if not th else 18, (1000, 1024 * 5 + 3, 10000, 100003)):
        shp.append([n, 3, 8])
    for b in ladder(160, 11, (1000, 1300)):
        shp.append([64, 3, b])
    for p in ladder(70, 9, (100, 150, 200, 300)):
        shp.append([48, p, 7])
    for n in (500, 2048):
        for p in (10, 33):
            for b in (50, 200):
                shp.append([n, p, b])
    ladder_cases = [[s, it, sg] for s in shp for it in ((2,) if s[0] > 3000 else (0, 1, 4))
                    for sg in (False, True)]
    ladder_cases = [x + [k] for x in ladder_cases for k in ('smooth', 'spiky')]
    # many particles piled up in few bins
    ladder_cases += [[[n, p, b], 2, sg, 'smooth'] for n in (32766, 32767, 32768, 40000, 65535, 65536, 70000, 140000)
                     for p, b in ((1, 1), (2, 2), (2, 1)) for sg in (False, True)]
    ladder_cases += [[[200, 6, 20], it, False, k] for it in range(0, 101) for k in ('smooth', 'spiky')]
    ladder_cases += [[[37, 3, 5], it, True, 'smooth'] for it in range(0, 31)]

    def run_ladder(case):
        (npart, nprof, nbins), niter, single, kind = case
        xp = lcg(npart * nprof, nbins, 7).astype(np.int32).reshape(npart, nprof)
        wf = pattern((nprof, nbins), 11, 0.05, 1.0)
        if kind == 'spiky':
            wf = np.where(wf > 0.4, wf ** 3, 0.0)
            wf[:, 0] += 0.3
        wf /= wf.sum(axis=1, keepdims=True)
        one(lib, xp, wf, niter, single, 2e-2 if single else 1e-7, str(case))
        return dict(states=1, transitions=niter + 1, traces=1)

    c.part('shape_and_iteration_ladder', ladder_cases, run_ladder)

    # the object interface: clipping, normalising, attributes
    from longitudinal_tomography.tomography.tomography import Tomography
    from longitudinal_tomography import exceptions as expt
    from longitudinal_tomography.utils import tomo_config as conf

    obj = []
    for npart in (1, 2, 3):
        for nprof, nbins in ((1, 2), (2, 2), (2, 3), (3, 2)):
            total = nbins ** (npart * nprof)
            if total <= 800:
                obj += [[npart, nprof, nbins, a, b] for a, b in blocks(total, 16)]

    def run_obj(case):
        npart, nprof, nbins, a, b = case
        n = tr = 0
        for i in range(a, b):
            xp = xp_of(i, npart, nprof, nbins)
            vals = (0.0, 1.0, 2.5, -1.0)
            for t in list(itertools.product(vals, repeat=nprof * nbins))[i % 37::37 if nprof * nbins > 4 else 5]:
                wf = np.array(t).reshape(nprof, nbins)
                cl = wf.clip(0)
                if (cl.sum(axis=1) == 0).any():
                    if cl.any():
                        continue       # a single empty profile: not a valid measurement
                    try:
                        Tomography(wf.copy(), xp)
                        raise Violation(f'measurement without signal accepted: {wf.tolist()}')
                    except expt.WaterfallReducedToZero:
                        continue
                for single in (False, True):
                    if single:
                        conf.AppConfig.set_single_precision()
                    else:
                        conf.AppConfig.set_double_precision()
                    tol = 2e-3 if single else 1e-8
                    scale = (1.0, 1e-12, 1e13, 1e-30, 1e-150, 1e120)[(i + len(t)) % (4 if single else 6)]
                    win = wf * scale
                    wraw = win.copy()
                    tomo = Tomography(win, xp.copy())
                    expect(np.array_equal(win, wraw), 'measurement modified')
                    same('normalised waterfall', tomo.waterfall, cl / cl.sum(axis=1, keepdims=True), tol)
                    ctx = f'object wf={wf.tolist()}*{scale} xp={xp.tolist()} single={single}'
                    for niter in (0, 1, 3):
                        n += 1
                        tr += niter + 1
                        try:
                            w, d, rec, _ = M.reconstruct(xp, np.asarray(tomo.waterfall, float), niter,
                                                         3e-3 if single else 1e-6)
                            want = 'ok'
                        except M.Zero:
                            want = 'zero'
                        except M.Ambiguous:
                            want = 'any'
                        before = tomo.waterfall.copy()
                        try:
                            gw = tomo.run(niter=niter)
                            got = 'ok'
                        except (RuntimeError, expt.WaterfallReducedToZero):
                            got = 'zero'
                        expect(np.array_equal(before, tomo.waterfall), 'waterfall modified ' + ctx)
                        if want == 'any':
                            continue
                        expect(want == got, f'expected {want}, got {got} {ctx} niter={niter}')
                        if got == 'ok':
                            expect(gw is tomo.weight or np.array_equal(gw, tomo.weight), 'weight attribute')
                            same('weights', gw, w, tol, ctx=ctx)
                            same('diff', tomo.diff, d, tol, tol, ctx=ctx)
                            same('recreated', tomo.recreated, rec, tol, tol, ctx=ctx)
        conf.AppConfig.set_double_precision()
        return dict(states=n, transitions=tr, traces=n)

    c.part('tomography_object', obj, run_obj)


main(body, 'C05', assumptions=[
    'coordinates lie inside the image (guaranteed by the object interface, C07)',
    'outcomes decided by rounding alone (total weight within 1e-6 of the data scale) accept either answer',
    'reference model: lib/model.py reconstruct, compared to 1e-8 (double) / 2e-3 (single)'])
