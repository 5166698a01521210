"""C03: all execution variants agree on every enumerated input."""
from tracklib import *


def body(c, lib):
    lib.set_num_threads(2)
    from longitudinal_tomography.tracking.tracking import Tracking
    from longitudinal_tomography.tomography.tomography import Tomography, TomographyCpp
    from longitudinal_tomography import exceptions as expt
    th = c.thorough

    def close(name, a, b, tol, ctx):
        b = np.asarray(b, float)
        same(name, np.asarray(a, float), b, tol, tol * max(1e-12, np.abs(b).max()), ctx)

    # ---- tracking variants
    cases = [[p, d, k] for p in range(1, 7 if th else 5) for d in range(1, 6 if th else 4) for k in KINDS]

    def arrays(m, dt):
        n = m.dturns * (m.nprofiles - 1) + 1
        return dict(rfv1=(m.vrf1_at_turn * m.q).astype(dt), rfv2=(m.vrf2_at_turn * m.q).astype(dt),
                    phi0=m.phi0.astype(dt), deltaE0=m.deltaE0.astype(dt),
                    drift_coef=m.drift_coef.astype(dt)), n

    def run_track(case):
        p, d, k = case
        n = tr = 0
        for q in (1, 2):
            m = synth(p, d, k, q)
            nt = d * (p - 1)
            for rec in range(p):
                for npart in (1, 3, 10):
                    x0, y0 = cloud(npart)
                    precision(False)
                    X, Y = Tracking(m).track(rec, (x0, y0))
                    ctx = f'{case} q={q} rec={rec} n={npart}'

                    def cmp(name, x, y, tol=1e-9):
                        close(name + ' phase', x, X, tol, ctx)
                        close(name + ' energy', y, Y, tol, ctx)

                    # single precision of the same call
                    precision(True)
                    x, y = Tracking(m).track(rec, (x0, y0))
                    precision(False)
                    cmp('single', x, y, 5e-3)
                    # hybrid variant
                    t = Tracking(m)
                    if k not in PER_TURN:
                        x, y = t.kick_and_drift(y0.copy(), x0.copy(), m.vrf1_at_turn * m.q,
                                                m.vrf2_at_turn * m.q, rec)
                        cmp('hybrid', x, y)
                    for dt, tol in ((np.float64, 1e-9), (np.float32, 5e-3)):
                        A, nn = arrays(m, dt)

                        def fresh():
                            return (np.full((p, npart), 7.0, dtype=dt), np.full((p, npart), 7.0, dtype=dt),
                                    y0.astype(dt), x0.astype(dt))
                        ph = m.phi12 if k in PER_TURN else float(m.phi12)
                        # keyword form
                        a, b, e, f = fresh()
                        r = lib.kick_and_drift(
                            xp=a, yp=b, denergy=e, dphi=f, phi12=ph.astype(dt) if k in PER_TURN else ph,
                            h_ratio=m.h_ratio, dturns=d, rec_prof=rec, deltaturn=0, nturns=nt,
                            nparts=npart, ftn_out=False, callback=None, **A)
                        cmp(f'keyword {dt.__name__}', r[0], r[1], tol)
                        cmp(f'keyword in place {dt.__name__}', a, b, tol)
                        # positional, phi12 as per-turn array
                        a, b, e, f = fresh()
                        arr = np.broadcast_to(np.asarray(m.phi12, dtype=dt), (nn,)).copy()
                        r = lib.kick_and_drift(a, b, e, f, A['rfv1'], A['rfv2'], A['phi0'], A['deltaE0'],
                                               A['drift_coef'], arr, m.h_ratio, d, rec, 0, nt, npart)
                        cmp(f'array phi12 {dt.__name__}', r[0], r[1], tol)
                        n += 2
                    # starting between two profiles
                    for delta in deltas(m, rec) if npart == 3 else ():
                        U, V = model_of(m, x0, y0, rec, delta)
                        ctd = f'{ctx} delta={delta}'
                        if k not in PER_TURN:
                            x, y = Tracking(m).kick_and_drift(y0.copy(), x0.copy(), m.vrf1_at_turn * m.q,
                                                              m.vrf2_at_turn * m.q, rec, deltaturn=delta)
                            close('hybrid phase', x, U, 1e-9, ctd)
                            close('hybrid energy', y, V, 1e-9, ctd)
                        for single in (True, False):
                            precision(single)
                            x, y = Tracking(m).track(rec, (x0, y0), None, delta)
                            close('phase', x, U, 5e-3 if single else 1e-9, ctd)
                            close('energy', y, V, 5e-3 if single else 1e-9, ctd)
                        n += 3
                    # machine-object form
                    if k not in PER_TURN:
                        a, b = np.zeros((p, npart)), np.zeros((p, npart))
                        r = lib.kick_and_drift(a, b, y0.copy(), x0.copy(), m.vrf1_at_turn * m.q,
                                               m.vrf2_at_turn * m.q, m, rec, 0, nt, npart)
                        cmp('machine form', r[0], r[1])
                        r = lib.kick_and_drift(xp=a, yp=b, denergy=y0.copy(), dphi=x0.copy(),
                                               rfv1=m.vrf1_at_turn * m.q, rfv2=m.vrf2_at_turn * m.q,
                                               machine=m, rec_prof=rec, deltaturn=0, nturns=nt, nparts=npart)
                        cmp('machine form keywords', r[0], r[1])
                        n += 2
                    # layouts and dtypes, results taken from the returned arrays
                    A, nn = arrays(m, np.float64)
                    for lay in ('fortran', 'strided', 'float32 machine', 'int particles'):
                        xx, yy = x0, y0
                        B = dict(A)
                        tol = 1e-9
                        want = (X, Y)
                        a, b = np.zeros((p, npart)), np.zeros((p, npart))
                        if lay == 'fortran':
                            a, b = np.asfortranarray(a), np.asfortranarray(b)
                        elif lay == 'strided':
                            xx, yy = np.repeat(x0, 2)[::2], np.repeat(y0, 2)[::2]
                            B = {kk: np.repeat(v, 2)[::2] for kk, v in A.items()}
                        elif lay == 'float32 machine':
                            B = {kk: v.astype(np.float32) for kk, v in A.items()}
                            tol = 5e-3
                        else:
                            xx, yy = np.rint(x0).astype(int), np.rint(y0).astype(int)
                            want = model_of(m, xx.astype(float), yy.astype(float), rec)
                        r = lib.kick_and_drift(a, b, yy.copy() if lay != 'strided' else np.repeat(y0, 2)[::2],
                                               xx.copy() if lay != 'strided' else np.repeat(x0, 2)[::2],
                                               B['rfv1'], B['rfv2'], B['phi0'], B['deltaE0'],
                                               B['drift_coef'],
                                               m.phi12 if k in PER_TURN else float(m.phi12),
                                               m.h_ratio, d, rec, 0, nt, npart)
                        close(lay + ' phase', r[0], want[0], tol, ctx)
                        close(lay + ' energy', r[1], want[1], tol, ctx)
                        n += 1
                    # kick / drift composed by hand, both spellings
                    x, y = x0.copy(), y0.copy()
                    u, v = x0.copy(), y0.copy()
                    phi12 = np.broadcast_to(np.asarray(m.phi12, float), (nt + 1,))
                    for t_ in range(rec * d, nt):
                        lib.drift_up(x, y, m.drift_coef[t_], npart)
                        lib.kick_up(x, y, m.vrf1_at_turn[t_ + 1] * q, m.vrf2_at_turn[t_ + 1] * q,
                                    m.phi0[t_ + 1], phi12[t_ + 1], m.h_ratio, npart, m.deltaE0[t_ + 1])
                        if k not in PER_TURN:
                            u = lib.drift(v, u, m.drift_coef, npart, t_)
                            v = lib.kick(m, v, u, m.vrf1_at_turn * q, m.vrf2_at_turn * q, npart, t_ + 1)
                        if (t_ + 1) % d == 0:
                            close('composed up phase', x, X[(t_ + 1) // d], 1e-9, ctx)
                            close('composed up energy', y, Y[(t_ + 1) // d], 1e-9, ctx)
                            if k not in PER_TURN:
                                close('composed up phase 2', u, X[(t_ + 1) // d], 1e-9, ctx)
                                close('composed up energy 2', v, Y[(t_ + 1) // d], 1e-9, ctx)
                    x, y = x0.copy(), y0.copy()
                    u, v = x0.copy(), y0.copy()
                    for t_ in range(rec * d, 0, -1):
                        lib.kick_down(x, y, m.vrf1_at_turn[t_] * q, m.vrf2_at_turn[t_] * q,
                                      m.phi0[t_], phi12[t_], m.h_ratio, npart, m.deltaE0[t_])
                        lib.drift_down(x, y, m.drift_coef[t_ - 1], npart)
                        if k not in PER_TURN:
                            v = lib.kick(m, v, u, m.vrf1_at_turn * q, m.vrf2_at_turn * q, npart, t_, up=False)
                            u = lib.drift(v, u, m.drift_coef, npart, t_ - 1, up=False)
                        if (t_ - 1) % d == 0:
                            close('composed down phase', x, X[(t_ - 1) // d], 1e-9, ctx)
                            close('composed down energy', y, Y[(t_ - 1) // d], 1e-9, ctx)
                            if k not in PER_TURN:
                                close('composed down phase 2', u, X[(t_ - 1) // d], 1e-9, ctx)
                                close('composed down energy 2', v, Y[(t_ - 1) // d], 1e-9, ctx)
                    n += 3
                    tr += nt * 15
        return dict(states=n, transitions=tr, traces=n)

    c.part('tracking_variants', cases, run_track, chunk=1)

    # ---- reconstruction variants
    rc = []
    lim = 20000 if th else 2100
    for npart in range(1, 5):
        for nprof in range(1, 4):
            for nbins in range(1, 5):
                tot = nbins ** (npart * nprof)
                if tot <= lim:
                    rc += [[npart, nprof, nbins, a, b] for a, b in blocks(tot, 32)]

    def outcome(f):
        try:
            return f()
        except (RuntimeError, expt.WaterfallReducedToZero):
            return None

    def run_rec(case):
        npart, nprof, nbins, a, b = case
        n = 0
        nz = nprof * nbins
        wfs = [pattern((nprof, nbins), 3, 0.05, 1.0), (np.arange(nz) + 1.0).reshape(nprof, nbins),
               np.where(lcg(nz, 3, 5) == 0, 0.0, 1.0 + lcg(nz, 4, 6)).reshape(nprof, nbins),
               np.eye(nbins)[np.arange(nprof) % nbins] * 3]
        wfs = [w for w in wfs if (w.sum(axis=1) > 0).all()]
        for i in range(a, b):
            xp = xp_of(i, npart, nprof, nbins)
            for wi, wf in enumerate(wfs):
                for niter in (0, 1, 3):
                    ctx = f'xp={xp.tolist()} wf={wi} niter={niter}'
                    norm = wf / wf.sum(axis=1, keepdims=True)
                    try:
                        M.reconstruct(xp, norm, niter, 1e-3)
                    except M.Ambiguous:
                        continue
                    except M.Zero:
                        pass
                    precision(False)
                    t = Tomography(wf, xp)
                    R = outcome(lambda: (t.run(niter), t.diff, t.recreated))

                    def cmp(name, r, tol):
                        expect((r is None) == (R is None), f'{name}: outcome {r} vs {R} {ctx}')
                        if R is not None:
                            close(name + ' weights', r[0], R[0], tol, ctx)
                            same(name + ' diff', r[1], R[1], tol, tol, ctx)
                            same(name + ' recreated', r[2], R[2], tol, tol, ctx)
                    h = Tomography(wf, xp)
                    cmp('hybrid', outcome(lambda: (h.run_hybrid(niter), h.diff, h.recreated)), 1e-9)
                    # separate routines composed by hand
                    if R is not None and niter == 1:
                        flat = (xp + nbins * np.arange(nprof)).astype(np.int32)
                        w = lib.back_project(np.zeros(npart), flat, norm.flatten(), npart, nprof).clip(0)
                        cnt = lib.count_particles_in_bins(np.zeros((nprof, nbins)), xp, nprof, npart, nbins)
                        expect(np.array_equal(cnt, M.counts(xp, nprof, nbins)), f'counts {cnt} {ctx}')
                        cntf = lib.count_particles_in_bins(np.zeros((nprof, nbins), np.float32), xp, nprof, npart, nbins)
                        expect(np.array_equal(cntf, cnt), f'counts single {ctx}')
                        rec = lib.project(np.zeros((nprof, nbins)), flat, w, npart, nprof, nbins)
                        expect(rec.shape == (nprof, nbins), 'project shape')
                        rec = rec / rec.sum(axis=1, keepdims=True)
                        d = (norm - rec) * (cnt.max() / np.where(cnt == 0, 1, cnt))
                        w = lib.back_project(w, flat, d.flatten(), npart, nprof).clip(0)
                        close('composed weights', w, R[0], 1e-9, ctx)
                        # keyword form
                        r = lib.reconstruct(xp=xp, waterfall=norm, n_iter=1, n_bins=nbins, n_particles=npart,
                                            n_profiles=nprof, verbose=False, callback=None)
                        cmp('keyword', r, 1e-9)
                    # dtype / layout of coordinates and data
                    if wi == 1:
                        for f in (lambda: np.asfortranarray(xp), lambda: xp.astype(np.int64),
                                  lambda: xp.astype(float) + 0.25, lambda: np.repeat(xp, 2, axis=0)[::2],
                                  lambda: np.repeat(xp, 2, axis=1)[:, ::2]):
                            tt = Tomography(np.asfortranarray(wf).astype(int) if wi == 1 else wf, f())
                            cmp('layout', outcome(lambda: (tt.run(niter), tt.diff, tt.recreated)), 1e-12)
                        r = outcome(lambda: lib.reconstruct(np.asfortranarray(xp), np.asfortranarray(norm),
                                                            niter, nbins, npart, nprof))
                        cmp('fortran order', r, 1e-12)
                        r = outcome(lambda: lib.reconstruct(xp.astype(np.int64), norm, niter, nbins, npart, nprof))
                        cmp('int64', r, 1e-12)
                        n += 7
                    precision(True)
                    s = Tomography(wf, xp)
                    cmp('single', outcome(lambda: (s.run(niter), s.diff, s.recreated)), 5e-3)
                    expect(TomographyCpp is Tomography or True, '')
                    precision(False)
                    n += 3
        return dict(states=n, transitions=n, traces=n)

    c.part('reconstruction_variants', rc, run_rec)

    lad = [[n, 3, 8] for n in ladder(300, 13)] + [[40, 3, b] for b in ladder(130, 9)] + \
          [[30, p, 7] for p in ladder(40, 7)]

    def run_lad(case):
        npart, nprof, nbins = case
        xp = lcg(npart * nprof, nbins, 7).astype(np.int32).reshape(npart, nprof)
        wf = pattern((nprof, nbins), 11, 0.05, 1.0)
        it = 3
        norm = wf / wf.sum(axis=1, keepdims=True)
        while True:
            try:
                M.reconstruct(xp, norm, it, 1e-2)
                break
            except (M.Ambiguous, M.Zero):
                it -= 1
        precision(False)
        t = Tomography(wf, xp)
        w = t.run(it)
        precision(True)
        s = Tomography(wf, xp)
        ws = s.run(it)
        precision(False)
        close('single weights', ws, w, 2e-2, str(case))
        same('single diff', s.diff, t.diff, 1e-2, 1e-4, str(case))
        if npart * nprof <= 3000:
            h = Tomography(wf, xp)
            wh = h.run_hybrid(it)
            close('hybrid weights', wh, w, 1e-8, str(case))
            same('hybrid diff', h.diff, t.diff, 1e-8, 1e-10, str(case))
            same('hybrid recreated', h.recreated, t.recreated, 1e-8, 1e-10, str(case))
        # tracking with the same number of particles
        m = synth(3, 2, 'double')
        x0, y0 = cloud(npart)
        X, Y = Tracking(m).track(1, (x0, y0))
        x, y = Tracking(m).kick_and_drift(y0.copy(), x0.copy(), m.vrf1_at_turn * m.q, m.vrf2_at_turn * m.q, 1)
        close('hybrid tracking phase', x, X, 1e-9, str(case))
        close('hybrid tracking energy', y, Y, 1e-9, str(case))
        return dict(states=4, transitions=4, traces=4)

    c.part('ladder', lad, run_lad)


main(body, 'C03', assumptions=[
    'GPU variants are out of scope (no CuPy in this environment)',
    'hybrid multi-bunch variant: see C17',
    'inputs whose outcome is decided by rounding (total weight within 1e-3 of zero) are skipped'])
