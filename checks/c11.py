"""C11: coordinate conversion and lost-particle removal, every small table of
inside/outside coordinates plus a ladder of sizes, against a direct per-particle
definition."""
from tracklib import *


def body(c, lib):
    lib.set_num_threads(1)
    from longitudinal_tomography.tracking import particles as P
    from longitudinal_tomography.tomography.tomography import Tomography
    from longitudinal_tomography import exceptions as expt
    th = c.thorough

    def keepers(x, n):
        """Indices of the particles inside the image at all profiles."""
        return [j for j in range(x.shape[1])
                if all(0 <= float(x[i, j]) < n for i in range(x.shape[0]))]

    def judge(x, y, n, tomo=True, keep=None):
        keep = keepers(x, n) if keep is None else keep
        x0, y0 = x.copy(), y.copy()
        ctx = f'n={n} x={x[:, :12]}'
        k = 0
        try:
            gx, gy, lost = P.filter_lost(x, y, n)
            expect(keep, f'no particle survives, not refused {ctx}')
            expect(np.array_equal(gx, x0[:, keep]) and np.array_equal(gy, y0[:, keep]),
                   f'kept {gx}, {gy} instead of columns {keep[:20]} {ctx}')
            expect(int(lost) == x0.shape[1] - len(keep), f'{lost} reported lost, {x0.shape[1] - len(keep)} expected {ctx}')
        except expt.InvalidParticleError:
            expect(not keep, f'refused although columns {keep} survive {ctx}')
        expect(np.array_equal(x, x0) and np.array_equal(y, y0), f'caller arrays modified {ctx}')
        try:
            gx, gy = P.ready_for_tomography(x, y, n)
            expect(keep, f'no particle survives, not refused by ready_for_tomography {ctx}')
            for g, src, nm in ((gx, x0, 'x'), (gy, y0, 'y')):
                expect(np.issubdtype(g.dtype, np.integer), f'{nm} is {g.dtype} {ctx}')
                expect(np.array_equal(g, np.trunc(src[:, keep]).astype(int).T),
                       f'{nm} prepared as {g} {ctx}')
            if tomo:
                t = Tomography(np.ones((x.shape[0], n)), gx, gy)
                expect(t.nparts == len(keep) and np.array_equal(t.xp, gx) and np.array_equal(t.yp, gy),
                       f'not taken over by the reconstruction {ctx}')
        except expt.InvalidParticleError:
            expect(not keep, f'ready_for_tomography refused although columns {keep} survive {ctx}')
        expect(np.array_equal(x, x0) and np.array_equal(y, y0), f'caller arrays modified {ctx}')
        return 2

    # ---- all tables over an alphabet of edge values
    def alpha(n):
        return [-1.0, -1e-9, 0.0, n - 0.5, float(np.nextafter(n, 0)), float(n), n + 3.5]

    shapes = [(1, 1), (1, 2), (1, 3), (1, 4), (2, 1), (3, 1), (4, 1), (2, 2), (3, 2), (2, 3)]
    cases = []
    for nb in (1, 3):
        for nprof, npart in shapes:
            tot = len(alpha(nb)) ** (nprof * npart)
            if tot > (120000 if not th else 10 ** 7):
                continue
            cases += [[nb, nprof, npart, a, b] for a, b in blocks(tot, 500)]

    def run_tab(case):
        nb, nprof, npart, a, b = case
        al = alpha(nb)
        k = 0
        for i in range(a, b):
            v, j = [], i
            for _ in range(nprof * npart):
                j, r = divmod(j, len(al))
                v.append(al[r])
            x = np.array(v).reshape(nprof, npart)
            y = np.arange(nprof * npart, dtype=float).reshape(nprof, npart) * 1.25 - 1.0
            k += judge(x, y, nb)
        return dict(states=b - a, transitions=k, traces=k)

    c.part('tables', cases, run_tab)

    # ---- deeper tables, in/out only
    deep = [[nprof, npart, a, b] for nprof, npart in ((3, 3), (2, 5), (5, 2), (4, 3), (3, 4), (1, 10), (10, 1))
            for a, b in blocks(2 ** (nprof * npart), 256)]

    def run_deep(case):
        nprof, npart, a, b = case
        k = 0
        for i in range(a, b):
            bits = np.array([(i >> q) & 1 for q in range(nprof * npart)]).reshape(nprof, npart)
            x = np.where(bits == 1, np.where(np.arange(npart) % 2 == 0, -1, 4), np.arange(npart) % 4)
            y = np.arange(nprof * npart).reshape(nprof, npart)
            k += judge(x, y, 4, tomo=False)
            k += judge(x + 0.25 * (x == 2), y * 1.5, 4, tomo=False)
        return dict(states=b - a, transitions=k, traces=k)

    c.part('in_out_patterns', deep, run_deep)

    # ---- sizes, dtypes and layouts
    lad = [[p, np_, d] for p in ladder(120, 15 if not th else 18) for np_ in (1, 3, 7) for d in ('f8', 'f4', 'i4', 'i8')]

    lad += [[p, 2, d] for p in (65535, 65536, 65537, 70001, 140000) for d in ('f8', 'i4')]
    lad += [[p, q, 'f8'] for p in (5, 60) for q in (31, 32, 33, 64, 100, 150, 256, 300)]

    def run_lad(case):
        p, nprof, d = case
        n = 17
        x = pattern((nprof, p), 3, 0.01, n - 0.01).astype(d)
        k = 0
        sets = [[], [0], [p - 1], [p - 2, 3] if p > 5 else [0], [p // 2], list(range(0, p, 2)), list(range(p))]
        for bad in sets:
            xx = x.copy()
            for q in bad:
                xx[q % nprof, q] = (-1, n, n + 100, -50)[q % 4]
            y = np.arange(nprof * p).reshape(nprof, p).astype(d)
            out = set(bad)
            keep = [j for j in range(p) if j not in out]
            for order in ('C', 'F'):
                k += judge(np.array(xx, order=order), np.array(y, order=order), n, tomo=p < 300, keep=keep)
        return dict(states=k, transitions=k, traces=k)

    c.part('sizes', lad, run_lad)

    # ---- conversion, per profile turn
    conv = [[nprof, dt, phys, nparts] for nprof in range(1, 6) for dt in (1, 2, 5, 12)
            for phys in list(range(len(PHYS_SET))) + ['synth'] for nparts in (1, 2, 7, 50)]

    def run_conv(case):
        nprof, dt, phys, npart = case
        if phys == 'synth':
            m = synth(nprof, dt, 'double')
            m.h_num = 3
        else:
            m = machine(**dict(PHYS_SET[phys], nprofiles=max(2, nprof), dturns=dt,
                               machine_ref_frame=0))
        m.nbins = 10 + npart % 5
        dphi = pattern((nprof, npart), 11, -3, 3)
        de = pattern((nprof, npart), 12, -1e5, 1e5)
        d0, e0 = dphi.copy(), de.copy()
        k = 0
        for xo in (-7.25, 0.0, 31.5):
            for deb in (17.0, 3.4e3):
                for f in ('f8', 'f4'):
                    a, b = dphi.astype(f), de.astype(f)
                    xp, yp = P.physical_to_coords(a, b, m, xo, deb)
                    expect(xp.shape == (nprof, npart) and yp.shape == (nprof, npart), f'shape {xp.shape}')
                    for i in range(nprof):
                        t = i * dt
                        wx = (a[i].astype(float) + m.phi0[t]) / (m.h_num * m.omega_rev0[t] * m.dtbin) - xo
                        wy = b[i].astype(float) / deb + m.nbins / 2.0
                        tol = 1e-9 if f == 'f8' else 1e-4
                        same('x', xp[i], wx, tol, ctx=f'{case} profile {i} xo={xo}')
                        same('y', yp[i], wy, tol, ctx=f'{case} profile {i}')
                    k += nprof
        expect(np.array_equal(d0, dphi) and np.array_equal(e0, de), 'caller arrays modified')
        for sh in ((nprof, npart + 1), (nprof + 1, npart), (npart * nprof,)):
            if sh == (nprof, npart):
                continue
            try:
                P.physical_to_coords(dphi, np.zeros(sh), m, 0.0, 1.0)
                raise Violation(f'shapes {dphi.shape} and {sh} accepted')
            except expt.InvalidParticleError:
                pass
        return dict(states=k, transitions=k, traces=k)

    c.part('conversion', conv, run_conv)

    # ---- conversion is the inverse of the one that creates distributions, at every profile
    inv = [[phys, s, full, rec] for phys in range(len(PHYS_SET)) for s in (1, 2, 4) for full in (False, True)
           for rec in range(4)]

    def run_inv(case):
        phys, s, full, rec = case
        m = machine(**dict(PHYS_SET[phys], snpt=s, full_pp_flag=full, beam_ref_frame=1))
        p = P.Particles()
        p.homogeneous_distribution(m, rec)
        dphi, de = p.coordinates_dphi_denergy
        xp, yp = P.physical_to_coords(np.tile(dphi, (m.nprofiles, 1)), np.tile(de, (m.nprofiles, 1)), m,
                                      p.xorigin, p.dEbin)
        gx, gy = xp[rec] * s - 0.5, yp[rec] * s - 0.5
        expect(np.abs(gx - np.round(gx)).max() < 1e-6 and np.abs(gy - np.round(gy)).max() < 1e-6,
               f'conversion is not the inverse {case}')
        k = 1
        # tracked from the homogeneous distribution, prepared and accepted
        from longitudinal_tomography.tracking.tracking import Tracking
        tx, ty = Tracking(m).track(rec, (dphi, de))
        xp, yp = P.physical_to_coords(tx, ty, m, p.xorigin, p.dEbin)
        near = np.abs(xp - np.round(xp)) < 1e-9
        keep = keepers(xp, m.nbins) if xp.shape[1] < 2000 else \
            list(np.flatnonzero(((xp >= 0) & (xp < m.nbins)).all(axis=0)))
        k += judge(xp, yp, m.nbins, keep=keep)
        expect(not near.all(), 'degenerate')
        return dict(states=k, transitions=k, traces=k)

    c.part('inverse', inv, run_inv)


main(body, 'C11', assumptions=['coordinates are finite', 'only the phase axis defines a lost particle (as documented)'])
