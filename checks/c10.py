"""C10: the automatic distribution for every combination of image size, points
per cell, time limits, energy limit, reference profiles and machine, against
an independent computation of the reconstruction area and cell occupancy."""
from tracklib import *
TWOPI = 2 * np.pi
PHYS_SET = PHYS_SET + [dict(vrf2dot=3e7, h_ratio=2.0, phi12=0.2)]     # second harmonic rising from zero


def at(v, turn):
    return float(v[turn]) if isinstance(v, np.ndarray) else float(v)


def reference(m):
    """Area of the machine: dict, or None when it has to be refused.
    'amb' marks phase bins whose energy limit is within rounding of a cell edge."""
    n, spy = m.nbins, m.nbins / 2.0
    tb = m.beam_ref_frame * m.dturns
    xo = m.phi0[tb] / (m.h_num * m.omega_rev0[tb] * m.dtbin) - m.synch_part_x

    def height(phi, known, turn):
        v1, v2, p12 = m.vrf1_at_turn[turn], m.vrf2_at_turn[turn], at(m.phi12, turn)
        u = lambda p: v1 * np.cos(p) + v2 / m.h_ratio * np.cos(m.h_ratio * (p - p12)) \
            + p * (v1 * np.sin(m.phi0[turn]) + v2 * np.sin(m.h_ratio * (m.phi0[turn] - p12)))
        s = 2.0 * m.q / m.drift_coef[turn] * (u(phi) - u(known))
        return np.sqrt(np.maximum(s, 0.0))

    def phases(turn):
        return (xo + np.arange(n + 1)) * m.dtbin * m.h_num * m.omega_rev0[turn]

    if m.demax == 0:
        return None
    if m.demax > 0:
        de = m.demax / (n - spy)
    elif m.vrf2_at_turn[tb] != 0:
        ph = phases(tb)
        de = min(height(ph, ph[0], tb).max(), height(ph, ph[n], tb).max()) / (n - spy)
    else:
        de = (m.beta0[tb] * np.sqrt(m.e0[tb] * m.q * m.vrf1_at_turn[tb] * np.cos(m.phi0[tb])
                                    / (TWOPI * m.h_num * m.eta0[tb])) * m.dtbin * m.h_num * m.omega_rev0[tb])
    if not de > 0:
        return None
    lo = int(np.floor(np.round(m.min_dt / m.dtbin, 6))) if m.min_dt >= 0 else int(m.min_dt / m.dtbin)
    hi = int(np.ceil(np.round(m.max_dt / m.dtbin, 6)))
    amb = np.zeros(n, bool)
    if m.full_pp_flag:
        if lo < 0 or hi > n or hi <= lo:
            return None
        jmax = np.full(n, n)
        jmin = np.full(n, 1)
        imin, imax = lo, hi - 1
    else:
        tf = m.filmstart * m.dturns
        ph = phases(tf)
        with np.errstate(all='ignore'):
            e = np.array([height(ph, ph[0], tf), height(ph, ph[n], tf)]) / de
        y = spy + e
        f = np.floor(y)
        near = (np.abs(y - np.round(y)) < 1e-6 * np.maximum(1, y)) & (e > 1e-6)
        edge = np.minimum(f[0], f[1])
        jmax = np.minimum(np.minimum(edge[:-1], edge[1:]), n).astype(int)
        na = near.any(axis=0)
        amb = na[:-1] | na[1:]
        jmin = np.maximum(np.ceil(2 * spy - jmax - 0.5).astype(int), 1)
        if (jmin >= jmax).all():
            return None if not amb.any() else 'amb'
        ok = np.flatnonzero(jmax - jmin >= 0)
        if not len(ok):
            return None
        imin, imax = ok[0], ok[-1]
        if imax == 0:
            return None
        changed = False
        if lo > imin:
            imin = lo
            changed = True
        if hi <= imax:
            imax = hi - 1
            changed = True
        if changed:
            jmin = np.ceil(2 * spy - jmax + 0.5).astype(int)
        if imin > imax:
            return None
    inside = (np.arange(n) >= imin) & (np.arange(n) <= imax)
    if not ((jmax > jmin) & inside).any():
        return None if not amb.any() else 'amb'
    # an empty phase bin between the limits may be refused as invalid energy limits
    maybe = bool((jmin > jmax)[inside].any())
    return dict(maybe=maybe, xo=xo, de=de, imin=imin, imax=imax, jmin=jmin, jmax=jmax, amb=amb, lo=lo, hi=hi)


def body(c, lib):
    lib.set_num_threads(1)
    from longitudinal_tomography.tracking.particles import Particles, physical_to_coords
    from longitudinal_tomography import exceptions as expt
    th = c.thorough
    cache = {}

    def base(kw):
        k = repr(sorted(kw.items()))
        if k not in cache:
            cache[k] = machine(**kw)
        return cache[k]

    def judge(m, rec, single=False, ctx='', delta=0):
        r = reference(m)
        p = Particles()
        try:
            if delta:
                p.homogeneous_distribution(m, rec, delta)
            else:
                p.homogeneous_distribution(m, rec)
        except Violation:
            raise
        except Exception as e:
            expect(r is None or r == 'amb' or (r['maybe'] and isinstance(e, expt.EnergyLimitsError)), f'valid settings refused: {e!r} {ctx} reference {r}')
            return 1
        if r == 'amb':
            return 1
        n, s = m.nbins, m.snpt
        dphi, de = p.coordinates_dphi_denergy
        dphi, de = np.asarray(dphi, float), np.asarray(de, float)
        if r is None:
            raise Violation(f'invalid settings accepted, {len(dphi)} particles {ctx}')
        tol = 1e-4 if single else 1e-9
        expect(abs(p.xorigin - r['xo']) <= 1e-9 * max(1, abs(r['xo'])), f'xorigin {p.xorigin} {r["xo"]} {ctx}')
        expect(abs(p.dEbin - r['de']) <= 1e-9 * r['de'] and m.dEbin == p.dEbin, f'dEbin {p.dEbin} {r["de"]} {ctx}')
        # independent back conversion at the start profile
        t = rec * m.dturns + delta
        x = (dphi + m.phi0[t]) / (m.h_num * m.omega_rev0[t] * m.dtbin) - r['xo']
        y = de / r['de'] + n / 2.0
        # every point sits on the sub-grid
        gx, gy = x * s - 0.5, y * s - 0.5
        expect(np.abs(gx - np.round(gx)).max() < tol * 1e3 and np.abs(gy - np.round(gy)).max() < tol * 1e3,
               f'points not evenly spaced {ctx}')
        ix, iy = np.round(gx).astype(int), np.round(gy).astype(int)
        expect(ix.min() >= 0 and ix.max() < n * s and iy.min() >= 0 and iy.max() < n * s,
               f'particles outside the image {ctx}')
        sub = np.zeros((n * s, n * s), int)
        np.add.at(sub, (ix, iy), 1)
        expect(sub.max() <= 1, f'doubled points {ctx}')
        cells = sub.reshape(n, s, n, s).sum(axis=(1, 3))
        expect(set(np.unique(cells)) <= {0, s * s}, f'cells partly filled {np.unique(cells)} {ctx}')
        want = np.zeros((n, n), bool)
        for i in range(r['imin'], r['imax'] + 1):
            if r['jmax'][i] > r['jmin'][i]:
                want[i, r['jmin'][i]:r['jmax'][i]] = True
        got = cells > 0
        for i in range(n):
            if r['amb'][i] or (r['amb'].any() and i in (r['imin'] - 1, r['imax'] + 1)):
                continue
            expect(np.array_equal(got[i], want[i]),
                   f'phase bin {i}: rows {np.flatnonzero(got[i])} instead of {np.flatnonzero(want[i])} {ctx}')
        used = np.flatnonzero(got.any(axis=1))
        expect(len(used) == 0 or (used[0] >= min(r['lo'], n) and used[-1] < max(r['hi'], 0) or
                                  (used[0] >= r['lo'] and used[-1] < r['hi'])),
               f'outside the time limits {used} {r["lo"]} {r["hi"]} {ctx}')
        # published area describes the points
        pub = np.zeros((n, n), bool)
        for i in range(p.imin, p.imax + 1):
            if p.jmax[i] > p.jmin[i]:
                pub[i, p.jmin[i]:p.jmax[i]] = True
        expect(np.array_equal(pub, got), f'imin/imax/jmin/jmax do not describe the particles {ctx}')
        if delta:
            return 1 + len(dphi)
        # the library's own conversion returns the cells
        row = np.tile(dphi, (m.nprofiles, 1)), np.tile(de, (m.nprofiles, 1))
        xp, yp = physical_to_coords(row[0], row[1], m, p.xorigin, p.dEbin)
        expect(np.array_equal(np.floor(xp[rec]).astype(int), ix // s) and
               np.array_equal(np.floor(yp[rec]).astype(int), iy // s), f'cells not recovered {ctx}')
        return 1 + len(dphi)

    def mk(nb, s, demax, full, spx, phys, brf=0, fs=0, dturns=2, nprof=4):
        kw = dict(PHYS_SET[phys])
        kw.update(nbins=nb, synch_part_x=spx * nb, nprofiles=nprof, dturns=dturns)
        import copy
        m = copy.copy(base(kw))
        m.snpt, m.demax, m.full_pp_flag, m.beam_ref_frame, m.filmstart = s, demax, full, brf, fs
        m.dEbin = None
        return m

    # ---- all pairs of time limits on a half-bin grid
    sizes = (1, 2, 3, 4, 5, 8, 11) if not th else (1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 14, 20)
    lim = [[nb, full, demax, phys] for nb in sizes for full in (False, True)
           for demax in (-1.0, 0.0, 1e3, 1e5, 2.5e6) for phys in range(len(PHYS_SET))]

    def run_lim(case):
        nb, full, demax, phys = case
        k = st = 0
        m = mk(nb, 1 + nb % 3, demax, full, 0.5, phys)
        for a in range(-2, 2 * nb + 3):
            for b in range(0, 2 * nb + 4):
                m.min_dt, m.max_dt = a / 2 * m.dtbin, b / 2 * m.dtbin
                k += judge(m, (a + b) % 4, ctx=f'{case} min={a / 2} max={b / 2} bins')
                st += 1
        return dict(states=st, transitions=k, traces=st)

    c.part('limits', lim, run_lim)

    # ---- every reference, film and start profile, points per cell, synchronous position
    combos = [[nb, s, demax, full, spx, phys, single] for nb in (6, 13, 20) for s in (1, 2, 3, 4, 5)
              for demax in (-1.0, -1e6, 4e5, 1e7) for full in (False, True)
              for spx in (0.0, 0.3, 0.5, 0.77, 1.0) for phys in range(len(PHYS_SET)) for single in (False, True)]

    def run_combo(case):
        nb, s, demax, full, spx, phys, single = case
        precision(single)
        k = st = 0
        frames = [(0, 0, 0), (1, 2, 3), (3, 0, 1), (0, 3, 2)] if not th else itertools.product(range(4), repeat=3)
        for brf, fs, rec in frames:
            m = mk(nb, s, demax, full, spx, phys, brf, fs)
            k += judge(m, rec, single, ctx=f'{case} beam_ref={brf} film={fs} rec={rec}')
            st += 1
            for delta in deltas(m, rec):
                m = mk(nb, s, demax, full, spx, phys, brf, fs)
                k += judge(m, rec, single, ctx=f'{case} beam_ref={brf} film={fs} rec={rec} delta={delta}', delta=delta)
                st += 1
            if phys in (1, 3):          # RF phase difference given turn by turn
                m = mk(nb, s, demax, full, spx, phys, brf, fs)
                m.phi12 = m.phi12 + 0.05 * np.sin(np.arange(len(m.phi0)))
                k += judge(m, rec, single, ctx=f'{case} phi12 per turn beam_ref={brf} film={fs} rec={rec}')
                st += 1
        precision(False)
        return dict(states=st, transitions=k, traces=st)

    c.part('settings', combos, run_combo)

    # ---- bin count and bin width: default limits select the whole image
    lad = [[nb, d] for nb in list(range(1, 130 if not th else 260)) + [256, 257] for d in
           (1e-9, 2e-9, 5e-9, 9.999e-9, 1.9999e-9, 4.999e-10, 3.3e-9)]

    def run_ladder(case):
        nb, d = case
        st = k = 0
        for full in (True, False):
            m = machine(nbins=nb, dtbin=d, synch_part_x=nb / 2, snpt=1, nprofiles=2, dturns=1,
                        full_pp_flag=full, vrf2=500.0, h_ratio=2.0, phi12=0.1)
            k += judge(m, 1, ctx=f'{case} full={full}')
            st += 1
        return dict(states=st, transitions=k, traces=st)

    c.part('image_sizes', lad, run_ladder)

    # ---- missing machine fields are refused; hand-given coordinates are validated
    fields = ['snpt', 'h_num', 'omega_rev0', 'eta0', 'dtbin', 'phi0', 'synch_part_y', 'dturns', 'phi12',
              'beam_ref_frame', 'full_pp_flag', 'demax', 'e0', 'min_dt', 'max_dt', 'time_at_turn']

    def run_field(case):
        m = mk(8, 2, -1.0, False, 0.5, 0)
        setattr(m, case[0], None)
        p = Particles()
        try:
            p.homogeneous_distribution(m, 0)
        except expt.MachineParameterError:
            expect(p.coordinates_dphi_denergy[0] is None, 'half-made particles')
            return dict(states=1, transitions=1, traces=1)
        raise Violation(f'machine without {case[0]} accepted')

    c.part('missing_fields', [[f] for f in fields], run_field)

    def run_coord(case):
        a, b = case
        p = Particles()
        x, y = np.arange(a) * 0.1, np.arange(b) * 1.0
        try:
            p.coordinates_dphi_denergy = (x, y)
            expect(a == b, f'lengths {a} {b} accepted')
            got = p.coordinates_dphi_denergy
            expect(np.array_equal(got[0], x) and np.array_equal(got[1], y), 'coordinates changed')
        except expt.InvalidParticleError:
            expect(a != b, f'lengths {a} {b} refused')
        for bad in (3, (x,), (x, y, y), (1.0, 2.0), 2.5):
            keep = p.coordinates_dphi_denergy
            try:
                p.coordinates_dphi_denergy = bad
                raise Violation(f'{bad!r} accepted')
            except expt.InvalidParticleError:
                expect(p.coordinates_dphi_denergy[0] is keep[0], 'coordinates lost')
        return dict(states=6, transitions=6, traces=6)

    c.part('coordinates', [[a, b] for a in range(6) for b in range(6)], run_coord)


main(body, 'C10', assumptions=['phase bins whose energy limit is within 1e-6 of a cell edge '
                               'are not compared exactly', 'full image: the lowest energy row holds no particles'])
