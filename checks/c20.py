"""C20: profile objects over all small measurements and histories of
assignment; charge, wrap length and self-field voltages over machines and
filters; tracking in given self-fields against the reference map."""
from scipy.signal import savgol_filter
from tracklib import *

E = 1.602176634e-19
CLIGHT = 299792458.0


def body(c, lib):
    lib.set_num_threads(1)
    from longitudinal_tomography.data.profiles import Profiles
    from longitudinal_tomography.tracking.tracking import Tracking
    from longitudinal_tomography.utils import physics
    from longitudinal_tomography import exceptions as expt
    th = c.thorough

    # ---- assignment: all small measurements
    AL = np.array([0.0, -1.0, 2.0, 0.25])
    cases = []
    for n, b in ((1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (2, 3)) + (((3, 2), (2, 4)) if th else ()):
        cases += [[n, b, a, e] for a, e in blocks(4 ** (n * b), 64)]

    def run_set(case):
        n, b, a, e = case
        k = 0
        for i in range(a, e):
            for dt in (np.float64, np.float32):
                w = AL[xp_of(i, n, b, 4)].astype(dt)
                keep = w.copy()
                m = machine(nprofiles=n, nbins=11)
                try:
                    p = Profiles(m, 1e-9, w)
                except expt.WaterfallReducedToZero:
                    expect((w <= 0).all(), f'{w.tolist()} refused')
                    expect(m.nbins == 11, 'machine changed by a refused measurement')
                    k += 1
                    continue
                expect((w > 0).any(), f'{w.tolist()} accepted')
                same('waterfall', p.waterfall, np.where(keep > 0, keep, 0), 1e-12, ctx=str(keep.tolist()))
                expect(m.nbins == b and m.synch_part_y == b / 2 and p.machine is m and p.sampling_time == 1e-9, 'bookkeeping')
                expect(p.profile_charge is None and p.vself is None and p.phiwrap is None, 'initial values')
                expect(np.array_equal(keep, w) and not np.shares_memory(w, p.waterfall), 'caller array used')
                w[:] = 55
                same('waterfall', p.waterfall, np.where(keep > 0, keep, 0), 1e-12)
                k += 1
        return dict(states=k, transitions=k, traces=k)

    c.part('measurements', cases, run_set)

    # ---- histories of assignment, good and bad
    OPS = ['good4', 'good7', 'neg5', 'wrong3', 'wrong1', 'scalar', 'none', 'zero6', 'allneg4', 'ramp']

    def value(op):
        r = np.arange
        return {'good4': r(8.0).reshape(2, 4), 'good7': r(14.0).reshape(2, 7) % 5, 'neg5': r(10.0).reshape(2, 5) - 4.5,
                'wrong3': np.ones((3, 4)), 'wrong1': np.ones((1, 4)), 'scalar': 3.5, 'none': None,
                'zero6': np.zeros((2, 6)), 'allneg4': -np.ones((2, 4)), 'ramp': np.outer([1, 2], r(9))}[op]

    def run_hist(case):
        first, = case
        n = 0
        for rest in itertools.product(OPS, repeat=3 if th else 2):
            m = machine(nprofiles=2, nbins=11)
            p = Profiles(m, 1e-9, np.ones((2, 3)))
            cur = np.ones((2, 3))
            for op in (first,) + rest:
                v = value(op)
                try:
                    p.waterfall = v
                    ok = True
                except (expt.WaterfallError, expt.WaterfallReducedToZero):
                    ok = False
                good = op in ('good4', 'good7', 'neg5', 'ramp')
                expect(ok == good, f'{op}: {"accepted" if ok else "refused"} after {first} {rest}')
                if good:
                    cur = np.maximum(v, 0.0)
                same('measurement', p.waterfall, cur, 1e-12, ctx=f'{op} in {first} {rest}')
                expect(m.nbins == cur.shape[1] and m.synch_part_y == cur.shape[1] / 2, f'bins {m.nbins} after {op} in {first} {rest}')
                n += 1
        return dict(states=n, transitions=n, traces=n)

    c.part('assignment_histories', [[o] for o in OPS], run_hist, chunk=1)

    # ---- charge
    def run_q(case):
        n, ref, st, pick = case
        m = machine(nprofiles=n, beam_ref_frame=ref, pickup_sensitivity=pick, dtbin=3e-9)
        w = pattern((n, 9), 4, -0.3, 2.0)
        p = Profiles(m, st, w)
        p.calc_profilecharge()
        same('charge', p.profile_charge, np.maximum(w[ref], 0).sum() * st / (E * pick), 1e-8, ctx=str(case))
        p.calc_profilecharge()
        same('charge again', p.profile_charge, np.maximum(w[ref], 0).sum() * st / (E * pick), 1e-8, ctx=str(case))
        p.waterfall = w * 3
        p.calc_profilecharge()
        same('charge of new data', p.profile_charge, 3 * np.maximum(w[ref], 0).sum() * st / (E * pick), 1e-8)
        expect(Profiles(m, st, w, 4.5e9).profile_charge == 4.5e9, 'given charge')
        return dict(states=3, transitions=3, traces=1)

    c.part('charge', [[n, r, s, q] for n in (1, 2, 5) for r in range(n) for s in (1e-9, 4.2e-10, 2.0)
                      for q in (0.36, 1.0, 12.5)], run_q)

    # ---- wrap length and self-field voltages
    def drads(m):
        """candidates of the bin width in RF phase the wrap is computed from"""
        nt = (m.nprofiles - 1) * m.dturns
        om = m.omega_rev0
        idx = [nt - 1, nt] if m.bdot > 0 else [0]
        return [m.h_num * om[i] * m.dtbin for i in idx]

    def check_wrap(p, m, ctx):
        ok = False
        for dr in drads(m):
            x = m.nbins * dr / (2 * np.pi)
            y = np.ceil(x) * 2 * np.pi / dr
            for ph in {np.ceil(x), np.ceil(x - 1e-9), np.ceil(x + 1e-9)}:
                for wl in {np.ceil(y), np.ceil(y - 1e-9), np.ceil(y + 1e-9)}:
                    ok |= abs(p.phiwrap - ph * 2 * np.pi) < 1e-9 * ph * 7 and p.wrap_length == wl
        expect(ok, f'phiwrap {p.phiwrap} wrap_length {p.wrap_length}, {m.nbins} bins of {drads(m)} rad {ctx}')
        expect(p.wrap_length >= m.nbins, f'wrap length {p.wrap_length} shorter than the image {ctx}')

    def ref_vself(m, ds, Q, wrap):
        n = m.nprofiles
        be = np.array([m.beta0[i * m.dturns] for i in range(n)])
        om = np.array([m.omega_rev0[i * m.dturns] for i in range(n)])
        k = (E / om) * ((1 / be - be) * m.g_coupling * np.pi * 2e-7 * CLIGHT - m.zwall_over_n) / m.dtbin ** 2
        same('self-field coefficients', physics.calc_self_field_coeffs(m), k, 1e-8)
        v = np.zeros((n - 1, wrap + 1))
        for i in range(n - 1):
            v[i, :m.nbins] = 0.5 * Q * (k[i] * ds[i] + k[i + 1] * ds[i + 1])
        return v

    sf = [[p, n, nb, dt, mode] for p in range(len(PHYS_SET)) for n in (2, 4) for nb in (7, 20, 33)
          for dt in (2e-9, 9.999e-9, 3e-8) for mode in ('default', 'filter', 'given', 'list')]

    def mk(p, n, nb, dt, **kw):
        a = dict(PHYS_SET[p])
        a.update(nprofiles=n, nbins=nb, dtbin=dt, g_coupling=1.3, zwall_over_n=17.0, pickup_sensitivity=0.36)
        a.update(kw)
        a['machine_ref_frame'] = min(a.get('machine_ref_frame', 0), n - 1)
        return machine(**a)

    def run_sf(case):
        pi, n, nb, dt, mode = case
        k = 0
        for g, z in ((1.3, 17.0), (0.0, 5.0), (2.0, 0.0), (0.0, 0.0)):
            m = mk(pi, n, nb, dt, g_coupling=g, zwall_over_n=z)
            w = pattern((n, nb), 3, 0.1, 1.0) + np.arange(n)[:, None]
            p = Profiles(m, 1e-9, w)
            try:
                p.calc_self_fields()
                raise Violation('self fields without charge')
            except expt.ProfileChargeNotCalculated:
                pass
            p.calc_profilecharge()
            Q = p.profile_charge
            seen = []

            def flt(x):
                seen.append(x.copy())
                x *= 2.0          # filters may work in place
                return x + 0.5
            if mode == 'default':
                p.calc_self_fields()
                ds = savgol_filter(w / w.sum(axis=1, keepdims=True), 7, 4, deriv=1)
            elif mode == 'filter':
                p.calc_self_fields(in_filter=flt)
                expect(len(seen) == 1 and np.allclose(seen[0], w), 'filter input')
                ds = 2 * w + 0.5
            else:
                ds = pattern((n, nb), 8, -1, 1)
                arg = ds if mode == 'given' else ds.tolist()
                p.calc_self_fields(filtered_profiles=arg) if nb != 20 else p.calc_self_fields(arg, flt)
                expect(not seen, 'filter used although filtered profiles were given')
            same('filtered profiles', p.dsprofiles, ds, 1e-9, 1e-12, str(case))
            same('measurement', p.waterfall, w, 1e-12, ctx='changed by the filter')
            check_wrap(p, m, str(case))
            same('self field', p.vself, ref_vself(m, ds, Q, p.wrap_length), 1e-7, ctx=str(case))
            before = p.vself.copy()
            w2 = w[:, ::-1] + 0.3
            p.waterfall = w2
            p.calc_profilecharge()
            p.calc_self_fields()
            ds2 = savgol_filter(w2 / w2.sum(axis=1, keepdims=True), 7, 4, deriv=1)
            same('self field of new data', p.vself, ref_vself(m, ds2, p.profile_charge, p.wrap_length), 1e-7, ctx=str(case))
            k += 2
        for bad in (3, None if False else 2.5, np.ones((n, nb + 1)), np.ones((n + 1, nb)), np.ones(nb), np.ones((nb, n)) if nb != n else 1):
            for how in ('given', 'filter'):
                try:
                    p.calc_self_fields(filtered_profiles=bad) if how == 'given' else p.calc_self_fields(in_filter=lambda x: bad)
                    raise Violation(f'filtered profiles {np.shape(bad)} accepted {case}')
                except expt.FilteredProfilesError:
                    k += 1
        return dict(states=k, transitions=k, traces=k)

    c.part('self_fields', sf, run_sf)

    wr = [[h, dt, nb] for h in (1, 2, 5, 21) for dt in (1e-10, 1e-9, 5e-9, 2e-8, 7.7e-8) for nb in list(range(1, 40)) + [64, 100, 255, 256, 400]]

    def run_wrap(case):
        h, dt, nb = case
        for kw in (dict(), dict(bdot=0.8, vrf1=5000.0), dict(bdot=-0.5, vrf1=5000.0)):
            m = machine(nprofiles=3, nbins=5, h_num=h, dtbin=dt, g_coupling=1.0, zwall_over_n=3.0, pickup_sensitivity=1.0, **kw)
            p = Profiles(m, 1e-9, np.ones((3, nb)), 1e10)
            p.calc_self_fields(np.ones((3, nb)))
            check_wrap(p, m, str(case))
            expect(p.vself.shape == (2, p.wrap_length + 1), f'shape {p.vself.shape}')
            expect(not p.vself[:, nb:].any() and p.vself[:, :nb].all(), 'values outside of the measurement')
        return dict(states=3, transitions=3, traces=3)

    c.part('wrap_length', wr, run_wrap)

    # ---- tracking
    tr = [[p, d, n, kind] for p in range(len(PHYS_SET)) for d in (1, 3) for n in (1, 2, 4)
          for kind in ('zero', 'uniform', 'rows', 'bins')]

    def run_tr(case):
        pi, d, n, kind = case
        k = 0
        nb = 30
        m = mk(pi, n, nb, 9.999e-9, dturns=d, synch_part_x=15.0)
        known = False
        for rec, delta in [(i, j) for i in range(n) for j in [0] + deltas(m, i)]:
            t = Tracking(m)
            X0, Y0 = t.track(rec)                # automatic distribution: sets the image
            xo, dE = t.particles.xorigin, t.particles.dEbin
            x0, y0 = cloud(12)
            x0, y0 = x0 * 0.3, y0 * dE * 3
            X, Y = t.track(rec, (x0.copy(), y0.copy()), deltaturn=delta)
            s0 = rec * d + delta            # turn and row the particles start from
            row = rec if delta >= 0 else rec - 1
            om = m.omega_rev0
            wrapn = int(np.ceil(np.ceil(nb * m.h_num * om.max() * m.dtbin / (2 * np.pi)) * 2 * np.pi
                                / (m.h_num * om.min() * m.dtbin))) + 3
            phiw = np.ceil(nb * m.h_num * om[0] * m.dtbin / (2 * np.pi)) * 2 * np.pi
            V = {'zero': np.zeros((max(n - 1, 1), wrapn)), 'uniform': np.full((max(n - 1, 1), wrapn), 37.5),
                 'rows': np.repeat(11.0 * (1 + np.arange(max(n - 1, 1)))[:, None], wrapn, axis=1),
                 'bins': 60 * pattern((max(n - 1, 1), wrapn), 4, -1, 1)}[kind]

            class P:
                phiwrap, vself = phiw, V
            V0 = V.copy()
            t.enable_self_fields(P)
            expect(t.self_field_flag, 'flag')
            gx, gy = t.track(rec, (x0.copy(), y0.copy()), deltaturn=delta)
            expect(np.array_equal(V, V0), 'self-field array modified')

            def xbin(x, turn):
                w = m.h_num * om[turn] * m.dtbin
                z = x + m.phi0[turn] - xo * w
                return (z - phiw * np.floor(z / phiw)) / w

            def ref(off, sign, boff):
                """forward bin offset, sign of the backward kick, backward bin offset"""
                rx, ry = np.zeros((n, 12)), np.zeros((n, 12))
                near = np.inf
                q = m.q
                v1, v2 = m.vrf1_at_turn * q, m.vrf2_at_turn * q
                ph = float(m.phi12)
                x, y = x0.copy(), y0.copy()
                if not delta:
                    rx[rec], ry[rec] = xbin(x, rec * d), y
                pr = row
                for u in range(s0, (n - 1) * d):
                    x = x - m.drift_coef[u] * y
                    u += 1
                    b = xbin(x, u)
                    near = min(near, np.abs(b - np.rint(b)).min())
                    y = M.kick(x, y, v1[u], v2[u], m.phi0[u], ph, m.h_ratio, m.deltaE0[u]) + q * V[pr, b.astype(int) + off]
                    if u % d == 0:
                        pr += 1
                        rx[pr], ry[pr] = b, y
                x, y = x0.copy(), y0.copy()
                b = xbin(x, s0)
                pr = row if delta else rec - 1
                for u in range(s0, 0, -1):
                    near = min(near, np.abs(b - np.rint(b)).min())
                    y = M.unkick(x, y, v1[u], v2[u], m.phi0[u], ph, m.h_ratio, m.deltaE0[u]) + sign * q * V[pr, b.astype(int) + boff]
                    u -= 1
                    x = x + m.drift_coef[u] * y
                    b = xbin(x, u)
                    if u % d == 0:
                        rx[pr], ry[pr] = b, y
                        pr -= 1
                return rx, ry / dE + m.synch_part_y, near

            def match(r, lo, hi):
                return np.allclose(gx[lo:hi], r[0][lo:hi], rtol=1e-7, atol=1e-7) and np.allclose(gy[lo:hi], r[1][lo:hi], rtol=1e-7, atol=1e-6)

            if kind == 'zero':
                tx = np.array([xbin(X[i], i * d) for i in range(n)])
                same('phase without field', gx, tx, 1e-7, 1e-7, f'{case} rec={rec}')
                same('energy without field', gy, Y / dE + m.synch_part_y, 1e-7, 1e-7, f'{case} rec={rec}')
            r = ref(-1, -1, 0)
            if kind == 'bins' and r[2] < 1e-6:
                continue       # a particle on a bin edge: rounding decides
            f0, b0 = (row + 1, row + 1) if delta else (rec, rec + 1)
            fwd = match(r, f0, n) or (kind == 'bins' and match(ref(0, -1, 0), f0, n))
            expect(fwd, f'forward tracking in a {kind} field {case} rec={rec} delta={delta}\n{gy[rec:]}\n{r[1][rec:]}')
            good = match(r, 0, b0) or (kind == 'bins' and (match(ref(0, -1, -1), 0, b0)))
            if not good:
                expect(match(ref(-1, 1, 0), 0, b0), f'backward tracking in a {kind} field {case} rec={rec} delta={delta}')
                known = True
            k += 1
        st = dict(states=k, transitions=k * d * (n - 1), traces=k)
        if known:
            raise Known('self-field-backward-sign', str(case), st)
        return st

    c.part('tracking', tr, run_tr)

    def run_no(case):
        m = mk(0, 2, 9, 1e-8)
        p = Profiles(m, 1e-9, np.ones((2, 9)))
        n = 0
        for f in ((), ('phiwrap',), ('vself',)):
            for x in f:
                setattr(p, x, 1.0)
            if f == ('vself',):
                p.phiwrap = None
            t = Tracking(m)
            try:
                t.enable_self_fields(p)
                raise Violation('self-field tracking without self fields')
            except expt.SelfFieldTrackingError:
                expect(not t.self_field_flag, 'flag set by a refused call')
            n += 1
        return dict(states=n, transitions=n, traces=n)

    c.part('refusals', [[0]], run_no)


main(body, 'C20', assumptions=[
    'The bin whose voltage a particle sees in forward tracking is accepted as the one it is in or the one before.',
    'The wrap for rising fields is accepted for the last turn or the one before it.'])
