"""C23: figures of the reconstructed bunch (lengths, areas, densities) for all
small images, all trapezoidal profiles of a grid and a grid of buckets."""
from tracklib import *
import itertools
import warnings


def mach(kind, **kw):
    a = dict(dturns=3, nprofiles=4, mean_orbit_rad=25.0, bending_rad=8.239, nbins=40, synch_part_x=20.0)
    a.update({'above': dict(b0=1.1, trans_gamma=1.8, vrf1=30000.0, dtbin=5e-9),
              'ramp': dict(b0=1.1, trans_gamma=1.8, vrf1=30000.0, bdot=0.9, dtbin=5e-9),
              'fall': dict(b0=1.1, trans_gamma=1.8, vrf1=30000.0, bdot=-1.1, dtbin=5e-9),
              'h4': dict(b0=1.1, trans_gamma=1.8, vrf1=50000.0, h_num=4, bdot=0.3, dtbin=2e-9),
              'below': dict(b0=0.15722, trans_gamma=4.1, vrf1=2637.2, dtbin=9.999e-9),
              'ion': dict(charge=2, b0=1.1, rest_energy=3.73e9, trans_gamma=1.05, vrf1=20000.0, dtbin=5e-9)}[kind])
    a.update(kw)
    m = machine(**a)
    m.values_at_turns()
    # every turn clearly different, so that figures of another turn differ
    u = np.arange(len(m.phi0))
    m.e0 = m.e0 * (1 + 0.012 * u)
    m.eta0 = m.eta0 * (1 + 0.02 * u)
    m.omega_rev0 = m.omega_rev0 * (1 - 0.009 * u)
    m.phi0 = m.phi0 + 0.008 * u
    return m


def potential(m, turn):
    p0, V = m.phi0[turn], m.vrf1
    return lambda x: V * (np.cos(p0) - np.cos(x)) + (p0 - x) * V * np.sin(p0)


def coefficient(m, turn):
    """Square of the energy deviation per unit of potential difference."""
    g = m.e0[turn] / m.e_rest
    return m.q * (g - 1 / g) * m.e_rest / (np.pi * m.h_num * m.eta0[turn])


def heights(m, turn, x, left):
    u = potential(m, turn)
    v = coefficient(m, turn) * (u(left) - u(x))
    return np.sqrt(np.where(v > 0, v, 0.0))


def line(k, y):
    """Least squares line: slope and offset."""
    k, y = np.asarray(k, float), np.asarray(y, float)
    a = ((k - k.mean()) * (y - y.mean())).sum() / ((k - k.mean()) ** 2).sum()
    return a, y.mean() - a * k.mean()


def body(c, lib):
    warnings.simplefilter('ignore')
    from longitudinal_tomography.utils import tomographics as tg
    from longitudinal_tomography import exceptions as expt
    th = c.thorough

    # ---- moments and enclosed fractions of all small images
    TARGETS = (0.05, 0.25, 0.39, 0.5, 0.68, 0.77, 0.9, 0.95, 0.999)

    def run_img(case):
        n, alpha, head = case
        k = 0
        I, J = np.meshgrid(np.arange(n), np.arange(n), indexing='ij')
        for tail in itertools.product(alpha, repeat=n * n - len(head)):
            v = np.array(list(head) + list(tail), float)
            if not v.any():
                continue
            img = (v / v.sum()).reshape(n, n)
            keep = img.copy()
            dt, dE = 2.5e-9, 300.0
            got = tg.rms_params(img, dt, dE)
            mt, me = (img * I).sum(), (img * J).sum()
            st, se = (img * (I - mt) ** 2).sum(), (img * (J - me) ** 2).sum()
            cov = (img * (I - mt) * (J - me)).sum()
            em = st * se - cov ** 2
            for name, g, w, unit in (('emittance', got[0], em, np.pi * dt * dE), ('spread in time', got[2], st, dt),
                                     ('spread in energy', got[4], se, dE)):
                if w < 1e-12:       # zero, up to rounding below the root
                    expect(not abs(g) > 1e-6 * unit, f'{name} {g} of a point or line {v}')
                else:
                    expect(abs(g / unit - np.sqrt(w)) < 1e-6 * np.sqrt(w) + 1e-9 / np.sqrt(w), f'{name} {g} {v}')
            expect(abs(got[1] / dt - mt) < 1e-9 and abs(got[3] / dE - (me - n / 2)) < 1e-9, f'means {got} {v}')
            s = np.cumsum(sorted(img.ravel().tolist(), reverse=True))
            last = -1.0
            for f in TARGETS if k % 7 == 0 or th else TARGETS[::3]:
                g = tg.emittance_density_calc(img, dt, dE, f) / (dt * dE)
                j = int(np.searchsorted(s, f))
                w = 0.0 if j == 0 else j - 1 + (f - s[j - 1]) / (s[j] - s[j - 1]) if j < len(s) else len(s) - 1.0
                if abs(s - f).min() < 1e-12:
                    expect(j - 1.01 <= g <= len(s), f'area {g} of {f} {v}')
                else:
                    expect(abs(g - w) < 1e-6, f'area {g} of {f} instead of {w} {v}')
                expect(g >= last - 1e-9, f'area decreases with the fraction {v}')
                last = g
            d = tg.emittance_density_calc(img, dt, dE)
            expect(d == tg.emittance_density_calc(img, dt, dE, 0.9) ==
                   tg.emittance_density_calc(img.T.copy(), dt, dE, density_target=0.9), f'default fraction {v}')
            expect((img == keep).all(), f'image changed {v}')
            k += 1
        return dict(states=k, transitions=k * 5, traces=k)

    img = [[1, [1.0], []], [2, [0.0, 1.0, 2.0, 5.0, 0.25], []]]
    img += [[3, [0.0, 1.0, 3.0] if not th else [0.0, 1.0, 3.0, 0.5], list(h)]
            for h in itertools.product([0.0, 1.0, 3.0], repeat=3 if not th else 4)]
    c.part('images', img, run_img)

    # ---- bright and weak cells: the same figures for images of a large dynamic range
    def run_range(case):
        n, back, pattern = case
        v = np.full((n, n), back)
        k = np.arange(n)
        if pattern == 'point':
            v[n // 2, n // 3] = 1.0
        elif pattern == 'row':
            v[n // 2] = 1.0
        elif pattern == 'column':
            v[:, n - 1] = np.where(k % 2, 1.0, back)
        elif pattern == 'steps':        # every magnitude
            v = back ** ((k[:, None] * n + k) / (n * n))
        elif pattern == 'corners':
            v[0, 0] = v[-1, -1] = v[0, -1] = 1.0
        img = v / v.sum()
        s = np.cumsum(np.sort(img.ravel())[::-1])
        done = 0
        for f in sorted([0.05, 0.39, 0.68, 0.9, 0.95, 0.99, 0.999, 0.99999] +
                        [float(s[j] + s[j + 1]) / 2 for j in range(0, len(s) - 1, max(1, len(s) // 40))]):
            if not 0 < f < 1 - 1e-9 or abs(s - f).min() < 1e-12:
                continue
            g = tg.emittance_density_calc(img, 1.0, 1.0, f)
            j = int(np.searchsorted(s, f))
            w = 0.0 if j == 0 else j - 1 + (f - s[j - 1]) / (s[j] - s[j - 1])
            expect(abs(g - w) < 1e-5 + (1e-13 / (s[j] - s[j - 1]) if j else 0), f'area {g} of {f} instead of {w} {case}')
            done += 1
        I, J = k[:, None], k[None, :]
        mt, me = (img * I).sum(), (img * J).sum()
        st, se = (img * (I - mt) ** 2).sum(), (img * (J - me) ** 2).sum()
        em = st * se - (img * (I - mt) * (J - me)).sum() ** 2
        got = tg.rms_params(img, 3e-9, 2e3)
        want = (np.pi * 6e-6 * np.sqrt(em), mt * 3e-9, np.sqrt(st) * 3e-9, (me - n / 2) * 2e3, np.sqrt(se) * 2e3)
        tol = 1e-15 * n ** 2        # cancellation of the moments about the origin
        for name, a, b, err in zip(('emittance', 'mean time', 'spread time', 'mean energy', 'spread energy'), got, want,
                                   (tol * n * n / em, tol * n, tol / st, tol * n, tol / se)):
            expect(abs(a - b) <= (1e-9 + 10 * err) * max(abs(b), abs(want[4]) if name == 'mean energy' else 0),
                   f'{name} {a} instead of {b} {case}') if err < 1e-3 else None
            done += 1
        return dict(states=done, transitions=done, traces=done)

    dyn = [[n, b, p] for n in ((4, 7, 20, 64) if not th else (4, 5, 7, 20, 33, 64, 150, 256))
           for b in (0.0, 1e-12, 1e-9, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.1, 0.5)
           for p in ('point', 'row', 'column', 'steps', 'corners')]
    c.part('dynamic_range', dyn, run_range)

    def run_bad(case):
        a = np.full((3, 3), 1 / 9)
        for f in (0, 1, 0.0, 1.0, -0.5, 1.5, 90, float('nan')):
            try:
                tg.emittance_density_calc(a, 1.0, 1.0, f)
            except ValueError:
                pass
            else:
                raise Violation(f'fraction {f} accepted')
            try:
                tg.foot_tangent_fit_density(np.array([5.0, 4, 3, 2, 1, 0, 0, 0]), np.arange(8.0), f)
            except ValueError:
                pass
            else:
                raise Violation(f'level {f} accepted')
        return dict(states=16, transitions=16, traces=16)

    c.part('refusals', [[0]], run_bad)

    # ---- lengths of profiles
    def profile(n, a, b, d, e, shape):
        k = np.arange(n, dtype=float)
        up = np.clip((k - a) / (b - a), 0, 1)
        down = np.clip((e - k) / (e - d), 0, 1)
        y = np.minimum(up, down)
        if shape == 1:
            y = np.sin(y * np.pi / 2) ** 2
        elif shape == 2:
            y = y * (1 + 0.05 * np.sin(1.7 * k))
        return y * 37.5

    def feet(y):
        t, top = 0.15 * y.max(), int(np.argmax(y))
        l = max(i for i in range(top) if y[i] < t)
        r = min(i for i in range(top + 1, len(y)) if y[i] < t)
        s, o = line(range(l - 1, l + 3), y[l - 1:l + 3])
        S, O = line(range(r - 2, r + 2), y[r - 2:r + 2])
        return -o / s - 0.5, -O / S + 0.5

    def feet_dq(y):
        t = 0.15 * y.max()
        i = [j for j in range(len(y)) if y[j] >= t]
        l, r = i[0], i[-1]
        if l < 3 or r + 3 >= len(y):
            return None
        s, o = line(range(l - 3, l + 3), y[l - 3:l + 3])
        S, O = line(range(r - 2, r + 4), y[r - 2:r + 4])
        return -o / s, -O / S

    def run_len(case):
        n, a, up, flat, down, shape = case
        b, d = a + up, a + up + flat
        e = d + down
        if e > n - 4:
            return dict(states=0, transitions=0, traces=0)
        y = profile(n, a, b, d, e, shape)
        if min(abs(y - 0.15 * y.max())) < 1e-9 or np.sort(y)[-2] == y.max() and shape == 2:
            return dict(states=0, transitions=0, traces=0)
        keep, ctx, k = y.copy(), f'{case}', 0
        lo, hi = feet(y)
        for s in (1.0, 1e-9, 2e5):
            for dx in (1, 1e-9, 2.5):
                g = tg.foot_tangent_fit(y * s, dx)
                expect(abs(g[0] - lo * dx) < 1e-7 * dx and abs(g[1] - hi * dx) < 1e-7 * dx,
                       f'feet {g} instead of {(lo * dx, hi * dx)} scale={s} dx={dx} {ctx}')
                k += 1
        g = tg.foot_tangent_fit(y)
        m = tg.foot_tangent_fit(y[::-1].copy())
        if int(np.argmax(y)) == n - 1 - int(np.argmax(y[::-1])) or shape != 2:
            expect(abs(m[0] - (n - 1 - g[1])) < 1e-7 and abs(m[1] - (n - 1 - g[0])) < 1e-7, f'mirrored {g} {m} {ctx}')
        z = tg.foot_tangent_fit(np.concatenate([np.zeros(7), y]))
        expect(abs(z[0] - g[0] - 7) < 1e-7 and abs(z[1] - g[1] - 7) < 1e-7, f'shifted {g} {z} {ctx}')
        want = feet_dq(y)
        for s in (1.0, 4e6):
            for x0, dx in ((0.0, 1.0), (3e-6, 2e-9), (-5.0, 0.25)):
                x = x0 + dx * np.arange(n)
                for period in (1000.0, (want[1] - want[0]) * 1.01, (want[1] - want[0]) * 0.99):
                    try:
                        g = tg.foot_tangent_fit_dq(x, y * s, period * dx, apply_filter=False)
                    except expt.InvalidProfileError:
                        expect(period < want[1] - want[0], f'refused {period} {ctx}')
                        continue
                    expect(period > want[1] - want[0], f'a bunch longer than the period accepted {ctx}')
                    expect(all(abs(u - (x0 + v * dx)) < 1e-6 * dx for u, v in zip(g, want)), f'{g} {want} {ctx}')
                    k += 1
        # smoothing changes the profile, not where it is
        x = np.arange(n) * 1.0
        try:
            g, h = tg.foot_tangent_fit_dq(x, y, 1000.0), tg.foot_tangent_fit_dq(x, y[::-1].copy(), 1000.0)
            expect(abs(g[0] + h[1] - (n - 1)) < 1e-6 and abs(g[1] + h[0] - (n - 1)) < 1e-6, f'mirrored {g} {h} {ctx}')
            expect(abs(g[0] - want[0]) < 3 and abs(g[1] - want[1]) < 3, f'smoothed {g} {want} {ctx}')
            k += 1
        except expt.InvalidProfileError:
            pass
        expect((y == keep).all(), 'profile changed')
        # too long for the image on one side
        for cutl, cutr in ((True, False), (False, True)):
            i = np.flatnonzero(y >= 0.15 * y.max())
            z = y[i[0] - 2:] if cutl else y[:i[-1] + 3]
            try:
                tg.foot_tangent_fit_dq(np.arange(len(z)) * 1.0, z, 1000.0, apply_filter=False)
            except expt.InvalidProfileError:
                k += 1
            else:
                raise Violation(f'profile reaching the image border accepted {ctx}')
            # one bin more and it fits
            first = i[0] - 3 if cutl else 0
            z = y[first:] if cutl else y[:i[-1] + 4]
            try:
                g = tg.foot_tangent_fit_dq(np.arange(len(z)) * 1.0, z, 1000.0, apply_filter=False)
            except expt.InvalidProfileError:
                raise Violation(f'profile with three bins on each side refused {ctx}')
            expect(all(abs(u - (v - first)) < 1e-6 for u, v in zip(g, want)), f'{g} {want} {first} {ctx}')
            k += 1
        # density against emittance: where the tangent of the falling edge meets the base
        q = y[int(np.argmax(y)):] + 4.0
        if len(q) > 8:
            x = np.cumsum(1 + 0.1 * np.arange(len(q)))
            for level in (0.15, 0.4, 0.7):
                q0 = q - q.min()
                below = [i for i in range(1, len(q)) if q0[i] < level * q0.max()]
                if not below or below[0] < 2 or below[0] + 2 > len(q) or min(abs(q0 - level * q0.max())) < 1e-9:
                    continue
                r = below[0]
                S, O = line(range(r - 2, r + 2), q0[r - 2:r + 2])
                f = -O / S + 0.5
                w = x[-1] if f >= len(x) - 1 else x[int(f)] + (f - int(f)) * (x[int(f) + 1] - x[int(f)])
                g = tg.foot_tangent_fit_density(q, x, level)
                expect(abs(g - w) < 1e-6, f'density foot {g} instead of {w} level={level} {ctx}')
                if level == 0.15:
                    expect(tg.foot_tangent_fit_density(q, x) == g, 'default level')
                k += 1
        return dict(states=k, transitions=k, traces=k)

    lens = [[n, a, up, flat, down, s] for n in ((48,) if not th else (48, 49, 80))
            for a in (5.0, 5.3, 6.5, 9.81) for up in (2.6, 4.0, 6.5, 11.2) for flat in (1.0, 5.5, 10.0)
            for down in (2.6, 4.0, 6.5, 11.2) for s in (0, 1, 2)]
    c.part('lengths', lens, run_len)

    # ---- area of the matched bunch
    def bucket(m, turn, length):
        """Left end of the trajectory of that length around the synchronous phase."""
        u, p0 = potential(m, turn), m.phi0[turn]
        a, b = p0 - length, p0
        f = lambda x: u(x) - u(x + length)
        if f(a) * f(b) >= 0:
            return None
        for _ in range(100):
            z = (a + b) / 2
            a, b = (a, z) if f(a) * f(z) <= 0 else (z, b)
        return a

    def run_area(case):
        kind, frame, frac = case
        m = mach(kind)
        turn = (frame or 0) * m.dturns
        if frame is None:
            m.machine_ref_frame, turn = 2, 2 * m.dturns
        length = frac * 2 * np.pi
        left = bucket(m, turn, length)
        # clear of the unstable fixed point
        p0 = m.phi0[turn]
        unstable = abs(np.pi - 2 * (p0 % np.pi)) if abs(np.sin(p0)) > 1e-9 else np.pi
        if left is None or max(p0 - left, left + length - p0) > 0.97 * unstable:
            return dict(states=0, transitions=0, traces=0)
        x = np.linspace(left, left + length, 40001)
        h = heights(m, turn, x, left)
        want = 2 / (m.h_num * m.omega_rev0[turn]) * ((h[1:] + h[:-1]) / 2).sum() * (x[1] - x[0])
        sec = length / (m.omega_rev0[turn] * m.h_num)
        got = tg.matched_area_calc(m, sec, frame) if frame is not None else tg.matched_area_calc(m, sec)
        expect(np.ndim(got) == 0 or np.size(got) == 1, 'one number')
        got = float(np.asarray(got).ravel()[0])
        expect(abs(got - want) < 4e-3 * want, f'matched area {got} instead of {want} {case}')
        return dict(states=1, transitions=1, traces=1)

    ar = [[k, f, x] for k in ('above', 'ramp', 'fall', 'h4', 'below', 'ion') for f in (None, 0, 1, 3)
          for x in (0.08, 0.1, 0.17, 0.25, 0.33, 0.4, 0.5, 0.6, 0.72, 0.85)]
    c.part('areas', ar, run_area)

    # ---- density as function of the enclosed area, and cutting the beam at an area
    def setting(kind, n, first=0.0):
        m = mach(kind, nbins=n, synch_part_x=n / 2 - 0.7)
        bin_ = 2 * np.pi / (m.h_num * m.omega_rev0[0]) / n * 0.95
        t = (np.arange(n) + first) * bin_
        top = heights(m, 0, np.array([m.phi0[0]]), m.phi0[0] - np.pi)[0]
        dE = (np.arange(n) - n / 2) * (2.6 * top / n)
        return m, t, dE

    def image(n, kind):
        i, j = np.meshgrid(np.arange(n) - n / 2, np.arange(n) - n / 2, indexing='ij')
        r = (i / n) ** 2 + (j / n) ** 2
        img = {'round': np.exp(-18 * r), 'flat': np.ones((n, n)), 'tilt': np.exp(-15 * r - 9 * i * j / n / n),
               'hollow': r * np.exp(-20 * r) + 1e-3, 'rand': 1 + np.sin(1.3 * i + 0.7 * j * j) * np.exp(-5 * r),
               'step': 1.0 * (r < 0.05) + 0.01}[kind]
        return img / img.sum()

    def curves(m, turn, t, dE, img, amps):
        """(area, mean, min, max, enclosed) for every trajectory."""
        p0 = m.phi0[turn]
        u = potential(m, turn)
        x = (t - m.synch_part_x * (t[1] - t[0])) * m.h_num * m.omega_rev0[turn] + p0
        g = p0 + np.linspace(-np.pi, np.pi, 1000)
        g = g[g < p0]
        v = u(g)
        o = np.argsort(v)
        res, tot, de = [], img.sum(), dE[1] - dE[0]
        for a in amps:
            left = np.interp(a, v[o], g[o])
            h = heights(m, turn, x, left)
            area = 2 / (m.h_num * m.omega_rev0[turn]) * ((h[1:] + h[:-1]) / 2).sum() * (x[1] - x[0])
            top, inside = [], 0.0
            for i in np.flatnonzero(h):
                y = h[i]
                hi, lo = np.interp([y, -y], dE, img[i])
                sel = (dE > -y) & (dE < y)
                xs = np.concatenate([[-y], dE[sel], [y]])
                ys = np.concatenate([[lo], img[i][sel], [hi]])
                inside += ((ys[1:] + ys[:-1]) / 2 * np.diff(xs)).sum() / de
                top += [hi, lo]
            res.append((area, np.mean(top), min(top), max(top), inside / tot) if top else (0.0,) * 5)
        return np.array(res).T

    def run_density(case):
        kind, ik, n, frame, points = case
        m, t, dE = setting(kind, n)
        turn = (frame or 0) * m.dturns
        if frame is None:
            m.machine_ref_frame, turn = 1, m.dturns
        u = potential(m, turn)
        g = m.phi0[turn] + np.linspace(-np.pi, np.pi, 1000)
        amps = np.linspace(0, u(g).min(), points)
        img = image(n, ik)
        keep = img.copy()
        kw = {} if points == 100 else dict(n_points_amplitude=points)
        if frame is not None:
            kw['idx_frame'] = frame
        got = [np.array(v) for v in tg.density_vs_emittance(m, img, t, dE, **kw)]
        area, mean, lo, hi, inside = curves(m, turn, t, dE, img, amps)
        if mean[0] == 0:
            s = (mean[2] - mean[1]) / (area[2] - area[1])
            mean[0] = lo[0] = hi[0] = mean[1] - s * area[1]
        for name, a, b in zip(('area', 'mean density', 'least density', 'greatest density', 'enclosed fraction'), got,
                              (area, mean, lo, hi, inside)):
            same(name, a, b, 1e-6, atol=1e-7 * max(abs(b).max(), 1e-300), ctx=str(case))
        expect((img == keep).all(), 'image changed')
        other = tg.density_vs_emittance(m, img * 1e6, t, dE, **kw)
        for a, b, s in zip(other, got, (1, 1e6, 1e6, 1e6, 1)):
            same('scaled image', a, b * s, 1e-7, atol=1e-9 * max(abs(b).max() * s, 1e-300), ctx=str(case))
        return dict(states=2 * points, transitions=2 * points * n, traces=2)

    kinds, iks = ('above', 'ramp', 'fall', 'h4', 'ion'), ('round', 'flat', 'tilt', 'hollow', 'rand', 'step')
    den = [[k, i, n, f, p] for k in kinds for i in iks for n in ((16, 31) if not th else (16, 17, 31, 48))
           for f in (None, 0, 2) for p in (7, 40)] + [['above', 'round', 24, 0, 100]]
    c.part('densities', den, run_density)

    def run_clip(case):
        kind, n, frame, points, frac, npart, default = case
        m, t, dE = setting(kind, n, 0.37 if npart == 12 else 0.0)
        turn = frame * m.dturns
        if default:
            m.machine_ref_frame = frame
        u = potential(m, turn)
        g = m.phi0[turn] + np.linspace(-np.pi, np.pi, 1000)
        amps = np.linspace(0, u(g).min(), points)
        k = np.arange(npart)
        x = np.stack([(k * (0.37 + 0.1 * f) * n / 7 + 0.13) % (n - 1) for f in range(m.nprofiles)], 1)
        y = np.stack([(k * k * 0.61 + 0.29 * f + 0.07) % n for f in range(m.nprofiles)], 1)
        if npart > 60:
            x, y = np.floor(x) + 0.5, np.floor(y) + 0.5
        w = 0.5 + 0.4 * np.cos(k * 1.1)
        keep = (x.copy(), y.copy(), w.copy())
        area = curves(m, turn, t, dE, np.ones((n, n)), amps)[0]
        target = frac * area.max()
        hit = [i for i in range(points) if area[i] >= target]
        sel = hit[0] if hit else points - 1
        if min(abs(area - target)) < 1e-9 * target:
            return dict(states=0, transitions=0, traces=0)
        v = u(g[g < m.phi0[turn]])
        o = np.argsort(v)
        left = np.interp(amps[sel], v[o], g[g < m.phi0[turn]][o])
        px = (t - m.synch_part_x * (t[1] - t[0])) * m.h_num * m.omega_rev0[turn] + m.phi0[turn]
        h = heights(m, turn, px, left)
        kw = {} if default else dict(idx_frame=frame)
        if points != 100:
            kw['n_points_amplitude'] = points
        W, H, E = tg.tomo_weight_clipping(m, t, dE, x, y, w, target, **kw)
        ctx = str(case)
        same('contour', H, h, 1e-7, atol=1e-7 * h.max(), ctx=ctx)
        cx, cy, de = x[:, frame], y[:, frame], dE[1] - dE[0]
        zero = np.zeros(npart, bool)
        ends = []
        for i in range(n - 1):
            col = (cx >= i) & (cx <= i + 1)
            hi, lo = (h[i] - dE[0]) / de, (-h[i] - dE[0]) / de
            if min(np.abs(cy - hi).min(), np.abs(cy - lo).min()) < 1e-6:
                return dict(states=0, transitions=0, traces=0)
            zero |= col & ((cy >= hi) | (cy <= lo))
            ins = np.flatnonzero(col & (cy < hi) & (cy > lo))
            if len(ins):
                ends.append((cy[ins].min(), cy[ins].max()) if len(ins) > 1 else (cy[ins[0]],))
        if zero.all():
            return dict(states=0, transitions=0, traces=0)
        want = np.where(zero, 0.0, w)
        want *= w.sum() / want.sum()
        same('weights', W, want, 1e-9, ctx=ctx)
        flat = [v for e in ends for v in e]
        expect(len(E) == len(flat), f'{len(E)} extreme particles instead of {len(flat)} {ctx}')
        same('extreme particles', cy[np.asarray(E, int)], flat, 1e-12, ctx=ctx) if flat else None
        expect((x == keep[0]).all() and (y == keep[1]).all() and (w == keep[2]).all(), 'arguments changed')
        return dict(states=npart, transitions=npart * n, traces=1)

    clip = [[k, n, f, p, a, np_, d] for k in kinds for n in (16, 21) for f in (0, 2) for p in (8, 100)
            for a in (0.0123, 0.2, 0.5, 0.83, 1.7) for np_ in (5, 12, 40, 300) for d in (False, True)]
    c.part('clipping', clip, run_clip)


main(body, 'C23', assumptions=[
    'Single RF system with constant voltage (the analysis functions take the voltage of the reference time); density '
    'curves and clipping above transition and with an image that contains the whole bucket, as the functions require.',
    'Trajectories are located on the grid of 1000 phases the functions use; matched areas are compared to 0.4%.'])
