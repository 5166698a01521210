"""C18: all small images over a density alphabet, all fractions of a grid, all
rearrangements of cells; spreads against their definition."""
from fractions import Fraction
from tracklib import *


def body(c, lib):
    from longitudinal_tomography.data import post_process as pp
    from longitudinal_tomography.data import data_treatment as dtr
    from longitudinal_tomography import exceptions as expt
    th = c.thorough
    FR = (0, 1, 5, 10, 25, 33, 50, 66.6, 75, 90, 95, 99, 99.9, 100)

    def frac(h, t, e, f):
        return pp.emittance_fractional(h, t, e, fraction=f)

    def minimal(h, f):
        """Smallest number of cells holding the fraction, between the numbers
        that rounding could make of it."""
        v = sorted((Fraction(float(x)) for x in h.ravel()), reverse=True)
        tot = sum(v)
        need = tot * Fraction(f) / 100
        eps = tot * Fraction(1, 10 ** 11)
        s, lo, mid = Fraction(0), None, None
        for i, x in enumerate(v):
            s += x
            if lo is None and s >= need - eps:
                lo = i + 1
            if mid is None and s >= need:
                mid = i + 1
            if s >= need + eps:
                return lo, mid, i + 1
        return lo, mid, len(v)

    # convention: k cells or the k-1 full cells below the threshold
    cal = np.array([[4.0, 3.0], [2.0, 1.0]])
    g = frac(cal, np.array([0.0, 1.0]), np.array([0.0, 1.0]), 60)
    conv = 1 if abs(g - 1) < 1e-9 else 0

    def axes(nt, ne, dt=2.0, de=0.25, t0=5.0, e0=-3.0):
        return t0 + dt * np.arange(nt), e0 + de * np.arange(ne)

    def check_frac(h, f, ctx, scale=1.0):
        nt, ne = h.shape
        t, e = axes(nt, ne)
        g = frac(h * scale, t, e, f)
        lo, k, hi = minimal(h, f)
        cells = g / 0.5
        expect(abs(cells - round(cells)) < 1e-6, f'{cells} cells {ctx} {f}')
        expect(lo - conv <= round(cells) <= hi - conv, f'{f}%: {cells} cells, smallest set has {k} {ctx}')
        return g

    def std_true(h, b):
        mid = b + (b[1] - b[0]) / 2
        mean = (mid * h).sum() / h.sum()
        return np.sqrt((h * (mid - mean) ** 2).sum() / h.sum())

    def std_asis(h, b):
        mid = b + (b[1] - b[0]) / 2
        mean = mid * h / h.sum()
        return np.sqrt((h * (mid - mean) ** 2).sum() / h.sum())

    PC = 0.93827208816e9

    def dpp(s, E, m):
        p = np.sqrt(E ** 2 - m ** 2)
        return np.sqrt((E + s) ** 2 - m ** 2) / p - 1

    def close(a, b):
        return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-300)

    def check_rms(h, t, e, ctx):
        """Returns True if the recorded deviation of the spread shows."""
        E, m = 1.4e9, 0.938e9
        k0 = h.copy(), t.copy(), e.copy()
        r = pp.emittance_rms(h, t, e)
        full = pp.post_process(h, t, e, E, m)
        d = pp.rms_dpp(h.sum(axis=0), e, E, m)
        expect(set(full) == {'emittance_rms', 'emittance_90', 'rms_dp/p'}, f'{full}')
        expect(close(full['emittance_rms'], r), f'report {full} but emittance_rms {r} {ctx}')
        expect(close(full['rms_dp/p'], d), f'report {full} but rms_dpp {d} {ctx}')
        expect(close(full['emittance_90'], pp.emittance_90(h, t, e)), f'report {full} {ctx}')
        expect(close(full['emittance_90'], frac(h, t, e, 90)), f'report {full} {ctx}')
        d2 = pp.post_process(h, t, e, E)['rms_dp/p']
        expect(all(np.array_equal(a, b) for a, b in zip(k0, (h, t, e))), f'inputs modified {ctx}')
        out = []
        for S in (std_true, std_asis):
            st, se = S(h.sum(axis=1), t), S(h.sum(axis=0), e)
            # two small spreads: relative accuracy lost by cancellation
            tol = 1e-7 * max(abs(t).max() * abs(e).max(), 1e-300)
            # dp is a difference of two momenta: absolute rounding error of
            # about 1e-16 relative to the momentum
            out.append(abs(r - np.pi * st * se) <= 1e-7 * np.pi * st * se + 1e-9 * tol
                       and abs(d - dpp(se, E, m)) <= 1e-7 * d + 1e-14
                       and abs(d2 - dpp(se, E, PC)) <= 1e-5 * d2 + 1e-14)
        if out[0]:
            return False
        expect(out[1], f'rms {r}, dp/p {d}: expected {np.pi * std_true(h.sum(axis=1), t) * std_true(h.sum(axis=0), e)}, '
                       f'{dpp(std_true(h.sum(axis=0), e), E, m)} {ctx}')
        return True

    # ---- all small images
    img = []
    for nt, ne, al in ((2, 2, 5), (2, 3, 4), (3, 2, 4), (3, 3, 3)) + (((3, 3, 4), (2, 4, 4)) if th else ()):
        img += [[nt, ne, al, a, b] for a, b in blocks(al ** (nt * ne), 256)]
    ALPH = (0.0, 1.0, 3.0, 7.5, 0.125)

    def run_img(case):
        nt, ne, al, a, b = case
        n = 0
        known = False
        for i in range(max(a, 1), b):
            h = np.array(ALPH)[xp_of(i, nt, ne, al)]
            ctx = str(h.tolist())
            last = 0.0
            for f in FR:
                g = check_frac(h, f, ctx)
                expect(g >= last, f'emittance shrinks at {f}% {ctx}')
                last = g
                n += 1
            f = FR[i % len(FR)]
            t, e = axes(nt, ne)
            g = frac(h, t, e, f)
            lo, k, hi = minimal(h, f)
            amb = lo != hi
            for s in (1e-6, 0.3, 1e9):
                g2 = frac(h * s, t, e, f)
                expect(close(g, g2) or (amb and abs(g - g2) < (hi - lo) * 0.51), f'{f}%: {g} scaled by {s} {g2} {ctx}')
            perms = itertools.permutations(range(nt * ne)) if nt * ne <= 4 else \
                (range(nt * ne)[::-1], np.argsort(lcg(nt * ne, 1 << 20, i)))
            for p in perms:
                q = np.ascontiguousarray(h.ravel()[list(p)].reshape(nt, ne))
                g2 = frac(q, t, e, f)
                expect(close(g, g2) or (amb and abs(g - g2) < (hi - lo) * 0.51), f'{f}%: rearranged {g} {g2} {ctx}')
                n += 1
            # transposed, with cell size
            g2 = frac(np.ascontiguousarray(h.T), e if len(e) > 1 else np.array([0.0, 0.25]), t if nt > 1 else np.array([0.0, 2.0]), f) \
                if nt > 1 and ne > 1 else g
            expect(close(g, g2) or (amb and abs(g - g2) < (hi - lo) * 0.51), f'transposed {ctx}')
            if nt > 1 and ne > 1:
                for tt, ee in ((t, e), (t * 1e-9, e * 1e6), (np.arange(nt) - nt / 2, np.arange(ne) * 10.0 - 5 * ne)):
                    known |= check_rms(h, tt, ee, ctx)
                    n += 1
        if known:
            raise Known('histogram-spread', str(case), dict(states=n, transitions=n, traces=n))
        return dict(states=n, transitions=n, traces=n)

    c.part('small_images', img, run_img)

    # ---- larger images: sizes and shapes
    def run_big(case):
        nt, ne = case
        n = 0
        known = False
        for s in range(3):
            h = pattern((nt, ne), 5 + s, 0.0, 1.0) ** (1 + 2 * s)
            if s == 2:
                h[: nt // 2] = 0
                h[-1, -1] = 5
            last = 0
            for f in FR:
                g = check_frac(h, f, str(case))
                expect(g >= last, f'emittance shrinks at {f}% {case}')
                last = g
                n += 1
            g = check_frac(h, 100, str(case), 1 / 3.0)
            known |= check_rms(h, *axes(nt, ne), str(case))
        if known:
            raise Known('histogram-spread', str(case), dict(states=n, transitions=n, traces=n))
        return dict(states=n, transitions=n, traces=n)

    big = [[a, b] for a in range(2, 26 if not th else 48) for b in range(2, 26 if not th else 48)]
    big += [[n, n] for n in (50, 63, 64, 65, 100, 128)] + [[2, 500], [500, 3]]
    c.part('image_sizes', big, run_big)

    # ---- bright and weak cells: images of a large dynamic range and of any total density
    def run_range(case):
        n, back, pat = case
        k = np.arange(n)
        h = np.full((n, n), back)
        if pat == 'point':
            h[n // 2, n // 3] = 1.0
        elif pat == 'row':
            h[n // 2] = 1.0
        elif pat == 'steps':
            h = back ** ((k[:, None] * n + k) / (n * n))
        else:
            h[0, 0] = h[-1, -1] = h[0, -1] = 1.0
        m, last = 0, -1.0
        v = np.cumsum(np.sort(h.ravel())[::-1]) / h.sum() * 100
        for f in sorted(list(FR) + [float(v[j] + v[j + 1]) / 2 for j in range(0, n * n - 1, max(1, n * n // 12))]):
            if f > 100:
                continue
            g = check_frac(h, f, str(case), 10.0 ** ((m % 5) * 30 - 60))
            expect(g >= last, f'emittance shrinks at {f}% {case}')
            last = g
            m += 1
        if check_rms(h, *axes(n, n), str(case)):
            raise Known('histogram-spread', str(case), dict(states=m, transitions=m, traces=m))
        return dict(states=m, transitions=m, traces=m)

    c.part('dynamic_range', [[n, b, p] for n in ((4, 9, 30) if not th else (4, 5, 9, 16, 30, 64))
                             for b in (1e-13, 1e-9, 1e-7, 1e-5, 1e-4, 1e-3, 1e-2, 0.1, 0.5)
                             for p in ('point', 'row', 'steps', 'corners')], run_range)

    # ---- the spread formulas themselves
    def run_form(case):
        s, E, m = case
        same('emittance', pp.emittance_rms(float(s), float(E)), np.pi * s * E, 1e-12)
        if E > m:
            g, w = pp.rms_dpp(s, E, m), dpp(s, E, m)
            expect(abs(g - w) <= 1e-12 + 1e-9 * abs(w), f'dp/p {g}, expected {w} {case}')
            p = np.sqrt(E ** 2 - m ** 2)
            lin = s * E / p ** 2
            if lin < 1e-4:
                expect(abs(g - lin) <= 0.01 * lin + 1e-12, f'dp/p {g} far from first order {lin}')
        return dict(states=1, transitions=2, traces=2)

    c.part('formulas', [[s, E, m] for s in (0, 1.0, 1e3, 5e5, 1e7) for E in (1, 1e9, 2e9, 2.6e10)
                        for m in (0.51e6, 0.938e9, 1.9e9)], run_form)

    # ---- refusals
    def run_ref(case):
        n = 0
        h = np.arange(12.0).reshape(3, 4)
        t, e = axes(3, 4)
        for f in (-1, -1e-9, 100.0001, 101, 1e9):
            try:
                frac(h, t, e, f)
                raise Violation(f'fraction {f} accepted')
            except ValueError:
                n += 1
        for a in range(1, 6):
            for b in range(1, 7):
                ok = (a, b) == (3, 4)
                for fn in (lambda x, y: pp.emittance_rms(h, x, y), lambda x, y: pp.post_process(h, x, y, 2e9)):
                    try:
                        fn(np.arange(a) * 1.0, np.arange(b) * 1.0)
                        expect(ok, f'axes {a} {b} accepted for {h.shape}')
                    except expt.UnequalArrayShapes:
                        expect(not ok, 'valid axes refused')
                    n += 1
                try:
                    pp.rms_dpp(h.sum(axis=0), np.arange(b) * 1.0, 2e9, 0.938e9)
                    expect(b == 4, f'energy axis {b} accepted')
                except expt.UnequalArrayShapes:
                    expect(b != 4, 'valid axis refused')
                n += 1
        return dict(states=n, transitions=n, traces=n)

    c.part('refusals', [[0]], run_ref)

    # ---- macroparticles: every support of small images
    sup = []
    for nt, ne in ((2, 2), (2, 3), (3, 2), (3, 3)):
        sup += [[nt, ne, a, b] for a, b in blocks(2 ** (nt * ne), 32)]

    def run_macro(case):
        nt, ne, a, b = case
        n = 0
        t, e = axes(nt, ne)
        for i in range(max(1, a), b):
            on = xp_of(i, nt, ne, 2)
            for kind in range(4):
                # off cells: empty or below the threshold
                off = (0.0, 1e-7, 0.009, 0.0)[kind]
                thr = (None, None, 0.05, 0.05)[kind]
                h = np.where(on == 1, 1.0 + 0.5 * lcg(nt * ne, 3, 2).reshape(nt, ne), off)
                if kind == 3:       # empty cells hold 4 % of the total each, the others at least 5 %
                    k = int((on == 0).sum())
                    h = np.where(on == 1, h, 0.04 * h.sum() / (1 - 0.04 * k))
                    if (h[on == 1] / h.sum()).min() < 0.051:
                        continue
                h0 = h.copy()
                np.random.seed(i)
                kw = {} if thr is None else dict(threshold=thr)
                dt, dE = dtr.density_to_macro(t, e, h, 64, **kw)
                expect(dt.shape == (64,) and dE.shape == (64,), f'number of macroparticles {dt.shape}')
                it = np.rint((dt - t[0]) / 2.0).astype(int)
                ie = np.rint((dE - e[0]) / 0.25).astype(int)
                expect(it.min() >= 0 and it.max() < nt and ie.min() >= 0 and ie.max() < ne, f'outside of the image {h}')
                expect((on[it, ie] == 1).all(), f'macroparticle in an empty cell {h.tolist()}')
                if kind == 3:       # and no cell above the threshold is left out
                    np.random.seed(i)
                    dt2, dE2 = dtr.density_to_macro(t, e, h, 3000, **kw)
                    hit = np.zeros((nt, ne), int)
                    np.add.at(hit, (np.rint((dt2 - t[0]) / 2.0).astype(int), np.rint((dE2 - e[0]) / 0.25).astype(int)), 1)
                    expect(np.array_equal(hit > 0, on == 1), f'cells reached {hit.tolist()} for {h.tolist()}')
                    want = np.where(on == 1, h, 0) / h[on == 1].sum()
                    expect((np.abs(hit / 3000 - want) < 0.1).all(), f'not sampled from the density {hit.tolist()} {h.tolist()}')
                expect(np.array_equal(h, h0), f'density modified {h0.tolist()} -> {h.tolist()}')
                if on.sum() == 1:
                    expect(np.abs(dt - t[it]).max() <= 1.0 and np.abs(dE - e[ie]).max() <= 0.125, 'outside of the cell')
                n += 1
        return dict(states=n, transitions=n * 64, traces=n)

    c.part('macroparticles', sup, run_macro)


main(body, 'C18', assumptions=[
    'The number of cells is accepted as the smallest number holding the fraction or one less, the same way in all '
    'cases; where the fraction is met exactly, rounding may decide.'])
