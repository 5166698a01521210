"""C13: pre-processing of measured profiles.  Rebinning, cutting, automatic
cuts and filtering over complete small universes against direct definitions;
the synchronous-position fit over shifts, scales and machines."""
from tracklib import *


def body(c, lib):
    lib.set_num_threads(1)
    from longitudinal_tomography.data import pre_process as pp, data_treatment as dt
    from longitudinal_tomography.data.profiles import Profiles
    th = c.thorough

    # ------------------------------------------------------------ rebin
    def ref_rebin(w, r):
        n = w.shape[1]
        full = n // r
        cols = [w[:, i * r:(i + 1) * r].sum(axis=1) for i in range(full)]
        if n % r:
            i0 = max(full - 1, 0) * r        # mean of the last full group and the rest, scaled to r bins
            cols.append(w[:, i0:].sum(axis=1) * (r / (n - i0)))
        return np.array(cols).T

    rb = [[n, nprof] for n in (list(range(1, 60)) + [64, 100, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1024])
          for nprof in (1, 2, 3, 5, 20)]
    if th:
        rb += [[n, p] for n in range(60, 400) for p in (1, 4)]

    def run_rebin(case):
        n, nprof = case
        k = 0
        base = 1.0 + lcg(nprof * n, 977, 5).reshape(nprof, n)
        rs = list(range(1, n + 4)) if n < 60 else [1, 2, 3, 4, 5, 7, 8, 16, 31, n // 2, n // 2 + 1, n - 1, n, n + 1]
        for r in rs:
            want = ref_rebin(base, r)
            for f in (pp.rebin, dt.rebin):
                for kind in ('f8', 'f4', 'i8', 'list', 'F', 'neg'):
                    if kind != 'f8' and n > 60:
                        continue
                    src = {'f8': base, 'f4': base.astype('f4'), 'i8': base.astype(int), 'list': base.tolist(),
                           'F': np.asfortranarray(base), 'neg': -base}[kind]
                    keep = np.array(src)
                    got, d = f(src, r)
                    expect(d is None, f'bin width invented {d}')
                    w = -want if kind == 'neg' else want
                    same('rebinned', got, w, 1e-5 if kind == 'f4' else 1e-12, ctx=f'n={n} r={r} {kind}')
                    expect(np.array_equal(keep, np.array(src)), 'caller data modified')
                    if n % r == 0:
                        expect(got.shape == (nprof, n // r) and
                               abs(np.sum(got) - np.sum(keep, dtype=float)) <= 1e-5 * abs(np.sum(keep, dtype=float)),
                               f'signal not conserved n={n} r={r}')
                    else:
                        expect(got.shape == (nprof, n // r + 1), f'shape {got.shape} n={n} r={r}')
                    k += 1
                for d in (1e-9, 2.5e-8):
                    for sx in (None, 0.0, 3.5, -1.0, 117.25):
                        out = f(base, r, d) if sx is None else f(base, r, d, sx)
                        expect(len(out) == (2 if sx is None else 3), f'{len(out)} values returned')
                        same('bin width', out[1], d * r, 1e-12)
                        if sx is not None:
                            same('synchronous bin', out[2], sx / r, 1e-12, ctx=f'{sx} {r}')
                        same('rebinned', out[0], want, 1e-12)
                        k += 1
                out = f(base, r, synch_part_x=5.0)
                expect(len(out) == 3 and out[1] is None, 'bin width invented')
                # a constant signal has the same density in every bin, also the last one
                flat = f(np.full((nprof, n), 2.0), r)[0]
                same('flat signal', flat, np.full(flat.shape, 2.0 * r), 1e-12, ctx=f'n={n} r={r}')
        return dict(states=len(rs), transitions=k, traces=k)

    c.part('rebin', rb, run_rebin)

    # ------------------------------------------------------------ cut
    cut = [[n, nprof] for n in range(1, 14 if not th else 40) for nprof in (1, 3)]

    def run_cut(case):
        n, nprof = case
        w = np.arange(nprof * n, dtype=float).reshape(nprof, n)
        k = 0
        for l in range(-3, n + 3):
            for r in range(-n - 3, n + 4):
                rr = r if r >= 0 else n + r
                ok = l >= 0 and l < rr <= n and rr >= 0 and (r >= 0 or -n <= r <= -1)
                for src in (w, w.tolist()):
                    keep = np.array(src)
                    try:
                        got = pp.cut_waterfall(src, l, r)
                    except ValueError:
                        expect(not ok, f'cut {l}:{r} of {n} refused')
                        k += 1
                        continue
                    expect(ok, f'impossible cut {l}:{r} of {n} bins accepted')
                    expect(np.array_equal(got, keep[:, l:rr]), f'cut {l}:{r} of {n}: {got}')
                    expect(np.array_equal(keep, np.array(src)), 'caller data modified')
                    k += 1
        return dict(states=k, transitions=k, traces=k)

    c.part('cut', cut, run_cut)

    # ------------------------------------------------------------ automatic cuts
    def judge_cuts(w, thr, margin, asl=False):
        keep = w.copy()
        n = w.shape[1]
        l, r = pp.get_cuts(w.tolist() if asl else w, threshold=thr, margin=margin)
        d = np.abs(np.diff(w, axis=1)).sum(axis=0)
        d = d - d.min()
        t = d.max() * 0.3 if thr is None else thr
        if np.any(np.abs(d - t) < 1e-9 * max(1.0, d.max())) and thr is None and d.max() > 0:
            return
        hit = np.flatnonzero(d > t)
        ctx = f'w={w} threshold={thr} margin={margin}: {l},{r}'
        expect(0 <= l < r <= n, 'cuts outside the measurement ' + ctx)
        if len(hit):
            expect(l == max(0, hit[0] - margin), 'left cut ' + ctx)
            expect(r in (min(n, hit[-1] + 2 + margin), min(n, hit[-1] + 3 + margin)), 'right cut ' + ctx)
        else:
            expect(l == 0 and r == n, 'nothing to cut ' + ctx)
        expect(np.array_equal(keep, w), 'caller data modified')
        same('usable cut', pp.cut_waterfall(w, l, r), keep[:, l:r], 0)

    gc = [[n, a, b] for n in range(2, 9 if not th else 11) for a, b in blocks(3 ** n, 200)]

    def run_cuts(case):
        n, a, b = case
        k = 0
        for i in range(a, b):
            v, j = [], i
            for _ in range(n):
                j, q = divmod(j, 3)
                v.append((0.0, 1.0, 2.5)[q])
            w = np.array([v])
            for margin in (0, 1, 2, n, n + 5):
                judge_cuts(w, None, margin)
                k += 1
            judge_cuts(np.array([v, v[::-1]]), None, 1)
            judge_cuts(w, 1.2, 1)
            judge_cuts(w, 0, 0, True)
            k += 3
        return dict(states=b - a, transitions=k, traces=k)

    c.part('automatic_cuts', gc, run_cuts)

    # position of one bunch, all positions, widths and margins
    pos = [[n, m] for n in (30, 61, 100) for m in (0, 1, 5, 20, 60)]

    def run_pos(case):
        n, margin = case
        k = 0
        for width in (1, 2, 5, 12):
            for at in range(0, n - width + 1):
                w = np.full((4, n), 0.25)
                w[:, at:at + width] += np.hanning(width + 2)[1:-1] * 10 if width > 2 else 10
                judge_cuts(w, None, margin)
                k += 1
        # default margin
        w = np.zeros((2, n))
        w[:, n // 2] = 5.0
        l, r = pp.get_cuts(w)
        expect(l == max(0, n // 2 - 1 - 20) and r in (min(n, n // 2 + 2 + 20), min(n, n // 2 + 3 + 20)),
               f'default margin {l} {r}')
        return dict(states=k, transitions=k, traces=k)

    c.part('bunch_positions', pos, run_pos)

    # ------------------------------------------------------------ filter
    fa = [0.02, 0.3, 1.0, 1.1, 10.0]
    fl = [[n, a, b] for n in range(1, 6 if not th else 8) for a, b in blocks(len(fa) ** n, 100)]

    def run_filter(case):
        n, a, b = case
        k = 0
        for i in range(a, b):
            s, j = [], i
            for _ in range(n):
                j, q = divmod(j, len(fa))
                s.append(fa[q])
            s = np.array(s)
            w = s[:, None] * np.array([0.25, 0.5, 0.25]) * (1 + 0.0 * s[:, None])
            w = w + 0.0
            xp = np.arange(4 * n).reshape(4, n)
            yp = xp * 2 + 1
            tot = w.sum()
            q = w.sum(axis=1) / tot
            t = q.max() - q.min() - q.mean()
            if np.any(np.abs(q - t) < 1e-9):
                continue
            good = q > t
            keep = w.copy()
            g = w[good] / tot
            ctx = f'sums {s}'
            out = pp.filter_profiles(w)
            expect(len(out) == 1, 'one result expected')
            same('filtered', out[0], g, 1e-12, ctx=ctx)
            out = pp.filter_profiles(w, xp, yp)
            same('filtered', out[0], g, 1e-12, ctx=ctx)
            expect(np.array_equal(out[1], xp[:, good]) and np.array_equal(out[2], yp[:, good]), f'coordinates {ctx}')
            for rec in range(n):
                removed = n - int(good.sum())
                try:
                    out = pp.filter_profiles(w, xp, yp, rec)
                    expect(rec >= removed and out[3] == rec - removed, f'profile {rec} became {out[3]} {ctx}')
                except ValueError:
                    expect(rec < removed, f'profile {rec} refused {ctx}')
                k += 1
            for kw in (dict(xp=xp), dict(yp=yp)):
                try:
                    pp.filter_profiles(w, **kw)
                    raise Violation('only one coordinate accepted')
                except ValueError:
                    pass
            expect(np.array_equal(keep, w) and np.array_equal(xp, np.arange(4 * n).reshape(4, n)), 'caller data modified')
            # the shape of a profile does not matter, only its total
            w2 = np.zeros_like(w)
            w2[np.arange(n), np.arange(n) % 3] = s
            same('selection', pp.filter_profiles(w2)[0].sum(axis=1), g.sum(axis=1), 1e-9, ctx=ctx)
            # scaling the measurement changes nothing
            same('scaled', pp.filter_profiles(w * 37.5)[0], g, 1e-9, ctx=ctx)
            k += 5
        return dict(states=b - a, transitions=k, traces=k)

    c.part('filter', fl, run_filter)

    # empty profiles among equal bunches, every subset
    es = [[n] for n in range(2, 11 if not th else 14)]

    def run_empty(case):
        n = case[0]
        k = 0
        for mask in range(1, 2 ** n):
            keepm = np.array([(mask >> i) & 1 for i in range(n)], bool)
            for noise in (0.0, 1e-3):
                w = np.outer(np.where(keepm, 1.0, noise), [0.2, 0.5, 0.3])
                if noise and keepm.all():
                    continue
                got = pp.filter_profiles(w)[0]
                expect(len(got) == keepm.sum(), f'{len(got)} of {keepm.sum()} profiles kept, mask {keepm} noise {noise}')
                same('kept', got, w[keepm] / w.sum(), 1e-12)
                k += 1
        return dict(states=k, transitions=k, traces=k)

    c.part('empty_profiles', es, run_empty)

    # ------------------------------------------------------------ fit of the synchronous position
    shapes = ['parabola', 'hann', 'skew', 'double', 'flat', 'satellites']

    def bunch(shape, width):
        u = (np.arange(width) + 0.5) / width
        if shape == 'parabola':
            return 1 - (2 * u - 1) ** 2
        if shape == 'hann':
            return np.sin(np.pi * u) ** 2
        if shape == 'skew':
            return u ** 1.5 * (1 - u) * 3
        if shape == 'double':
            return np.sin(np.pi * u) ** 2 + 0.6 * np.sin(2 * np.pi * u) ** 2 * np.sin(np.pi * u)
        return np.minimum(1.0, 4 * np.minimum(u, 1 - u)) + 0.01 * u

    def feet(p):
        t = 0.15 * p.max()
        m = int(np.argmax(p))
        lo = m
        while p[lo] >= t:
            lo -= 1
        up = m
        while p[up] >= t:
            up += 1
        lo, up = lo + 1, up - 1

        def foot(idx):
            x, y = idx + 0.5, p[idx]
            b = ((x - x.mean()) * (y - y.mean())).sum() / ((x - x.mean()) ** 2).sum()
            return x.mean() - y.mean() / b
        return foot(np.arange(lo - 2, lo + 2)), foot(np.arange(up - 1, up + 3))

    phys = [dict(), dict(vrf2=1200.0, h_ratio=2.0, phi12=0.4), dict(bdot=0.8, vrf1=5000.0),
            dict(charge=2, vrf1=3000.0, h_num=2), dict(bdot=0.3, vrf1=6000.0, vrf2=1500.0, h_ratio=2.0, phi12=0.2),
            # voltages changing in time
            dict(bdot=0.3, vrf1=6000.0, vrf1dot=2e7, dturns=30), dict(vrf1=9000.0, vrf1dot=-3e7, dturns=30, bdot=0.2,
                                                                      machine_ref_frame=1),
            dict(bdot=0.3, vrf1=6000.0, vrf1dot=2e7, vrf2=1500.0, vrf2dot=6e6, h_ratio=2.0, phi12=0.2, dturns=30,
                 machine_ref_frame=3)]
    fit = [[sh, wd, ph, ref] for sh in shapes for wd in (12, 17, 24, 31) for ph in range(len(phys)) for ref in (0, 2, 3)]

    def run_fit(case):
        sh, wd, ph, ref = case
        n = 60
        k = 0
        first = None
        for shift in range(4, n - wd - 4):
            w = np.zeros((4, n))
            for i in range(4):
                # the other profiles hold something else: they must not matter
                w[i, 5:5 + wd] = 0.3 * bunch('hann', wd)
            w[ref] = 0.0
            w[ref, shift:shift + wd] = bunch('hann' if sh == 'satellites' else sh, wd)
            if sh == 'satellites':      # the bunch is delimited from its maximum outwards
                for at in (shift - 4, shift + wd + 3):
                    if 0 <= at < n:
                        w[ref, at] = 0.3
            m = machine(**dict(phys[ph], nprofiles=4, nbins=n, beam_ref_frame=ref, dtbin=4e-9 if ph != 3 else 2e-9))
            keep = w.copy()
            res = pp.fit_synch_part_x(w, m)
            expect(np.array_equal(keep, w), 'caller data modified')
            expect(len(res) == 3, 'three results')
            fl_, fu_ = feet(w[ref])
            same('lower foot', res[1], fl_, 1e-6, ctx=f'{case} shift={shift}')
            same('upper foot', res[2], fu_, 1e-6, ctx=f'{case} shift={shift}')
            # equal potential at both ends of the bunch
            t = ref * m.dturns
            per = m.h_num * m.omega_rev0[t] * m.dtbin
            L = (fu_ - fl_) * per
            pl = m.phi0[t] - (res[0] - fl_) * per
            v1, v2 = m.vrf1_at_turn[t], m.vrf2_at_turn[t]
            vs = v1 * np.sin(m.phi0[t]) + v2 * np.sin(m.h_ratio * (m.phi0[t] - m.phi12))

            def u(p):
                return v1 * np.cos(p) + v2 / m.h_ratio * np.cos(m.h_ratio * (p - m.phi12)) + p * vs
            expect(abs(u(pl + L) - u(pl)) <= 1e-3 * (abs(v1) + abs(v2)), f'not a synchronous position {case} {res}')
            if first is None:
                first = np.array(res) - shift
            same('shifted fit', np.array(res) - shift, first, 1e-6, ctx=f'{case} shift={shift}')
            for scale in (1e-3, 7.0, 1e6):
                same('scaled fit', pp.fit_synch_part_x(w * scale, m), res, 1e-6, ctx=f'{case} scale={scale}')
                k += 1
            pr = Profiles(m, 1e-9, w)
            same('profiles route', pp.fit_synch_part_x(pr), res, 1e-9)
            same('old route', dt.fit_synch_part_x(pr), res, 1e-9)
            mm = machine(**dict(phys[ph], nbins=n, beam_ref_frame=ref))
            mm.load_fitted_synch_part_x_ftn(res)
            expect((mm.synch_part_x, mm.fitted_synch_part_x, mm.bunchlimit_low, mm.bunchlimit_up) ==
                   (res[0], res[0], res[1], res[2]), 'fit not taken over by the machine')
            k += 4
        return dict(states=n - wd - 8, transitions=k, traces=k)

    c.part('fit', fit, run_fit)


main(body, 'C13', assumptions=[
    'fit: the reference profile falls below 15 % of its maximum on both sides, root finding to 1e-4 rad',
    'filter: total signals within 1e-9 of the threshold are skipped'])
