"""C01: tracking equals the turn-by-turn map, exhaustively over shapes,
start profiles, RF kinds and precisions."""
from tracklib import *


def body(c, lib):
    lib.set_num_threads(2)
    from longitudinal_tomography.tracking.tracking import Tracking
    th = c.thorough

    def check_track(m, rec, dphi, dE, single, ctx, tol=None, form='tuple', delta=0):
        precision(single)
        tol = tol or (3e-3 if single else 1e-9)
        dt = np.float32 if single else np.float64
        a, b = dphi.copy(), dE.copy()
        arg = {'tuple': lambda: (a, b), 'array': lambda: np.array([a, b]),
               'list': lambda: (a.tolist(), b.tolist()),
               'strided': lambda: (np.repeat(a, 2)[::2], np.repeat(b, 3)[::3]),
               'f32': lambda: (a.astype(np.float32), b.astype(np.float32)),
               'fortran': lambda: np.asfortranarray(np.array([a, b]))}[form]()
        keep = [np.array(v, copy=True) for v in arg]
        tr = Tracking(m)
        x, y = tr.track(rec, arg, deltaturn=delta) if delta else tr.track(rec, arg)
        for v, k in zip(arg, keep):
            expect(np.array_equal(np.asarray(v), k), 'initial arrays modified ' + ctx)
        r = rec if rec >= 0 else rec + m.nprofiles
        d0, e0 = keep[0].astype(dt).astype(float), keep[1].astype(dt).astype(float)
        X, Y = model_of(m, d0, e0, r, delta)
        expect(x.shape == X.shape and y.shape == Y.shape, f'shape {x.shape} {ctx}')
        expect(x.dtype == dt and y.dtype == dt, f'dtype {x.dtype} {ctx}')
        expect(delta or np.array_equal(x[r], d0.astype(dt)) and np.array_equal(y[r], e0.astype(dt)),
               'start profile does not hold the initial distribution ' + ctx)
        atx = tol * max(1.0, np.abs(X).max())
        aty = tol * max(np.abs(Y).max(), 1e-3)
        same('phase', x, X, tol, atx, ctx)
        same('energy', y, Y, tol, aty, ctx)
        expect(np.array_equal(tr.init_dphi, d0.astype(dt))
               and np.array_equal(tr.init_denergy, e0.astype(dt)), 'init attributes ' + ctx)

    # 1. every shape, start profile, RF kind, precision
    P, D = (8, 7) if th else (6, 5)
    cases = [[p, d, k] for p in range(1, P + 1) for d in range(1, D + 1) for k in KINDS]

    def run_grid(case):
        p, d, k = case
        n = turns = 0
        for q in (1, 3):
            m = synth(p, d, k, q)
            for rec in range(-p, p):
                for npart in (1, 2, 9):
                    dphi, dE = cloud(npart)
                    for single in (False, True):
                        for form in (('tuple', 'array', 'list', 'strided', 'f32', 'fortran')
                                     if npart == 2 and q == 1 else ('tuple',)):
                            check_track(m, rec, dphi, dE, single,
                                        f'{case} q={q} rec={rec} n={npart} single={single} {form}',
                                        form=form)
                            n += 1
                            turns += d * (p - 1)
            for bad in (p, p + 1, -p - 1, -p - 2, 10 * p):
                for single in (False, True):
                    precision(single)
                    try:
                        Tracking(m).track(bad, cloud(3))
                    except Exception:
                        n += 1
                        continue
                    raise Violation(f'start profile {bad} of {p} accepted')
        return dict(states=n, transitions=turns, traces=n)

    c.part('all_shapes_and_starts', cases, run_grid, chunk=1)

    # 1b. starting between two profiles
    def run_delta(case):
        p, d, k = case
        n = turns = 0
        for q in (1, 3):
            m = synth(p, d, k, q)
            for rec in range(-p, p):
                for delta in deltas(m, rec % p):
                    for single in (False, True):
                        check_track(m, rec, *cloud(4), single, f'{case} q={q} rec={rec} delta={delta} single={single}',
                                    delta=delta)
                        n += 1
                        turns += d * (p - 1)
                for bad in (d, -d, d + 1, -2 * d) + tuple(x for x in range(1 - d, d) if x and x not in deltas(m, rec % p)):
                    for single in (False, True):
                        precision(single)
                        try:
                            Tracking(m).track(rec, cloud(3), deltaturn=bad)
                        except Exception:
                            n += 1
                            continue
                        raise Violation(f'start {bad} turns off profile {rec} of {p} ({d} turns each) accepted')
        precision(False)
        return dict(states=n, transitions=turns, traces=n)

    c.part('starts_between_profiles', [[p, d, k] for p, d, k in cases if d > 1], run_delta, chunk=1)

    # any kind of number for the parameters that are not per turn
    NUM = {'float': float, 'int': lambda v: int(round(v)), 'f64': np.float64, 'f32': np.float32, 'i64': lambda v: np.int64(round(v)),
           'i32': lambda v: np.int32(round(v)), 'zero-d': np.array, 'f16': np.float16}

    def run_numbers(case):
        p, d, kind, a, b = case
        n = 0
        for rec in range(p):
            for single in (False, True):
                m = synth(p, d, kind)
                m.h_ratio, m.phi12 = NUM[a](m.h_ratio), NUM[b](m.phi12)
                check_track(m, rec, *cloud(5), single, f'{case} rec={rec} single={single}')
                if a in ('float', 'i64'):
                    m.dturns, m.nprofiles, m.q = np.int64(m.dturns), np.int32(m.nprofiles), np.int16(m.q)
                    check_track(m, np.int64(rec), *cloud(5), single, f'{case} rec={rec} single={single}, other integers')
                n += 1
        return dict(states=n, transitions=n * d * (p - 1), traces=n)

    c.part('number_types', [[p, d, k, a, b] for p, d in ((2, 1), (3, 2)) for k in ('single', 'double', 'neg') for a in NUM for b in NUM],
           run_numbers)

    # 2. single-particle phase space: every point of a coordinate grid
    gx = np.linspace(-9.5, 9.5, 39 if not th else 153)
    gy = np.linspace(-3.0, 3.0, 25 if not th else 61)
    gcases = [[k, rec, s] for k in KINDS for rec in (0, 2, 4) for s in (False, True)]

    def run_points(case):
        k, rec, single = case
        m = synth(5, 3, k)
        A, B = np.meshgrid(gx, gy)
        check_track(m, rec, A.ravel(), B.ravel(), single, str(case), tol=5e-3 if single else 1e-9)
        return dict(states=A.size, transitions=A.size * 12, traces=A.size)

    c.part('phase_space_grid', gcases, run_points)

    # phases many periods away (particles of neighbouring buckets, debunched beam)
    def run_far(case):
        k, rec, single, off = case
        m = synth(3, 2, k)
        A, B = np.meshgrid(off + gx[::2], gy[::4])
        check_track(m, rec, A.ravel(), B.ravel(), single, str(case), tol=5e-3 if single else 1e-7)
        return dict(states=A.size, transitions=A.size * 4, traces=A.size)

    far = [[k, rec, s, sg * o] for k in KINDS for rec in (0, 1, 2) for s in (False, True) for sg in (1, -1)
           for o in ((20.0, 31.4, 45.0, 64.0, 100.0) if s else (20.0, 31.4, 45.0, 64.0, 100.0, 256.0, 1e3, 1e4, 1e5))]
    c.part('far_phases', far, run_far)

    # 3. particle-count and turn-count ladders
    lc = [['n', n, 1, s] for n in ladder(300, 17, (1000, 10007, 100003)) for s in (False, True)]
    lc += [['t', d, r, s] for d in list(range(1, 41)) + [63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500]
           for r in (0, 1, 2) for s in (False, True)]
    lc += [['p', p, r, s] for p in list(range(1, 41)) + [63, 64, 65, 100, 127, 128, 129, 150, 256, 257]
           for r in sorted({0, 1 % p, p // 2, p - 1}) for s in (False, True)]
    # long records, every start profile (in steps) of many profiles by many turns
    for p, d in ((10, 5), (12, 12), (35, 3), (40, 12), (100, 12), (150, 5), (60, 40), (16, 100), (33, 33)):
        lc += [['pd', [p, d], r, s] for r in sorted({0, 1, 2, p // 3, p // 2, p - 2, p - 1}) for s in (False, True)]

    def run_ladder(case):
        w, v, rec, single = case
        if w == 'n':
            m, npart = synth(3, 2, 'double'), v
        elif w == 't':
            m, npart = synth(3, v, 'turn'), 5
        elif w == 'p':
            m, npart = synth(v, 2, 'double'), 5
        else:
            m, npart = synth(v[0], v[1], 'turn', 2), 6
        n = m.dturns * (m.nprofiles - 1)
        dphi, dE = cloud(npart)
        if n > 20:      # keep long motion regular: errors then grow only linearly
            f = 20.0 / n
            m.drift_coef = m.drift_coef * f
            m.vrf1_at_turn, m.vrf2_at_turn, m.deltaE0 = (
                m.vrf1_at_turn * f, m.vrf2_at_turn * f, m.deltaE0 * f)
        check_track(m, rec, dphi, dE, single, str(case), tol=5e-3 if single else 1e-9)
        return dict(states=1, transitions=n, traces=1)

    c.part('count_ladders', lc, run_ladder)

    # 4. physical machines, automatic distribution
    pc = [[i, p, d, s] for i in range(len(PHYS_SET)) for p in (2, 3, 5) for d in (1, 3) for s in (False, True)]

    def run_phys(case):
        i, p, d, single = case
        precision(False)
        kw = dict(PHYS_SET[i])
        m = machine(nprofiles=p, dturns=d, snpt=1, nbins=12, synch_part_x=6.0,
                    **{**kw, 'dtbin': kw.get('dtbin', PHYS['dtbin']) * 20 / 12})
        n = 0
        for rec in range(-p, p):
            precision(single)
            dt = np.float32 if single else np.float64
            tr = Tracking(m)
            x, y = tr.track(rec)
            r = rec % p
            d0, e0 = tr.init_dphi.astype(float), tr.init_denergy.astype(float)
            expect(np.array_equal(x[r], d0.astype(dt)) and np.array_equal(y[r], e0.astype(dt)),
                   f'start profile differs from the distribution {case}')
            c0 = tr.particles.coordinates_dphi_denergy
            expect(len(c0[0]) == x.shape[1], 'particle count')
            X, Y = model_of(m, d0, e0, r)
            tol = 2e-3 if single else 1e-9
            same('phase', x, X, tol, tol * np.abs(X).max(), str(case))
            same('energy', y, Y, tol, tol * np.abs(Y).max(), str(case))
            n += 1
            for delta in deltas(m, r):
                tr = Tracking(m)
                x, y = tr.track(rec, deltaturn=delta)
                X, Y = model_of(m, tr.init_dphi.astype(float), tr.init_denergy.astype(float), r, delta)
                same('phase', x, X, tol, tol * np.abs(X).max(), f'{case} delta={delta}')
                same('energy', y, Y, tol, tol * np.abs(Y).max(), f'{case} delta={delta}')
                n += 1
        return dict(states=n, transitions=n * d * (p - 1), traces=n)

    c.part('physical_machines', pc, run_phys)


main(body, 'C01', assumptions=[
    'phases up to |dphi|=1e5 rad (single precision: 1e2), beyond which the fast sine approximation loses accuracy',
    'reference model: lib/model.py track, compared to 1e-9 (double) / 3e-3 (single)'])
