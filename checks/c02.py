"""C02: reversibility and independence of particles."""
from tracklib import *


def body(c, lib):
    lib.set_num_threads(2)
    from longitudinal_tomography.tracking.tracking import Tracking
    th = c.thorough

    def mk(kind, p, d):
        if isinstance(kind, int):
            kw = dict(PHYS_SET[kind])
            return machine(nprofiles=p, dturns=d, **kw)
        return synth(p, d, kind)

    def dist(kind, n):
        x, y = cloud(n)
        if isinstance(kind, int):
            return x * 0.4, y * 2e4
        return x, y

    # every pair (start, restart)
    P = 7 if th else 5
    cases = [[k, p, d] for k in list(KINDS) + list(range(len(PHYS_SET)))
             for p in range(2, P + 1) for d in ((1, 2, 3, 5, 8) if th else (1, 2, 4))]

    def run_rev(case):
        k, p, d = case
        precision(False)
        m = mk(k, p, d)
        x0, y0 = dist(k, 12)
        n = 0
        for a in range(p):
            for single in (False, True):
                precision(single)
                X, Y = Tracking(m).track(a, (x0, y0))
                tol = 3e-3 if single else 1e-9
                sx, sy = max(1.0, np.abs(X).max()), np.abs(Y).max()
                for b in range(p):
                    U, V = Tracking(m).track(b, (X[b], Y[b]))
                    same('phase', U, X, tol, tol * sx, f'{case} start {a} restart {b} single={single}')
                    same('energy', V, Y, tol, tol * sy, f'{case} start {a} restart {b} single={single}')
                    n += 1
        return dict(states=n, transitions=n * d * (p - 1), traces=n)

    c.part('all_restart_pairs', cases, run_rev, chunk=1)

    # the same over records of realistic length
    long = [[k, p, d] for k in ('turn', 'late', 0, 3, 5) for p, d in
            ((12, 5), (12, 12), (40, 3), (33, 8), (100, 12), (150, 2), (17, 64))]

    def run_long(case):
        k, p, d = case
        precision(False)
        m = mk(k, p, d)
        nt = d * (p - 1)
        x0, y0 = dist(k, 9)
        if not isinstance(k, int):
            f = min(1.0, 20.0 / nt)
            m.drift_coef = m.drift_coef * f
            m.vrf1_at_turn, m.vrf2_at_turn, m.deltaE0 = m.vrf1_at_turn * f, m.vrf2_at_turn * f, m.deltaE0 * f
        else:
            x0, y0 = x0 * 0.1, y0 * 0.1         # regular motion inside the bucket
        marks = sorted({0, 1, 2, p // 3, p // 2, p - 2, p - 1})
        n = 0
        for a in marks:
            for single in (False, True):
                precision(single)
                X, Y = Tracking(m).track(a, (x0, y0))
                tol = 3e-3 if single else 1e-8
                sx, sy = max(1.0, np.abs(X).max()), np.abs(Y).max()
                for b in marks:
                    U, V = Tracking(m).track(b, (X[b], Y[b]))
                    same('phase', U, X, tol, tol * sx, f'{case} start {a} restart {b} single={single}')
                    same('energy', V, Y, tol, tol * sy, f'{case} start {a} restart {b} single={single}')
                    n += 1
        precision(False)
        return dict(states=n, transitions=n * nt, traces=n)

    c.part('long_records', long, run_long, chunk=1)

    # all permutations, subsets, duplications of a small set
    NP = 5 if th else 4
    pc = [[k, rec, s] for k in list(KINDS) + [1, 3] for rec in (0, 1, 2) for s in (False, True)]

    def run_perm(case):
        k, rec, single = case
        precision(False)
        m = mk(k, 3, 3)
        x0, y0 = dist(k, NP)
        precision(single)
        X, Y = Tracking(m).track(rec, (x0, y0))
        idx = [list(i) for r in range(1, NP + 1) for i in itertools.product(range(NP), repeat=r)]
        n = 0
        tol = 2e-4 if single else 1e-11
        for i in idx:
            U, V = Tracking(m).track(rec, (x0[i], y0[i]))
            same('phase', U, X[:, i], tol, tol * max(1, np.abs(X).max()), f'{case} particles {i}')
            same('energy', V, Y[:, i], tol, tol * np.abs(Y).max(), f'{case} particles {i}')
            n += 1
        return dict(states=n, transitions=n * 6, traces=n)

    c.part('all_selections', pc, run_perm)

    # any number of particles gives the same trajectories as a large set
    big = 140000 if th else 70000
    lad = [n for n in ladder(300, 17, (1000, 4999, 10007, 50000, 65000)) if n <= big]
    lc = [[k, s, lad[i:i + 20]] for k in ('double', 'turn', 3) for s in (False, True)
          for i in range(0, len(lad), 20)]
    cache = {}

    def run_lad(case):
        k, single, ns = case
        precision(False)
        m = mk(k, 3, 2)
        x0, y0 = dist(k, big)
        precision(single)
        if (k, single) not in cache:
            cache.clear()
            cache[(k, single)] = Tracking(m).track(1, (x0, y0))
        X, Y = cache[(k, single)]
        tol = 2e-4 if single else 1e-11
        for n in ns:
            for off in ((0, big - n) if n < 400 else (0,)):
                s = slice(off, off + n)
                U, V = Tracking(m).track(1, (x0[s], y0[s]))
                same('phase', U, X[:, s], tol, tol * np.abs(X).max(), f'{k} {single} n={n} from {off}')
                same('energy', V, Y[:, s], tol, tol * np.abs(Y).max(), f'{k} {single} n={n} from {off}')
        return dict(states=2 * len(ns), transitions=2 * len(ns) * 4, traces=2 * len(ns))

    c.part('any_particle_count', lc, run_lad)


main(body, 'C02', assumptions=['rounding tolerance 1e-9 (double), 3e-3 (single) of the largest coordinate',
                               'self-fields disabled'])
