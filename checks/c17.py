"""C17: multi-bunch reconstruction: all coordinate matrices, bunch centres and
windows of small universes against the joint reference iteration; reduction to
the single-bunch code; reordering; hybrid; ladders of sizes."""
import contextlib
import io
from tracklib import *


def body(c, lib):
    lib.set_num_threads(2)
    from longitudinal_tomography.tomography.tomography_multibunch import Tomography as Multi
    from longitudinal_tomography.tomography.tomography import Tomography
    from longitudinal_tomography import exceptions as expt
    th = c.thorough

    def make(wf, xp):
        return Multi(wf, np.ascontiguousarray(xp))

    def run(wf, xp, cs, L, R, niter, calls=None):
        w0, x0 = wf.copy(), xp.copy()
        t = make(wf, xp)
        try:
            if calls is None:
                r = t.run(cs, L, R, niter)
            else:
                r = t.run(cs, L, R, niter, callback=lambda a, b: calls.append((a, b)))
        except RuntimeError:
            return None, t
        expect(np.array_equal(wf, w0) and np.array_equal(xp, x0) and np.array_equal(t.xp, x0), 'inputs modified')
        return t, t

    def judge(wf, xp, cs, L, R, niter, single, ctx):
        tol = 5e-3 if single else 1e-8
        prof = wf / wf.sum(axis=1, keepdims=True)
        npart, nprof = xp.shape
        try:
            ref = M.reconstruct_multi(xp, prof, L, R, cs, niter, 1e-3 if single else 1e-9)
        except M.Ambiguous:
            return 0
        except M.Zero:
            ref = None
        calls = []
        t, obj = run(wf, xp, cs, L, R, niter, calls)
        expect((t is None) == (ref is None), f'outcome: {"refused" if t is None else "accepted"} {ctx}')
        same('stored measurement', obj.waterfall, prof, 1e-4 if single else 1e-9, ctx=ctx)
        if t is None:
            return 1
        w, d, ds, rec, hist = ref
        s = max(1e-12, np.abs(w).max())
        expect(len(t.weight_split) == len(cs), f'number of bunches {ctx}')
        for k in range(len(cs)):
            same(f'weights of bunch {k}', t.weight_split[k], w[k], tol, tol * s, ctx)
        same('combined weights', t.weight_combined, w.ravel(), tol, tol * s, ctx)
        same('discrepancy', t.diff, d, tol, tol, ctx)
        same('bunch discrepancy', t.diff_split, ds, tol, tol, ctx)
        same('recreated', t.recreated, rec, tol, tol, ctx)
        expect(calls == [(i + 1, niter) for i in range(niter)] + [(niter, niter)], f'progress {calls} {ctx}')
        # zero for particles that leave
        pos = xp[None] + np.asarray(cs)[:, None, None]
        gone = ((pos < np.asarray(L)[:, None, None]) | (pos > np.asarray(R)[:, None, None]) | (pos < 0)
                | (pos >= wf.shape[1])).any(axis=2)
        expect(not np.asarray(t.weight_combined).reshape(len(cs), npart)[gone].any(), f'lost particle has weight {ctx}')
        return niter + 1

    def wfs(nprof, nbins):
        nz = nprof * nbins
        return [(np.arange(nz) + 1.0).reshape(nprof, nbins), pattern((nprof, nbins), 3, 0.0, 1.0) ** 3 + 1e-3,
                np.where(lcg(nz, 3, 5) == 0, 0.0, 1.0 + lcg(nz, 4, 6)).reshape(nprof, nbins)
                + np.eye(nbins)[np.arange(nprof) % nbins]]

    # ---- every matrix x one bunch x every centre x every window
    one = []
    for npart, nprof, nbins in ((1, 1, 4), (1, 2, 4), (2, 1, 4), (2, 2, 3), (3, 1, 3)) + (((2, 2, 4), (1, 3, 4), (3, 2, 3)) if th else ()):
        one += [[npart, nprof, nbins, a, b] for a, b in blocks(nbins ** (npart * nprof), 8)]

    def run_one(case):
        npart, nprof, nbins, a, b = case
        precision(False)
        n = st = 0
        for i in range(a, b):
            xp = xp_of(i, npart, nprof, nbins)
            for ce in range(-2, nbins + 1):
                for l in range(-1, nbins):
                    for r in range(l + 1, nbins + 2):
                        wf = wfs(nprof, nbins)[(i + ce + l + r) % 3]
                        it = (i + r) % 4
                        k = judge(wf, xp, [ce], [l], [r], it, False, f'xp={xp.tolist()} wf={wf.tolist()} c={ce} [{l},{r}] it={it}')
                        n += 1
                        st += k
        return dict(states=st, transitions=st, traces=n)

    c.part('one_bunch', one, run_one, chunk=1)

    # ---- two and three bunches
    two = []
    for npart, nprof, nbins in ((1, 1, 4), (1, 2, 4), (2, 1, 4), (2, 2, 3)) + (((3, 2, 3), (2, 2, 4)) if th else ()):
        two += [[npart, nprof, nbins, a, b] for a, b in blocks(nbins ** (npart * nprof), 4)]

    def run_two(case):
        npart, nprof, nbins, a, b = case
        precision(False)
        n = st = 0
        wins = [(0, nbins), (0, 1), (1, nbins - 1), (nbins // 2, nbins), (0, nbins // 2), (-1, nbins + 1)]
        for i in range(a, b):
            xp = xp_of(i, npart, nprof, nbins)
            for cs in itertools.product((-1, 0, 1, 2), repeat=2):
                for w1, w2 in itertools.product(wins, repeat=2):
                    wf = wfs(nprof, nbins)[(i + cs[0]) % 3]
                    it = (i + cs[1]) % 3
                    st += judge(wf, xp, list(cs), [w1[0], w2[0]], [w1[1], w2[1]], it, False,
                                f'xp={xp.tolist()} wf={wf.tolist()} c={cs} {w1} {w2} it={it}')
                    n += 1
            for cs in ((0, 1, 2), (2, 0, 1), (0, 0, 0), (1, -1, 0)):
                for w3 in itertools.product(wins[:4], repeat=3):
                    if (i + w3[2][0]) % 4:
                        continue
                    wf = wfs(nprof, nbins)[i % 3]
                    st += judge(wf, xp, list(cs), [w[0] for w in w3], [w[1] for w in w3], 2, False,
                                f'xp={xp.tolist()} wf={wf.tolist()} c={cs} {w3} it=2')
                    n += 1
        return dict(states=st, transitions=st, traces=n)

    c.part('two_and_three_bunches', two, run_two, chunk=1)

    # ---- reduction to the single bunch, reordering, repetition, hybrid
    rel = []
    for npart, nprof, nbins in ((2, 2, 3), (3, 1, 4), (3, 2, 3)):
        rel += [[npart, nprof, nbins, a, b] for a, b in blocks(nbins ** (npart * nprof), 16)]

    def state(t):
        return [np.array(x) for x in t.weight_split], t.diff.copy(), t.diff_split.copy(), t.recreated.copy()

    def run_rel(case):
        npart, nprof, nbins, a, b = case
        precision(False)
        n = 0
        for i in range(a, b):
            xp = xp_of(i, npart, nprof, nbins)
            wf = wfs(nprof, nbins)[i % 3]
            for it in (0, 1, 3):
                ctx = f'xp={xp.tolist()} wf={wf.tolist()} it={it}'
                prof = wf / wf.sum(axis=1, keepdims=True)
                try:
                    M.reconstruct(xp, prof, it, 1e-9)
                    s = Tomography(wf, xp)
                    ws = s.run(it)
                except (M.Ambiguous, M.Zero):
                    continue
                for L, R in ((0, nbins), (-3, nbins + 5), (0, nbins - 1)):
                    t, _ = run(wf, xp, [0], [L], [R], it)
                    expect(t is not None, 'refused ' + ctx)
                    same('weights as single bunch', t.weight_split[0], ws, 1e-9, 1e-9 * ws.max(), ctx)
                    same('discrepancy as single bunch', t.diff, s.diff, 1e-9, 1e-9, ctx)
                    same('recreated as single bunch', t.recreated, s.recreated, 1e-9, 1e-9, ctx)
                    if (L, R) == (0, nbins):
                        same('window discrepancy', t.diff_split[0], s.diff, 1e-9, 1e-9, ctx)
                    n += 1
                # the measurement holding the bunch twice
                gap = nbins + 1
                big = np.concatenate([wf, np.zeros((nprof, 1)), wf], axis=1)
                t, _ = run(big, xp, [0, gap], [0, gap], [nbins, gap + nbins], it)
                if t is not None:
                    same('twin bunches', t.weight_split[0], t.weight_split[1], 1e-8, 1e-8 * ws.max(), ctx)
                    same('twin recreated', t.recreated[:, :nbins], t.recreated[:, gap:], 1e-8, 1e-8, ctx)
                    same('twin recreated scale', 2 * t.recreated[:, :nbins], s.recreated, 1e-8, 1e-8, ctx)
                    n += 1
                # reordering
                cs, L, R = [0, 1, gap], [0, 0, gap], [nbins, nbins + 1, gap + nbins]
                try:
                    M.reconstruct_multi(xp, big / big.sum(axis=1, keepdims=True), L, R, cs, it, 1e-6)
                except (M.Zero, M.Ambiguous):
                    continue
                t, _ = run(big, xp, cs, L, R, it)
                expect(t is not None, 'refused ' + ctx)
                S = state(t)
                t.run(cs, L, R, it)
                S2 = state(t)
                same('repetition', np.concatenate([x.ravel() for x in S2[0]] + [S2[1], S2[2].ravel(), S2[3].ravel()]),
                     np.concatenate([x.ravel() for x in S[0]] + [S[1], S[2].ravel(), S[3].ravel()]), 1e-11, 1e-11, ctx)
                for p in itertools.permutations(range(3)):
                    u, _ = run(big, xp, [cs[k] for k in p], [L[k] for k in p], [R[k] for k in p], it)
                    expect(u is not None, 'refused ' + ctx)
                    m = max(x.max() for x in S[0])
                    for k in range(3):
                        same(f'bunch order {p}', u.weight_split[k], S[0][p[k]], 1e-8, 1e-8 * m, ctx)
                    same(f'bunch order {p} discrepancy', u.diff_split, S[2][list(p)], 1e-8, 1e-8, ctx)
                    same(f'bunch order {p} total', u.diff, S[1], 1e-8, 1e-8, ctx)
                    same(f'bunch order {p} recreated', u.recreated, S[3], 1e-8, 1e-8, ctx)
                    n += 1
                # hybrid: windows with no particle on their edges
                cs, big2 = [1, gap + 2], np.concatenate([np.zeros((nprof, 1)), wf, np.zeros((nprof, 2)), wf,
                                                         np.zeros((nprof, 1))], axis=1)
                cuts = [[0, nbins + 1], [gap + 1, gap + nbins + 2]]
                assert cuts[1][1] <= big2.shape[1]
                t, _ = run(big2, xp, cs, [x[0] for x in cuts], [x[1] for x in cuts], it)
                if t is None:
                    continue
                S = state(t)
                h = make(big2, xp)
                h.run_hybrid(cs, cuts, it)
                m = max(x.max() for x in S[0])
                for k in range(2):
                    same('hybrid weights', h.weight_split[k], S[0][k], 1e-8, 1e-8 * m, ctx)
                same('hybrid discrepancy', h.diff, S[1], 1e-8, 1e-8, ctx)
                same('hybrid bunch discrepancy', h.diff_split, S[2], 1e-8, 1e-8, ctx)
                same('hybrid recreated', h.recreated, S[3], 1e-8, 1e-8, ctx)
                n += 1
                # the prototype kept in the single-bunch class
                h = Tomography(big2, np.ascontiguousarray(xp))
                with contextlib.redirect_stdout(io.StringIO()):
                    w = h.run_hybrid_multi(np.array(cs, dtype=np.int32), np.array(cuts), it)
                expect(w.shape == (2, len(xp)), f'weights of shape {w.shape} {ctx}')
                for k in range(2):
                    same('prototype weights', w[k], S[0][k], 1e-8, 1e-8 * m, ctx)
                same('prototype discrepancy', h.diff, S[1], 1e-8, 1e-8, ctx)
                same('prototype recreated', h.recreated, S[3], 1e-8, 1e-8, ctx)
                n += 1
        return dict(states=n, transitions=n, traces=n)

    c.part('relations', rel, run_rel, chunk=1)

    # ---- sizes
    lad = [[n, 3, 9, 2, 2] for n in ladder(80, 13, (1000,))] + [[30, 3, b, 2, 2] for b in ladder(70, 9)] + \
          [[30, p, 9, 2, 2] for p in ladder(40, 7)] + [[20, 3, 20, k, 2] for k in ladder(24, 6)] + \
          [[20, 2, 9, 3, it] for it in range(0, 30)]

    def run_lad(case):
        npart, nprof, nbins, nc, it = case
        n = 0
        for single in (False, True):
            for thr in (1, 3):
                precision(single)
                lib.set_num_threads(thr)
                span = max(1, nbins // 2)
                xp = lcg(npart * nprof, span, 7).astype(np.int32).reshape(npart, nprof)
                wf = pattern((nprof, nbins), 11, 0.05, 1.0)
                cs = [int((k * max(1, nbins - span)) // max(1, nc - 1)) for k in range(nc)]
                L = [x - (k % 2) for k, x in enumerate(cs)]
                R = [x + span - 1 + (k % 3) - (1 if span > 2 else 0) for k, x in enumerate(cs)]
                R = [max(r, l + 1) for l, r in zip(L, R)]
                n += judge(wf, xp, cs, L, R, min(it, 3) if single else it, single, f'{case} single={single} threads={thr}')
        precision(False)
        lib.set_num_threads(2)
        return dict(states=n, transitions=n, traces=4)

    c.part('ladders', lad, run_lad)

    # ---- particle counts of all bunches, hybrid helper
    def run_cnt(case):
        npart, nprof, nbins, a, b = case
        n = 0
        for i in range(a, b):
            xp = xp_of(i, npart, nprof, nbins)
            for cs in itertools.chain(itertools.product(range(-2, nbins + 1), repeat=1), itertools.product((-1, 0, 2), repeat=2)):
                for dt in (np.float64, np.float32):
                    want = np.zeros((nprof, nbins))
                    for x in cs:
                        for j in range(nprof):
                            for v in xp[:, j]:
                                if 0 <= v + x < nbins:
                                    want[j, v + x] += 1
                    got = lib.count_particles_in_bins_multi(np.zeros((nprof, nbins), dtype=dt), xp,
                                                            np.array(cs, dtype=np.int32), nprof, npart, nbins, len(cs))
                    same('counts', got, want, 1e-9, 1e-9, f'xp={xp.tolist()} centres={cs}')
                    n += 1
        return dict(states=n, transitions=n, traces=n)

    c.part('counts', [x for x in one if x[0] * x[1] <= 4], run_cnt, chunk=1)

    # ---- no coordinates
    def run_err(case):
        t = Multi(np.ones((2, 3)))
        for f in (lambda: t.run([0], [0], [3], 1), lambda: t.run_hybrid([0], [[0, 3]], 1),
                  lambda: Tomography(np.ones((2, 3))).run_hybrid_multi([0], [[0, 3]], 1)):
            try:
                f()
                raise Violation('reconstruction without coordinates')
            except expt.CoordinateError:
                pass
        return dict(states=2, transitions=2, traces=2)

    c.part('refusals', [[0]], run_err)

    # ---- the number of iterations when none is given
    def run_def(case):
        nprof, nbins, npart, seed = case
        wf = pattern((nprof, nbins), seed, 0.1, 1.0)
        xp = np.ascontiguousarray(lcg(npart * nprof, nbins - 1, seed + 3).reshape(npart, nprof).astype(np.int32))
        xp[:nbins] = np.arange(nbins)[:, None]          # every bin is visited
        args = ([0], [0], [nbins])
        n = 0
        for mk, a in ((lambda: Multi(wf.copy(), xp), args), (lambda: Tomography(wf.copy(), xp), ())):
            t, u = mk(), mk()
            t.run(*a)
            u.run(*a, niter=20)
            expect(len(t.diff) == 21, f'{len(t.diff)} discrepancies without a number of iterations {case}')
            same('default discrepancy', t.diff, u.diff, 1e-9, ctx=str(case))
            same('default recreated', t.recreated, u.recreated, 1e-9, ctx=str(case))
            n += 2
        t = Tomography(wf.copy(), xp)
        t.run_hybrid()
        expect(len(t.diff) == 21, f'{len(t.diff)} discrepancies of the hybrid {case}')
        h = Multi(wf.copy(), xp)
        h.run_hybrid([0], [[-1, nbins]])
        expect(len(h.diff) == 21, f'{len(h.diff)} discrepancies of the multi-bunch hybrid {case}')
        same('hybrid default', h.diff, t.diff, 1e-8, ctx=str(case))
        return dict(states=n + 2, transitions=n + 2, traces=n + 2)

    c.part('default iterations', [[p, b, k, s] for p in (1, 2, 3) for b in (2, 4, 7) for k in (10, 20) for s in (1, 2)], run_def)


main(body, 'C17', assumptions=[
    'A window is inclusive of its right edge for particles and half-open for the discrepancy, as in the code; cases '
    'whose zero test is decided by rounding are accepted either way.'])
