"""C06: symmetries of the reconstruction problem."""
from tracklib import *


def body(c, lib):
    lib.set_num_threads(1)
    from longitudinal_tomography.tomography.tomography import Tomography
    from longitudinal_tomography import exceptions as expt
    th = c.thorough

    def run(wf, xp, niter):
        w0, x0 = wf.copy(), xp.copy()
        t = Tomography(wf, xp)
        try:
            w = t.run(niter)
        except (RuntimeError, expt.WaterfallReducedToZero):
            w = None
        expect(np.array_equal(wf, w0) and np.array_equal(xp, x0), 'inputs modified')
        if w is None:
            return None
        a = (w.copy(), t.diff.copy(), t.recreated.copy())
        b = t.run(niter)
        expect(np.array_equal(a[0], b) and np.array_equal(a[1], t.diff)
               and np.array_equal(a[2], t.recreated), 'second run differs')
        expect(np.array_equal(t.xp, x0), 'coordinates changed by the run')
        return a

    def usable(wf, xp, niter, eps=1e-5):
        try:
            M.reconstruct(xp, wf / wf.sum(axis=1, keepdims=True), niter, eps)
        except M.Ambiguous:
            return False
        except M.Zero:
            pass
        return True

    def cmp(name, got, want, tol, ctx, pb=None, pp=None, part=None, rec=True, diff=True):
        expect((got is None) == (want is None), f'{name}: outcome changed {ctx}')
        if got is None:
            return
        s = max(1e-12, np.abs(want[0]).max())
        same(name + ' weights', got[0], want[0] if part is None else want[0][part], tol, tol * s, ctx)
        if diff:
            same(name + ' discrepancy', got[1], want[1], tol, tol, ctx)
        if rec:
            r = want[2]
            r = r if pp is None else r[pp]
            r = r if pb is None else r[:, pb]
            same(name + ' recreated', got[2], r, tol, tol, ctx)

    def symmetric(wf, xp, niter, single, ctx, perms_part, perms_bin, perms_prof):
        tol = 5e-3 if single else 1e-8
        npart, nprof = xp.shape
        nbins = wf.shape[1]
        R = run(wf, xp, niter)
        n = 1
        for p in perms_part:
            p = list(p)
            cmp(f'particles {p[:8]}', run(wf, np.ascontiguousarray(xp[p]), niter), R, tol, ctx, part=p)
            n += 1
        for p in perms_bin:
            # bin b of the original becomes bin inv[b]
            p = list(p)
            inv = np.argsort(p)
            cmp(f'bins {p[:8]}', run(np.ascontiguousarray(wf[:, p]), inv[xp].astype(np.int32), niter), R,
                tol, ctx, pb=p)
            n += 1
        for p in perms_prof:
            p = list(p)
            cmp(f'profiles {p[:8]}', run(np.ascontiguousarray(wf[p]), np.ascontiguousarray(xp[:, p]), niter),
                R, tol, ctx, pp=p)
            n += 1
        for f in (1e-30, 1e-9, 0.37, 2.0, 1e7, 1e25):
            cmp(f'scale {f}', run(wf * f, xp, niter), R, tol, ctx)
            n += 1
        row = np.arange(1, nprof + 1)[:, None] * 0.7
        cmp('scale per profile', run(wf * row, xp, niter), R, tol, ctx)
        if R is not None:
            seen = {}
            for i in range(npart):
                k = tuple(xp[i])
                if k in seen:
                    expect(abs(R[0][i] - R[0][seen[k]]) <= tol * max(1e-12, R[0].max()),
                           f'identical particles {i} and {seen[k]} have different weights {ctx}')
                seen[k] = i
        for left, right in ((0, 1), (1, 0), (2, 3)):
            big = np.zeros((nprof, nbins + left + right))
            big[:, left:left + nbins] = wf
            got = run(big, (xp + left).astype(np.int32), niter)
            cmp(f'empty bins {left},{right}', got, R, tol, ctx, rec=False, diff=False)
            if got is not None:
                same('recreated inside', got[2][:, left:left + nbins], R[2], tol, tol, ctx)
                f = np.sqrt(nbins / (nbins + left + right))
                same('discrepancy with empty bins', got[1], R[1] * f, tol, tol, ctx)
            n += 1
        return n

    cases = []
    lim = 70000 if th else 4100
    for npart in (1, 2, 3, 4):
        for nprof in (1, 2, 3):
            for nbins in (2, 3, 4):
                tot = nbins ** (npart * nprof)
                if tot <= lim:
                    cases += [[npart, nprof, nbins, a, b] for a, b in blocks(tot, 16)]

    def run_small(case):
        npart, nprof, nbins, a, b = case
        precision(False)
        n = 0
        nz = nprof * nbins
        wfs = [(np.arange(nz) + 1.0).reshape(nprof, nbins), pattern((nprof, nbins), 3, 0.0, 1.0) ** 3 + 1e-3,
               np.eye(nbins)[np.arange(nprof) % nbins] + 0.25 * np.eye(nbins)[(np.arange(nprof) + 1) % nbins],
               np.where(lcg(nz, 3, 5) == 0, 0.0, 1.0 + lcg(nz, 4, 6)).reshape(nprof, nbins)]
        for i in range(a, b):
            xp = xp_of(i, npart, nprof, nbins)
            for wi, wf in enumerate(wfs):
                if (wf.sum(axis=1) == 0).any():
                    continue
                if not th and (i + wi) % 2:
                    continue
                for niter in (1, 3) if not th else (0, 1, 2, 4):
                    if not usable(wf, xp, niter):
                        continue
                    n += symmetric(wf, xp, niter, False, f'xp={xp.tolist()} wf={wf.tolist()} niter={niter}',
                                   itertools.permutations(range(npart)) if i % 3 == 0 or th else [range(npart)[::-1]],
                                   itertools.permutations(range(nbins)) if i % 3 == 1 or th else [range(nbins)[::-1]],
                                   itertools.permutations(range(nprof)))
        return dict(states=n, transitions=n, traces=n)

    c.part('small_universes', cases, run_small, chunk=1)

    lad = [[n, 3, 8, s] for n in ladder(300, 15, (1000, 10007)) for s in (False, True)]
    lad += [[50, 3, b, s] for b in ladder(130, 10) for s in (False, True)]
    lad += [[40, p, 7, s] for p in ladder(40, 8) for s in (False, True)]

    def run_lad(case):
        npart, nprof, nbins, single = case
        precision(single)
        xp = lcg(npart * nprof, nbins, 7).astype(np.int32).reshape(npart, nprof)
        wf = pattern((nprof, nbins), 11, 0.05, 1.0)
        if npart % 2 == 0:
            wf = np.where(wf > 0.5, wf ** 2, 0.01)
        it = 3
        while it and not usable(wf, xp, it, 1e-2):
            it -= 1

        def rot(k):
            return [list(range(k))[::-1], list(range(1, k)) + [0], list(np.argsort(lcg(k, 1 << 30, 2)))]
        n = symmetric(wf, xp, it, single, str(case), rot(npart), rot(nbins), rot(nprof))
        precision(False)
        return dict(states=n, transitions=n, traces=n)

    c.part('ladder', lad, run_lad)


main(body, 'C06', assumptions=['measurements in which every profile holds signal',
                               'tolerance 1e-8 (double) / 5e-3 (single) relative to the largest weight'])
