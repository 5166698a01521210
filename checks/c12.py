"""C12: the phase-space image against an exact reference sum, for every
placement of a few particles in and around small images and for a ladder of
image sizes and particle counts, through every public route."""
from tracklib import *


class Holder:
    pass


def ref(x, y, w, n):
    img = np.zeros((n, n))
    for a, b, c in zip(np.asarray(x).tolist(), np.asarray(y).tolist(), np.asarray(w, float).tolist()):
        img[int(a), int(b)] += c
    return img


def body(c, lib):
    lib.set_num_threads(2)
    from longitudinal_tomography.data import data_treatment as dt
    from longitudinal_tomography.utils import tomo_output as out
    from longitudinal_tomography.utils import tomo_config as conf
    from longitudinal_tomography import exceptions as expt
    from longitudinal_tomography.python_routines import data_treatment as pydt
    th = c.thorough

    def routes(n, nprof, col):
        """name -> callable(x, y, w) giving the plain image."""
        def spread(v, other):
            a = np.full((len(v), nprof), other, dtype=v.dtype)
            a[:, col] = v
            return a

        def via_ps(x, y, w):
            t, m = Holder(), Holder()
            t.xp, t.yp, t.weight = spread(x, 0), spread(y, 0), w
            m.nbins, m.synch_part_x, m.synch_part_y, m.dtbin, m.dEbin = n, 1.25, n / 2.0, 2e-9, 35.0
            ta, ea, d = dt.phase_space(t, m, col)
            same('time axis', ta, (np.arange(n) - 1.25) * 2e-9, 1e-12)
            same('energy axis', ea, (np.arange(n) - n / 2.0) * 35.0, 1e-12)
            return d

        def via_coord(x, y, w):
            ta, ea, d = dt.phase_space_from_coordinates(x, y, w, n, 0.5, -1.0, 3e-9, 7.0)
            same('time axis', ta, (np.arange(n) - 0.5) * 3e-9, 1e-12)
            same('energy axis', ea, (np.arange(n) + 1.0) * 7.0, 1e-12)
            return d

        return {
            'lib': lambda x, y, w: lib.make_phase_space(x, y, w, n),
            'kw': lambda x, y, w: lib.make_phase_space(n_bins=n, weights=w, yp=y, xp=x),
            'f32': lambda x, y, w: lib.make_phase_space(x, y, w.astype(np.float32), n),
            'conf': lambda x, y, w: conf.make_phase_space(x, y, w, n),
            'python': lambda x, y, w: (pydt.make_phase_space(x, y, w, n, result_cpu=False)
                                       if len(x) == 0 or (min(x.min(), y.min()) >= 0 and max(x.max(), y.max()) < n)
                                       else lib.make_phase_space(x, y, w, n)),
            'compat': lambda x, y, w: dt._make_phase_space(x, y, w, n),
            'coord': via_coord,
            'ps': via_ps,
            'image': lambda x, y, w: out.create_phase_space_image(spread(x, 0), spread(y, 0), w, n, col),
            'image-': lambda x, y, w: out.create_phase_space_image(spread(x, 0), spread(y, 0), w, n, col - nprof),
        }

    def judge(x, y, w, n, nprof=3, col=1, only=None, exact=True):
        inside = bool(np.all((x >= 0) & (x < n) & (y >= 0) & (y < n)))
        r = ref(x, y, w, n) if inside else None
        k = 0
        keep = (x.copy(), y.copy(), w.copy())
        for name, f in routes(n, nprof, col).items():
            if only and name not in only:
                continue
            ctx = f'{name} n={n} x={x[:12]} y={y[:12]} w={w[:12]}'
            try:
                img = np.asarray(f(x, y, w))
            except Violation:
                raise
            except Exception as e:
                expect(not inside, f'error {e!r} for particles inside the image {ctx}')
                k += 1
                continue
            expect(inside, f'particle outside the image accepted {ctx}\n{img}')
            expect(img.shape == (n, n), f'image shape {img.shape} {ctx}')
            if name.startswith('image'):
                pos = r.clip(0.0)
                if pos.sum() <= 0:
                    k += 1
                    continue
                same('normalised image', img, pos / pos.sum(), 1e-5 if name == 'f32' else 1e-12, ctx=ctx)
                expect((img >= 0).all() and abs(img.sum() - 1) < 1e-9, f'not normalised {ctx}')
            else:
                tol = (1e-4 if name == 'f32' else 1e-9)
                same('image', img, r, 0 if exact else tol, ctx=ctx)
                same('phase projection', img.sum(axis=1),
                     np.bincount(x, weights=w, minlength=n), tol, ctx=ctx)
                expect(abs(float(img.sum()) - float(w.sum())) <= tol * max(1.0, float(np.abs(w).sum())),
                       f'total weight {img.sum()} instead of {w.sum()} {ctx}')
            k += 1
        expect(np.array_equal(keep[0], x) and np.array_equal(keep[1], y) and np.array_equal(keep[2], w),
               'caller arrays modified')
        return k

    # ---- every placement of p particles on the cells of, and around, an n x n image
    small = [(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (4, 1), (4, 2), (5, 1), (1, 4), (3, 3), (5, 2)]
    if th:
        small += [(6, 2), (8, 2), (2, 4), (10, 2)]
    cases = []
    for n, p in small:
        tot = ((n + 2) ** 2) ** p
        cases += [['place', n, p, a, b] for a, b in blocks(tot, 256)]

    def run_place(case):
        _, n, p, a, b = case
        k = 0
        side = n + 2
        only = None if p < 3 else ('lib', 'f32', 'image', 'ps')
        if n >= 4 and p >= 2:
            only = ('lib', 'image')
        for i in range(a, b):
            x, y, j = [], [], i
            for _ in range(p):
                j, r = divmod(j, side * side)
                x.append(r // side - 1)
                y.append(r % side - 1)
            k += judge(np.array(x, dtype=np.int32), np.array(y, dtype=np.int32),
                       2.0 ** np.arange(p), n, only=only)
        return dict(states=b - a, transitions=k, traces=k)

    c.part('placements', cases, run_place)

    # ---- weights: every assignment of a small alphabet incl. zero and negative
    wal = [0.0, 0.5, 3.0, -1.0, 1e-12, 1e12]
    wc = [[list(t)] for t in itertools.product(range(len(wal)), repeat=3)]

    def run_w(case):
        w = np.array([wal[i] for i in case[0]])
        k = 0
        for cells in itertools.product(range(4), repeat=3):
            x = np.array([q // 2 for q in cells], dtype=np.int32)
            y = np.array([q % 2 for q in cells], dtype=np.int32)
            k += judge(x, y, w, 2, exact=False, only=('lib', 'conf', 'image', 'ps', 'coord'))
        return dict(states=64, transitions=k, traces=k)

    c.part('weights', wc, run_w)

    # ---- magnitudes: no weight is too small or too large to count
    def run_mag(case):
        ex, mixed = case
        n, p = 6, 50
        x, y = lcg(p, n, 3).astype(np.int32), lcg(p, n, 8).astype(np.int32)
        w = (1.0 + lcg(p, 50, 4)) * 10.0 ** ex
        if mixed:       # cells of very different magnitude
            cell = x * n + y
            w = (1.0 + lcg(p, 50, 4)) * 10.0 ** (ex * (cell % 5) / 4)
        r = np.zeros((n, n))
        np.add.at(r, (x, y), w)
        got = np.asarray(lib.make_phase_space(x, y, w, n))
        expect(np.allclose(got, r, rtol=1e-12, atol=0), f'cells {got[got != r][:3]} instead of {r[got != r][:3]} {case}')
        img = out.create_phase_space_image(x[:, None], y[:, None], w, n, 0)
        expect(np.allclose(img, r / r.sum(), rtol=1e-9, atol=0), f'normalised image {case}')
        k = 2
        if abs(ex) <= 30:
            f = np.asarray(lib.make_phase_space(x, y, w.astype(np.float32), n))
            expect(np.allclose(f, r, rtol=1e-5, atol=0), f'single precision {case}')
            k += 1
        return dict(states=k, transitions=k * p, traces=k)

    c.part('magnitudes', [[e, m] for e in list(range(-30, 31)) + [-280, -150, -75, -45, 45, 75, 150, 280] for m in (0, 1)],
           run_mag)

    # ---- dtypes, layouts, columns
    lay = [[dtp, stride, nprof, col] for dtp in ('int32', 'int64', 'int16', 'uint8', 'float64', 'float32', 'frac')
           for stride in (1, 2, -1) for nprof in (1, 2, 4) for col in range(nprof)]

    def run_lay(case):
        dtp, stride, nprof, col = case
        n, p = 7, 40
        x = lcg(p, n, 3).astype(np.int32)
        y = lcg(p, n, 9).astype(np.int32)
        w = 1.0 + lcg(p, 50, 4)
        big = np.zeros((3 * p, nprof), dtype='float64' if dtp == 'frac' else dtp)
        bigy = big.copy()
        fx = 0.75 if dtp == 'frac' else 0
        sl = slice(0, 2 * p, 2) if stride == 2 else (slice(p - 1, None, -1) if stride == -1 else slice(0, p))
        big[sl, col] = x + fx
        bigy[sl, col] = y + fx
        xx, yy = big[sl], bigy[sl]
        r = ref(x, y, w, n)
        k = 0
        keep = big.copy()
        img = out.create_phase_space_image(xx, yy, w, n, col)
        same('image', img, r / r.sum(), 1e-12, ctx=str(case))
        wf = w.astype(np.float32)
        img = out.create_phase_space_image(xx, yy, wf, n, col)
        same('image f32', img, r / r.sum(), 1e-5, ctx=str(case))
        k += 2
        # weights with a stride
        wb = np.zeros(2 * p)
        wb[::2] = w
        same('image strided weights', out.create_phase_space_image(xx, yy, wb[::2], n, col), r / r.sum(), 1e-12)
        if dtp in ('int32', 'int64', 'int16', 'uint8'):
            same('direct', lib.make_phase_space(xx[:, col], yy[:, col], w, n), r, 0)
            same('direct strided weights', lib.make_phase_space(xx[:, col], yy[:, col], wb[::2], n), r, 0)
            same('integer weights', lib.make_phase_space(xx[:, col], yy[:, col], w.astype(int), n), r, 0)
            k += 3
        expect(np.array_equal(keep, big), 'coordinates modified')
        return dict(states=k, transitions=k, traces=k)

    c.part('layouts', lay, run_lay)

    # ---- ladder of image sizes and particle counts; out-of-range at the far corners
    lad = [['n', n, 60] for n in ladder(300 if not th else 600, 10)] + \
          [['p', 50, p] for p in ladder(400 if not th else 3000, 17 if not th else 20)]

    def run_lad(case):
        _, n, p = case
        x = lcg(p, n, 5).astype(np.int32)
        y = lcg(p, n, 6).astype(np.int32)
        if p >= 2:
            x[0], y[0], x[-1], y[-1] = 0, n - 1, n - 1, 0
        w = 1.0 + lcg(p, 64, 7)
        r = np.zeros((n, n))
        np.add.at(r, (x, y), w)
        k = 0
        for nt in (1, 3):
            lib.set_num_threads(nt)
            same('image', lib.make_phase_space(x, y, w, n), r, 0, ctx=str(case))
            same('image f32', lib.make_phase_space(x, y, w.astype(np.float32), n), r, 1e-5, ctx=str(case))
            same('normalised', out.create_phase_space_image(x[:, None], y[:, None], w, n, 0), r / r.sum(),
                 1e-9, ctx=str(case))
            k += 3
        lib.set_num_threads(2)
        for pos in {0, p // 2, p - 1}:
            for arr in (0, 1):
                for bad in (-1, n, -n, 2 * n, n * n, -n * n - 5, 2 ** 31 - 1, -2 ** 31):
                    z = [x.copy(), y.copy()]
                    z[arr][pos] = bad
                    try:
                        lib.make_phase_space(z[0], z[1], w, n)
                    except Exception:
                        k += 1
                        continue
                    raise Violation(f'coordinate {bad} on axis {arr} of particle {pos} accepted, {case}')
        return dict(states=k, transitions=k, traces=k)

    c.part('ladder', lad, run_lad)

    # ---- mismatching array lengths are not silently padded with foreign memory
    mm = [[a, b, d] for a in range(1, 5) for b in range(1, 5) for d in range(1, 5)]

    def run_mm(case):
        a, b, d = case
        x, y, w = np.zeros(a, np.int32), np.zeros(b, np.int32), np.ones(d)
        try:
            img = lib.make_phase_space(x, y, w, 3)
        except Exception:
            expect(not a == b == d, f'matching lengths refused {case}')
            return dict(states=1, transitions=1, traces=1)
        expect(a == b == d, f'lengths {case} accepted: {img}')
        return dict(states=1, transitions=1, traces=1)

    c.part('lengths', mm, run_mm)

    # ---- empty distribution and missing energy bin size
    def run_misc(case):
        n = case[0]
        z = np.zeros(0, np.int32)
        img = lib.make_phase_space(z, z, np.zeros(0), n)
        expect(img.shape == (n, n) and not img.any(), f'empty distribution {img}')
        t, m = Holder(), Holder()
        t.xp = t.yp = np.zeros((1, 1), np.int32)
        t.weight = np.ones(1)
        m.nbins, m.synch_part_x, m.synch_part_y, m.dtbin, m.dEbin = n, 0, 0, 1e-9, None
        try:
            dt.phase_space(t, m, 0)
            raise Violation('image without energy bin size produced')
        except expt.InputError:
            pass
        # axes for all synchronous positions: zero exactly at the synchronous bin
        k = 0
        for sx in np.arange(0, n, 0.5):
            for sy in (0.0, n / 2, n - 0.25):
                for d, e in ((1e-9, 1e3), (5e-8, 0.25)):
                    ta, ea, _ = dt.phase_space_from_coordinates(
                        np.zeros(1, np.int32), np.zeros(1, np.int32), np.ones(1), n, sx, sy, d, e)
                    same('t', ta, (np.arange(n) - sx) * d, 1e-12)
                    same('E', ea, (np.arange(n) - sy) * e, 1e-12)
                    k += 1
        return dict(states=k, transitions=k, traces=k)

    c.part('axes', [[n] for n in range(1, 25)], run_misc)


main(body, 'C12', assumptions=['integer coordinates; weights finite',
                               'fractional coordinates only through create_phase_space_image, which truncates'])
