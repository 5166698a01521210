"""C24: the GPU route. No GPU is needed: the package's own CUDA sources are compiled for the host and every thread of a
launch is a fiber under a controlled scheduler, which checks bounds, barriers and conflicting accesses on every access.
The results are compared with the independent models and with the CPU route."""
import itertools
import math
from tracklib import *
from lib import cudasim as S

RTOL = {False: 1e-9, True: 5e-3}


def body(c, lib):
    import longitudinal_tomography as lt
    from longitudinal_tomography.utils.tomo_config import AppConfig
    from longitudinal_tomography.utils import tomo_config as conf, tomo_output as out
    from longitudinal_tomography import cuda_kernels as ck
    from longitudinal_tomography.tracking.tracking import Tracking
    from longitudinal_tomography.tracking import particles as P
    from longitudinal_tomography.tomography.tomography import Tomography
    from longitudinal_tomography.data import data_treatment as dt
    lib.set_num_threads(1)
    th = c.thorough
    # nothing may be compiled into or loaded from the repository
    ck.check_compiled_kernels = lambda: True
    cuda_dir = os.path.dirname(os.path.abspath(ck.__file__))
    block0 = ck.REDUCTION_BLOCK_SIZE
    S.install(cuda_dir, scratch(), block0)

    def device(threads=8, order=0):
        """Before the workers start: they read the size of a block when they first use the GPU."""
        S.Config.threads, S.Config.order = threads, order

    def mode(gpu, single):
        precision(False)
        AppConfig.use_cpu()
        precision(single)
        if gpu:
            AppConfig.use_gpu()

    def host(v):
        return np.asarray(v.get() if hasattr(v, 'get') else v)

    def back():
        S.Config.order = 0
        AppConfig.use_cpu()
        precision(False)

    def guarded(f):
        def g(case):
            try:
                return f(case)
            except S.Fault as e:
                raise Violation(f'{e} {case}')
            finally:
                back()
        return g

    # ---- tracking
    def gpu_track(m, x, y, rec, delta):
        with np.errstate(all='ignore'):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                return Tracking(m).track(rec, (x, y), deltaturn=delta)

    def one_track(kind, nprof, dturns, rec, delta, npart, single, order=0, tag=''):
        m = synth(nprof, dturns, 'single' if kind == 'zero' else kind.split('-')[0])
        if kind.endswith('-int'):
            m.h_ratio = int(round(m.h_ratio))
        x, y = cloud(npart)
        x, y = x * 0.3, y * 0.3
        wx, wy = model_of(m, x, y, rec, delta)
        mode(True, single)
        S.Config.order = order
        gx, gy = gpu_track(m, x.copy(), y.copy(), rec, delta)
        t = np.float32 if single else np.float64
        expect(gx.dtype == t and gy.dtype == t, f'{gx.dtype}, {gy.dtype} {tag}')
        tol = RTOL[single]
        same('phases', host(gx), wx, tol, tol * max(1, np.abs(wx).max()), tag)
        same('energies', host(gy), wy, tol, tol * max(1, np.abs(wy).max()), tag)

    def run_track(case):
        kind, nprof, dturns, npart, single = case
        n = 0
        m = synth(nprof, dturns, 'single')
        for rec in range(nprof):
            for delta in [0] + deltas(m, rec):
                one_track(kind, nprof, dturns, rec, delta, npart, single, 0, f'{case} rec={rec} delta={delta}')
                n += 1
        return dict(states=nprof * n, transitions=n * dturns * (nprof - 1), traces=n)

    KG = KINDS + ('double-int', 'turn-int')
    parts = [1, 2, 3, 7, 8, 9, 16, 17] if not th else list(range(1, 34))
    for threads in (8,) if not th else (1, 8, 32):
        device(threads)
        c.part(f'tracking_{threads}', [[k, n, d, p, s] for k in KG for n in (1, 2, 3, 4) for d in (1, 2, 3) for p in parts
                                      for s in (0, 1) if (n > 1 or d == 1)], guarded(run_track))
    device(1024)
    c.part('tracking_wide', [['double', 3, 2, p, s] for p in (1, 63, 64, 1023, 1024, 1025, 2049) for s in (0, 1)], guarded(run_track),
           chunk=1)

    # ---- reconstruction
    def fall(xp, nbins):
        """A measurement close to what the particles can give."""
        n = M.counts(xp, xp.shape[1], nbins)
        return n * (1 + pattern(n.shape, 3, -0.3, 0.3)) + 0.05 * n.max()

    def flat_of(w):
        w = np.clip(np.asarray(w, float), 0, None)
        return w / w.sum(axis=1, keepdims=True)

    def one_rec(xp, w, niter, single, tag, order=0, model=True):
        try:
            want = M.reconstruct(xp, flat_of(w), niter, 1e-3 if single else 1e-9)
        except M.Ambiguous:
            return
        except M.Zero:
            want = None
        mode(True, single)
        S.Config.order = order
        t = Tomography(np.array(w, float), xp)
        try:
            with np.errstate(all='ignore'):
                t.run(niter)
        except RuntimeError:
            expect(want is None, f'reconstruction refused {tag}')
            return
        expect(want is not None, f'reconstruction reduced to zeros went on {tag}')
        tol = RTOL[single] if niter < 5 else RTOL[single] * 10
        scale = max(np.abs(want[0]).max(), 1e-300)
        same('weights', host(t.weight), want[0], tol, tol * scale, tag)
        same('discrepancies', host(t.diff), want[1], tol, tol, tag)
        same('recreated', host(t.recreated).reshape(want[2].shape), want[2], tol, tol, tag)
        expect(t.weight.dtype == (np.float32 if single else np.float64), f'{t.weight.dtype} {tag}')

    def falls(npr, nb):
        a = np.arange(npr * nb).reshape(npr, nb)
        return [1.0 + (a * 7 % 5), np.where(a % nb == 0, 0.0, 1.0 + a % 3), np.where(a % nb == nb - 1, 4.0, 0.0)]

    def run_rec(case):
        npart, nprof, nbins, (lo, hi), single = case
        n = 0
        for i in range(lo, hi):
            xp = xp_of(i, npart, nprof, nbins)
            for k, w in enumerate(falls(nprof, nbins)):
                for niter in (0, 1, 3) if (i + k) % 3 else (2, 6):
                    one_rec(xp, w, niter, single, f'xp={xp.tolist()} waterfall={w.tolist()} niter={niter} single={single}')
                    n += 1
        return dict(states=n, transitions=3 * n, traces=n)

    shapes = [(1, 1, 2), (1, 2, 2), (2, 1, 3), (2, 2, 2), (3, 2, 2), (2, 3, 2), (2, 2, 3), (3, 1, 3), (4, 2, 2)] + \
        ([(3, 2, 3), (3, 3, 2), (2, 3, 3), (5, 2, 2), (4, 3, 2)] if th else [(3, 3, 2)])
    device(8)
    c.part('reconstruction_all_particles', [[*s, b, p] for s in shapes for b in blocks(s[2] ** (s[0] * s[1]), 16) for p in (0, 1)],
           guarded(run_rec))

    def run_big(case):
        npart, nprof, nbins, niter, single = case
        xp = lcg(npart * nprof, nbins, 5).reshape(npart, nprof).astype(np.int32)
        w = fall(xp, nbins)
        one_rec(xp, w, niter, single, str(case))
        return dict(states=1, transitions=niter, traces=1)

    sizes = [(p, 3, 5) for p in (5, 8, 9, 31, 33, 64, 127)] + [(3, n, 4) for n in (5, 8, 15, 16, 17, 31, 32, 33, 64, 65, 511, 512, 513, 1024, 1025, 1500)] + \
            [(5, 3, n) for n in (7, 8, 9, 31, 64, 65, 300)]
    if th:
        sizes += [(p, 4, 6) for p in range(10, 70)] + [(2, n, 3) for n in range(6, 140)] + [(2, n, 3) for n in (2047, 2048, 2049, 4097)]
    c.part('reconstruction_sizes', [[*s, it, p] for s in sizes for it in (0, 1, 4) for p in (0, 1)], guarded(run_big), chunk=1)

    # ---- every order of the threads, with every access watched
    def run_order(case):
        what, arg, single, (lo, hi) = case
        for o in range(lo, hi):
            if what == 'track':
                npart, nprof, dturns, rec, delta = arg
                one_track('double', nprof, dturns, rec, delta, npart, single, o, f'{case} order {o}')
            else:
                npart, nprof, nbins, niter = arg
                xp = lcg(npart * nprof, nbins, 5).reshape(npart, nprof).astype(np.int32)
                w = fall(xp, nbins)
                one_rec(xp, w, niter, single, f'{case} order {o}', o)
        return dict(states=hi - lo, transitions=hi - lo, traces=hi - lo)

    def orders(n):
        return blocks(math.factorial(n) if n <= 5 else 2 * n, 8)

    # a small block for the sums of back_project as well: all orders of its threads are enumerated
    for threads in (4, 5) if th else (4,):
        os.makedirs(scratch() + f'/b{threads}', exist_ok=True)
        S.install(cuda_dir, scratch() + f'/b{threads}', threads)
        ck.REDUCTION_BLOCK_SIZE = threads
        device(threads)
        c.part(f'thread_orders_{threads}', [['track', a, s, o] for a in ([threads, 3, 2, 1, 0], [threads + 1, 3, 2, 1, 1], [2 * threads + 1, 2, 3, 1, -1])
                                           for s in (0, 1) for o in orders(threads)] +
               [['rec', a, s, o] for a in ([threads, 1, 3, 2], [threads + 2, 3, 3, 2], [2, 513, 2, 1], [3, threads, 2, 2]) for s in (0, 1)
                for o in orders(threads)], guarded(run_order))
    S.install(cuda_dir, scratch(), block0)
    ck.REDUCTION_BLOCK_SIZE = block0
    device(32)
    c.part('thread_orders_32', [['track', [33, 3, 2, 1, 0], s, o] for s in (0, 1) for o in orders(32)] +
           [['rec', a, s, o] for a in ([33, 3, 3, 1], [2, 520, 3, 1]) for s in (0, 1) for o in orders(32)], guarded(run_order))
    device(8)

    # ---- the rest of the route
    def run_route(case):
        kind, nprof, dturns, rec, npart, single = case
        m = machine(nprofiles=nprof, dturns=dturns, synch_part_y=9.5, nbins=16)
        if kind:
            m = machine(nprofiles=nprof, dturns=dturns, vrf2=900.0, h_ratio=2.0 if kind == 1 else 2, phi12=0.3, synch_part_y=9.5, nbins=16)
        m.values_at_turns()
        m.synch_part_y = 9.5
        x = pattern((npart,), 4, -0.12, 0.12)
        y = pattern((npart,), 5, -8e4, 8e4)
        got = []
        for gpu in (0, 1):
            mode(gpu, single)
            xp, yp = Tracking(m).track(rec, (x, y))
            cx, cy = P.physical_to_coords(xp, yp, m, -8.03, 2.5e4)
            fx, fy, lost = P.filter_lost(cx, cy, 16)
            ix, iy = P.ready_for_tomography(cx, cy, 16)
            if not gpu:
                w = M.counts(ix, nprof, 16) + np.where(M.counts(ix, nprof, 16) > 0, 1, 0) * pattern((nprof, 16), 7, 0.1, 1.0)
            t = Tomography(w, ix, iy)
            t.run(2)
            im = out.create_phase_space_image(t.xp, t.yp, t.weight, 16, rec)
            im2 = dt.phase_space_from_coordinates(t.xp[:, rec], t.yp[:, rec], t.weight, 16, 8.0, 9.5, m.dtbin, 2.5e4)[2]
            expect((im > 0).sum() > 1, f'nothing in the image {case}')
            got.append([host(v) for v in (xp, yp, cx, cy, fx, fy, np.array(lost), ix, iy, t.weight, t.diff, t.recreated, im, im2)])
        names = ('phases', 'energies', 'x', 'y', 'x kept', 'y kept', 'lost', 'x bins', 'y bins', 'weights', 'discrepancies',
                 'recreated', 'image', 'density')
        a, b = got
        edge = np.abs(a[2] - np.round(a[2])).min() < 1e-2 or np.abs(a[3] - np.round(a[3])).min() < 1e-2
        for n, u, v in list(zip(names, b, a))[:4 if single and edge else None]:
            u = u.reshape(v.shape) if u.size == v.size else u
            s = np.abs(v).max() if v.size else 1
            same(f'{n} on the GPU', u, v, RTOL[single], RTOL[single] * s, str(case))
        return dict(states=len(names), transitions=2, traces=1)

    c.part('whole_route', [[k, n, d, r, p, s] for k in (0, 1, 2) for n in (2, 3, 4) for d in (1, 3) for r in range(n) for p in (4, 9, 20)
                           for s in (0, 1)], guarded(run_route))

    # ---- images
    def run_image(case):
        nb, npart, lo, hi, single = case
        base = nb + 2
        n = 0
        for i in range(lo, hi):
            d, k = [], i
            for _ in range(2 * npart):
                d.append(k % base - 1)
                k //= base
            x, y = np.array(d[:npart], np.int32), np.array(d[npart:], np.int32)
            w = 1.0 + np.arange(npart)
            mode(True, single)
            cp = sys.modules['cupy']
            ok = ((x >= 0) & (x < nb) & (y >= 0) & (y < nb)).all()
            try:
                im = host(conf.make_phase_space(cp.array(x), cp.array(y), conf.cast(w), nb))
            except IndexError:
                expect(not ok, f'refused x={x} y={y} nbins={nb}')
                continue
            expect(ok, f'particle outside of the image accepted x={x.tolist()} y={y.tolist()} nbins={nb}')
            want = np.zeros((nb, nb))
            np.add.at(want, (x, y), w)
            same('image', im, want, 1e-6, 1e-6, f'x={x.tolist()} y={y.tolist()}')
            n += 1
        return dict(states=hi - lo, transitions=hi - lo, traces=n)

    c.part('images', [[nb, p, a, b, s] for nb, p in ((1, 1), (2, 1), (3, 1), (4, 1), (2, 2), (3, 2)) for a, b in blocks((nb + 2) ** (2 * p), 64)
                      for s in (0, 1)], guarded(run_image))

    # ---- lost particles: every pattern
    def run_lost(case):
        nprof, npart, lo, hi = case
        vals = [-0.5, 0.0, 3.99, 4.0, 7.5]
        mode(True, False)
        cp = sys.modules['cupy']
        for i in range(lo, hi):
            d, k = [], i
            for _ in range(nprof * npart):
                d.append(vals[k % 5])
                k //= 5
            x = np.array(d).reshape(nprof, npart)
            y = np.arange(x.size, dtype=float).reshape(x.shape)
            inside = ((x >= 0) & (x < 4)).all(axis=0)
            try:
                gx, gy, n = P.filter_lost(cp.array(x), cp.array(y), 4)
            except Exception as e:
                expect(not inside.any(), f'{e!r} {x.tolist()}')
                continue
            expect(inside.any(), f'nothing left, accepted {x.tolist()}')
            expect(n == (~inside).sum() and np.array_equal(host(gx), x[:, inside]) and np.array_equal(host(gy), y[:, inside]),
                   f'{n} lost, {host(gx).tolist()} from {x.tolist()}')
        return dict(states=hi - lo, transitions=hi - lo, traces=hi - lo)

    c.part('lost_particles', [[n, p, a, b] for n, p in ((1, 1), (1, 2), (2, 1), (1, 3), (2, 2), (1, 4), (3, 1)) for a, b in blocks(5 ** (n * p), 125)],
           guarded(run_lost))

    # ---- all orders of choosing device and precision
    OPS = dict(g=lt.use_gpu, c=lt.use_cpu, s=lt.set_single_precision, d=lt.set_double_precision)

    def run_modes(case):
        gpu, single = False, False
        m = synth(3, 2, 'double')
        x, y = cloud(5)
        wx, wy = model_of(m, x, y, 1, 0)
        xp = lcg(12, 4, 5).reshape(4, 3).astype(np.int32)
        w = fall(xp, 4)
        wr = M.reconstruct(xp, flat_of(w), 2)
        for i, o in enumerate(case):
            OPS[o]()
            gpu, single = (o == 'g') if o in 'gc' else gpu, (o == 's') if o in 'sd' else single
            ctx = f'{case}, step {i}'
            before = S.Config.launches
            expect(AppConfig.is_gpu_enabled() == gpu and conf.device == ('GPU' if gpu else 'CPU'), f'device {conf.device} {ctx}')
            t = np.float32 if single else np.float64
            expect(AppConfig.get_precision() is t, f'precision {AppConfig.get_precision()} {ctx}')
            gx, gy = Tracking(m).track(1, (x, y))
            expect(isinstance(gx, S.ndarray) == gpu and gx.dtype == t, f'{type(gx)} {gx.dtype} {ctx}')
            tol = RTOL[single]
            same('phases', host(gx), wx, tol, tol * np.abs(wx).max(), ctx)
            same('energies', host(gy), wy, tol, tol * np.abs(wy).max(), ctx)
            to = Tomography(w, xp)
            to.run(2)
            same('weights', host(to.weight), wr[0], tol, tol * wr[0].max(), ctx)
            same('discrepancies', host(to.diff), wr[1], tol, tol, ctx)
            expect((S.Config.launches > before) == gpu, f'{S.Config.launches - before} launches {ctx}')
        return dict(states=len(case), transitions=len(case), traces=1)

    c.part('device_and_precision_histories', [''.join(q) for n in range(1, 6 if th else 5) for q in itertools.product('gcsd', repeat=n)],
           guarded(run_modes))

    # ---- the implementation with array operations
    def run_arrays(case):
        nprof, dturns, npart, niter = case
        mode(True, False)
        cp = sys.modules['cupy']
        from longitudinal_tomography.python_routines import kick_and_drift_cupy as kc, reconstruct_cupy as rc
        n = 0
        for kind in ('single', 'double', 'late'):
            m = synth(nprof, dturns, kind)
            for rec in range(nprof):
                for delta in [0] + deltas(m, rec):
                    x, y = cloud(npart)
                    wx, wy = model_of(m, x, y, rec, delta)
                    xp, yp = cp.zeros((nprof, npart)), cp.zeros((nprof, npart))
                    kc.kick_and_drift_cupy(xp, yp, cp.array(y), cp.array(x), cp.array(m.vrf1_at_turn), cp.array(m.vrf2_at_turn),
                                           m.phi0, m.deltaE0, m.drift_coef, m.phi12, m.h_ratio, dturns, rec, delta,
                                           dturns * (nprof - 1), npart, False, None)
                    same('phases', host(xp), wx, 1e-9, 1e-9 * max(1, np.abs(wx).max()), f'{case} {kind} rec={rec} delta={delta}')
                    same('energies', host(yp), wy, 1e-9, 1e-9 * max(1, np.abs(wy).max()), f'{case} {kind} rec={rec} delta={delta}')
                    n += 1
        nbins = 5
        xp = lcg(npart * nprof, nbins, 5).reshape(npart, nprof).astype(np.int32)
        f = flat_of(fall(xp, nbins))
        want = M.reconstruct(xp, f, niter)
        w, d, r = rc.reconstruct_cupy(cp.array(xp), cp.array(f), niter, nbins, npart, nprof)
        for name, u, v in (('weights', w, want[0]), ('discrepancies', d, want[1]), ('recreated', r, want[2].ravel())):
            same(name, host(u), v, 1e-8, 1e-9 * np.abs(v).max(), str(case))
        return dict(states=n + 1, transitions=n * nprof * dturns, traces=n + 1)

    c.part('array_implementation', [[n, d, p, i] for n in (1, 2, 3, 4) for d in (1, 2, 3) for p in (1, 2, 5, 9) for i in (0, 1, 4)
                                    if n > 1 or d == 1], guarded(run_arrays))


main(body, 'C24', assumptions=[
    'CuPy is replaced by lib/cudasim.py: arrays are NumPy arrays; the CUDA sources are compiled by g++ and their threads run '
    'as fibers. Code generation of nvcc, --use_fast_math and the memory of a real device are not covered',
    'Threads run in chosen orders between barriers. Every access is recorded, so that launches without a reported conflict have '
    'the same result in every interleaving, up to the order of the atomic additions, which the orders cover'])
