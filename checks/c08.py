"""C08: every history of settings and calls (to a depth), each in a process of
its own, followed by probe calls that must give what a fresh process gives."""
import gc
import shutil
import io
import pickle
import contextlib
from filelib import *


class Boom(Exception):
    pass


def body(c, lib):
    import longitudinal_tomography as lt
    from longitudinal_tomography.utils import tomo_config as conf, tomo_input as ti, tomo_output as to
    from longitudinal_tomography.tracking.tracking import Tracking
    from longitudinal_tomography.tracking.machine import Machine
    from longitudinal_tomography.tracking import particles as pts
    from longitudinal_tomography.tomography.tomography import Tomography
    from longitudinal_tomography.tomography.tomography_multibunch import Tomography as Multi
    from longitudinal_tomography.data.profiles import Profiles
    from longitudinal_tomography.data import data_treatment as dtr, post_process as pp, pre_process as pre
    from longitudinal_tomography.utils import tomo_run
    from longitudinal_tomography import shortcuts as sc
    th = c.thorough
    cfg = conf.AppConfig
    path = os.path.join(scratch(), 'input.dat')
    write(path, lines(outdir=scratch()), raw(4, 24))
    path_fit = os.path.join(scratch(), 'input_fit.dat')
    write(path_fit, lines(outdir=scratch(), spx=-1.0, v2=700.0, hr=2.0, phi12=0.3), raw(4, 24))
    path_bad = os.path.join(scratch(), 'input_bad.dat')
    write(path_bad, lines(outdir=scratch(), nframes=5), raw(4, 24))

    W = pattern((3, 6), 5, 0.1, 1.0)
    X = lcg(11 * 3, 6, 7).reshape(11, 3)
    W0, X0 = W, X
    FILES = {}
    for q in (path, path_fit):
        s = open(q).read().splitlines()
        k = len(s) - 60
        o = next(i for i in range(k + 1, len(s)) if s[i] != s[k] and len(s[i]) == len(s[k]))
        s[k], s[o] = s[o], s[k]
        FILES[q] = (open(q).read(), '\n'.join(s) + '\n', os.stat(q))

    def own(q):
        # every process of this check has a copy of the files
        return os.path.join(scratch(), f'p{os.getpid()}', os.path.basename(q))

    def own_files():
        os.makedirs(os.path.dirname(own(path)))
        for q, (a, b, st) in FILES.items():
            with open(own(q), 'w') as f:
                f.write(a)
            os.utime(own(q), ns=(st.st_atime_ns, st.st_mtime_ns))

    def swap_files(other):
        for q, (a, b, st) in FILES.items():
            with open(own(q), 'w') as f:
                f.write(b if other else a)
            os.utime(own(q), ns=(st.st_atime_ns, st.st_mtime_ns))

    ZW = np.zeros((3, 6))
    ZW[:, 5] = 1.0
    PT = np.array([cloud(6)[0], cloud(6)[1]])

    def quiet(f, *a, **k):
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            return f(*a, **k)

    def raises(f, *a, **k):
        try:
            quiet(f, *a, **k)
        except Exception:
            return
        raise Violation(f'call that should fail did not: {f} {a} {k}')

    # ---- the operations of a history -------------------------------------
    class Ctx:
        pass

    def op_track(x):
        m = synth(4, 3, 'double')
        Tracking(m).track(2, (PT[0].copy(), PT[1].copy()))

    def op_track_turn(x):
        Tracking(synth(3, 2, 'turn')).track(0, (PT[0].copy(), PT[1].copy()))

    def op_track_auto(x):
        m = machine(vrf2=1200.0, h_ratio=2.0, phi12=0.4, nprofiles=3)
        m.values_at_turns()
        t = Tracking(m)
        t.track(1)

    def op_track_boom(x):
        def cb(i, n):
            if i == 2:
                raise Boom
        raises(Tracking(synth(4, 3, 'double')).track, 1, (PT[0].copy(), PT[1].copy()), callback=cb)

    def op_track_bad(x):
        raises(Tracking(synth(4, 3, 'single')).track, 9, (PT[0].copy(), PT[1].copy()))

    def op_self(x):
        m = machine(nprofiles=3, dturns=2)
        m.values_at_turns()
        m.g_coupling, m.zwall_over_n = 1.0, 10.0
        p = Profiles(m, 1e-9, pattern((3, 20), 3, 0.1, 1.0), 1e10)
        p.calc_self_fields()
        t = Tracking(m)
        t.enable_self_fields(p)
        t.track(1)

    def op_tomo(x):
        Tomography(W.copy(), X.copy()).run(3)

    def op_tomo_zero(x):
        raises(Tomography(ZW.copy(), np.zeros((4, 3), int)).run, 2)

    def op_tomo_boom(x):
        def cb(i, n):
            raise Boom
        raises(Tomography(W.copy(), X.copy()).run, 2, False, cb)

    def op_tomo_bad(x):
        raises(Tomography, W.copy(), X + 3)

    def op_hybrid(x):
        Tomography(W.copy(), X.copy()).run_hybrid(2)

    def op_multi(x):
        Multi(W.copy(), np.minimum(X, 2)).run([0, 3], [0, 3], [3, 6], 2)

    def op_multi_bad(x):
        raises(Multi(W.copy(), np.minimum(X, 2)).run, [0, 3], [0], [3], 2)

    def op_image(x):
        lib.make_phase_space(X[:, 0].astype(np.int32), X[:, 1].astype(np.int32), pattern(11, 2, 0, 1), 6)

    def op_image_bad(x):
        raises(lib.make_phase_space, X[:, 0].astype(np.int32) + 9, X[:, 1].astype(np.int32), pattern(11, 2, 0, 1), 6)

    def op_run(x):
        quiet(tomo_run.run, own(path))

    def op_run_scope(x):
        quiet(tomo_run.run, own(path_fit), 2, scratch(), True)

    def op_run_bad(x):
        raises(tomo_run.run, path_bad)

    def op_machine_mess(x):
        m = machine(nprofiles=4, charge=2, vrf2=500.0, h_ratio=2.0, bdot=0.3, nbins=31)
        m.values_at_turns()
        for k, v in list(vars(m).items()):
            if isinstance(v, np.ndarray):
                v *= -3.0
        m.nbins, m.dtbin, m.filmstart, m.q = 3, 1.0, 7, 5
        raises(Machine, 1, 2)

    def op_objects_mess(x):
        m = machine(nprofiles=3)
        m.values_at_turns()
        p = Profiles(m, 1e-9, pattern((3, 20), 3, 0.1, 1.0))
        p.waterfall[:] = 7
        t = Tomography(W.copy(), X.copy())
        r = t.run(2)
        r[:] = 99
        t.waterfall[:] = 0.3
        t.recreated[:] = 5
        t.xp[:] = 0
        t.xp = None

    def op_objects(x):
        x.tomo = Tomography(W.copy(), X.copy())
        x.multi = Multi(W.copy(), np.minimum(X, 2))
        x.track = Tracking(synth(4, 3, 'turn'))
        m = machine(nprofiles=3, vrf2=700.0, h_ratio=2.0)
        m.values_at_turns()
        x.auto = Tracking(m)

    def op_post(x):
        h = pattern((5, 6), 4, 0, 1)
        pp.post_process(h, np.arange(5.) * 1e-9, np.arange(6.) * 1e5, 1.4e9, 0.938e9)
        raises(pp.emittance_fractional, h, np.arange(5.), np.arange(6.), 300)

    def op_pre(x):
        pre.rebin(W.copy(), 2, 1e-9, 3.0)
        raises(dtr.rebin, W.copy(), 0)

    def op_cpu(x):
        cfg.use_cpu()

    def op_gpu_fail(x):
        try:
            import cupy  # noqa
        except ImportError:
            raises(cfg.use_gpu)

    def op_gpu_neg(x):
        cfg.use_gpu(-1)

    def op_short(x):
        sc.read_input_file(own(path_fit))
        m = machine(nprofiles=3)
        m.values_at_turns()
        xp, yp = sc.track(m, 0)
        sc.tomogram(pattern((3, 20), 2, 0.1, 1), xp.clip(0, 19), yp, 1)

    # the cheap and state-changing ones first: they make up the deeper histories
    CORE = dict(single=lambda x: cfg.set_single_precision(), double=lambda x: cfg.set_double_precision(),
                cpu=op_cpu, gpu=op_gpu_fail, t1=lambda x: lib.set_num_threads(1),
                t5=lambda x: lib.set_num_threads(5), track=op_track, track_boom=op_track_boom,
                tomo=op_tomo, tomo_zero=op_tomo_zero, objects=op_objects)
    MORE = dict(gpu_neg=op_gpu_neg, t16=lambda x: lib.set_num_threads(16), track_turn=op_track_turn,
                track_auto=op_track_auto, track_bad=op_track_bad, self=op_self, tomo_boom=op_tomo_boom,
                tomo_bad=op_tomo_bad, hybrid=op_hybrid, multi=op_multi, multi_bad=op_multi_bad,
                image=op_image, image_bad=op_image_bad, run=op_run, run_scope=op_run_scope,
                run_bad=op_run_bad, machine_mess=op_machine_mess, objects_mess=op_objects_mess,
                post=op_post, pre=op_pre, short=op_short,
                twin=lambda x: probes(x, True))
    OPS = dict(CORE, **MORE)

    # ---- probes --------------------------------------------------------------
    def numbers(o):
        out = []
        for k in sorted(vars(o)):
            v = getattr(o, k)
            if isinstance(v, (int, float, np.ndarray, np.number)) and not isinstance(v, bool):
                out.append(np.asarray(v))
        return out

    # probes marked 'p' follow the configured precision, the others do not
    def probes(x, tw=False):
        # tw: the same calls with data that differ only in their interior: same
        # shapes, first and last values, sums and extremes; same file names
        def D(v):
            v = np.array(v)
            if tw and v.size > 3:
                f = v.reshape(-1)
                k = next((k for k in range(f.size - 2, 1, -1) if f[k] != f[1]), 1)
                f[1], f[k] = f[k].copy(), f[1].copy()
            return v

        def syn(*a):
            m = synth(*a)
            for k in ('phi0', 'deltaE0', 'drift_coef', 'vrf1_at_turn', 'vrf2_at_turn', 'phi12', 'omega_rev0'):
                if np.ndim(getattr(m, k)):
                    setattr(m, k, D(getattr(m, k)))
            return m
        r = {}
        m = syn(4, 3, 'double')
        d = D(PT)
        r['p track'] = Tracking(m).track(1, (d[0], d[1]))
        r['p track turn'] = Tracking(syn(3, 2, 'turn')).track(2, (d[0], d[1]))
        m = machine(nprofiles=3, vrf2=900.0, h_ratio=2.0, phi12=0.2 + 0.3 * tw, pickup_sensitivity=0.4 + tw,
                    vrf2dot=1e5 * tw, bdot=0.1 * tw)
        W, X, PX = D(W0), D(X0), (lambda *a: D(pattern(*a)))
        r['machine before'] = [np.asarray(getattr(m, k)) for k in sorted(vars(m))
                               if isinstance(getattr(m, k), (int, float)) and not isinstance(getattr(m, k), bool)]
        m.values_at_turns()
        r['machine'] = numbers(m)
        t = Tracking(m)
        a, b = t.track(0)
        r['p auto'] = (a, b)
        u, v = pts.physical_to_coords(a.copy(), b.copy(), m, t.particles.xorigin, t.particles.dEbin)
        r['p coords'] = (u, v)
        u, v, lost = pts.filter_lost(u, v, m.nbins)
        q = pts.ready_for_tomography(u, v, m.nbins)
        t = Tomography(W.copy(), X.copy())
        w = t.run(3)
        r['p tomo'] = (w, t.diff, t.recreated, t.waterfall)
        r['tomo xp'] = (t.xp,)
        h = Tomography(W.copy(), X.copy())
        r['hybrid'] = (h.run_hybrid(2), h.diff)
        k = Multi(W.copy(), np.minimum(X, 2))
        k.run([0, 3], [0, 3], [3, 6], 2)
        r['p multi'] = (k.weight_combined, k.diff, k.diff_split, k.recreated)
        r['image'] = (lib.make_phase_space(X[:, 0].astype(np.int32), X[:, 1].astype(np.int32),
                                           PX((11,), 2, 0, 1), 6),)
        r['image f'] = (lib.make_phase_space(X[:, 0].astype(np.int32), X[:, 1].astype(np.int32),
                                             PX((11,), 2, 0, 1).astype(np.float32), 6),)
        r['raw'] = lib.reconstruct(X.astype(np.int32), (W / W.sum(axis=1, keepdims=True)), 2, 6, 11, 3, False, None)
        p = Profiles(m, 1e-9, PX((3, 20), 3, 0.1, 1.0))
        p.calc_profilecharge()
        r['profiles'] = (p.waterfall, np.asarray(p.profile_charge))
        if tw:          # another content under the same name, size and time stamp
            swap_files(True)
        mm, ww = sc.read_input_file(own(path_fit))
        r['input'] = numbers(mm) + [ww]
        r['p run'] = quiet(tomo_run.run, own(path))
        if tw:
            swap_files(False)
        hh = PX((5, 6), 4, 0, 1)
        e = pp.post_process(hh, np.arange(5.) * 1e-9, np.arange(6.) * 1e5, 1.4e9, 0.938e9)
        r['post'] = [np.asarray(e[k]) for k in sorted(e)]
        r['rebin'] = [np.asarray(q) for q in pre.rebin(W.copy(), 2, 1e-9, 3.0)]
        r['device'] = [np.asarray(str(conf.device) == 'CPU'), np.asarray(cfg.is_gpu_enabled())]
        if tw:
            return None
        # objects made during the history
        t = getattr(x, 'tomo', None)
        if t is not None:
            w = t.run(3)
            r['o tomo'] = (w, t.diff, t.recreated)
            x.multi.run([0, 3], [0, 3], [3, 6], 2)
            r['o multi'] = (x.multi.weight_combined, x.multi.diff)
            r['o track'] = x.track.track(2, (PT[0].copy(), PT[1].copy()))
            r['o auto'] = x.auto.track(1)
        return {k: [np.array(q) for q in v] for k, v in r.items()}

    def in_child(f):
        """Run f in a forked process and return its (picklable) result."""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                own_files()
                try:
                    out = ('ok', f())
                except Violation as e:
                    out = ('violation', str(e))
                except BaseException as e:
                    import traceback
                    out = ('violation', 'unexpected error: ' + traceback.format_exc())
                shutil.rmtree(os.path.dirname(own(path)), ignore_errors=True)
                with os.fdopen(w, 'wb') as g:
                    pickle.dump(out, g)
            except BaseException:
                code = 1
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r, 'rb') as g:
            data = g.read()
        _, st = os.waitpid(pid, 0)
        if st or not data:
            raise Violation(f'process ended with status {st}')
        kind, val = pickle.loads(data)
        if kind == 'violation':
            raise Violation(val)
        return val

    def fresh(prec):
        def f():
            x = Ctx()
            if prec:
                cfg.set_single_precision()
            op_objects(x)
            return probes(x)
        return in_child(f)

    BASE = [fresh(0), fresh(1)]
    for prec in (0, 1):
        for k, v in BASE[prec].items():
            if k.startswith('p '):
                for a in v:
                    if a.dtype.kind == 'f' and k not in ('p coords', 'p run', 'p multi'):
                        if a.dtype != (np.float32 if prec else np.float64):
                            c.direct('fresh', [k, prec], f'{k}: result type {a.dtype} in precision {prec}')

    def judge(hist, x, prec, made):
        got = probes(x)
        want = BASE[prec]
        for k, v in got.items():
            w = want[k]
            expect(len(v) == len(w), f'{k}: {len(v)} results instead of {len(w)} after {hist}')
            single = prec or (k.startswith('o ') and made)
            tol = 2e-4 if k.startswith('o ') and made != prec else 2e-6 if prec else 1e-11
            for i, (a, b) in enumerate(zip(v, w)):
                if not k.startswith('o ') and a.dtype != b.dtype:
                    raise Violation(f'{k}[{i}]: type {a.dtype} instead of {b.dtype} after {hist}')
                if not M.close(a.astype(float), b.astype(float), tol, tol * max(1e-30, np.abs(np.nan_to_num(b.astype(float))).max(initial=0))):
                    raise Violation(f'{k}[{i}] differs from a fresh process (precision {"single" if prec else "double"}) '
                                    f'after {hist}\n{a}\n{b}')
        return len(got)

    def run_hist(hist):
        def f():
            x = Ctx()
            prec, made = 0, 0
            for o in hist:
                OPS[o](x)
                if o == 'single':
                    prec = 1
                elif o == 'double':
                    prec = 0
                elif o == 'objects':
                    made = prec
                now = cfg.get_precision()
                expect(now == (np.float32 if prec else np.float64), f'precision {now} after {hist}')
            n = judge(hist, x, prec, made)
            # the other precision, and back
            for q in (1 - prec, prec):
                (cfg.set_single_precision if q else cfg.set_double_precision)()
                if q == prec or len(hist) <= 1:
                    judge(hist + ['switch'], x, q, made)
            return n
        n = in_child(f)
        return dict(states=len(hist) + 1, transitions=len(hist) + n, traces=1)

    names, core = list(OPS), list(CORE)
    H = [[]] + [[a] for a in names] + [[a, b] for a in names for b in names]
    if th:
        H += [list(h) for h in itertools.product(names, core, names)]
        H += [list(h) for h in itertools.product(core, repeat=4)]
    else:
        H += [list(h) for h in itertools.product(core, names, core)]
    gc.collect()
    gc.freeze()
    c.part('histories', H, run_hist, chunk=8)

    # one process, one long history: every operation after every other one
    def run_long(order):
        seq = []
        n = len(names)
        for i in range(n):                      # a walk using every ordered pair at least once
            for j in range(n):
                seq += [names[(i * order) % n], names[(j * order + i) % n]]

        def f():
            x = Ctx()
            prec, made = 0, 0
            for s, o in enumerate(seq):
                OPS[o](x)
                prec = 1 if o == 'single' else 0 if o == 'double' else prec
                made = prec if o == 'objects' else made
                if s % 97 == 0:
                    judge([f'{s} operations of walk {order}'], x, prec, made)
            judge([f'walk {order}'], x, prec, made)
            return len(seq)
        k = in_child(f)
        return dict(states=k, transitions=k, traces=1)
    c.part('walks', [1, 3, 5, 7] + ([9, 11, 13, 15, 17, 19] if th else []), run_long, chunk=1, case_timeout=1200)


if __name__ == '__main__':
    main(body, 'C08', assumptions=[
        'a process forked right after importing the package counts as fresh',
        'no GPU in this environment: selecting it fails with an import error'])
