"""C19: every writer for profile numbers, magnitudes, shapes and histories of
overwriting; plot information and progress text for a grid of machines."""
import io
import re
import shutil
import tempfile
from contextlib import redirect_stdout
from tracklib import *
from c19lib import captured, lines_of, check_values, check_diff


VAL = [0.0, -0.0, 1.0, -1.0, 0.5, 1 / 3, -2 / 3, 1.23456789012e-5, 9.99999999, 0.99999995, 1e-99, 1e-300, 5e-324, 1e100,
       1.7e308, -4.2e17, 123456789.0, 1e-7, 3.0000001, 2.99999995, 1e22]


def body(c, lib):
    lib.set_num_threads(1)
    from longitudinal_tomography.compat import fortran as ftn, tomoscope as tsc
    from longitudinal_tomography.utils import tomo_output as out
    from longitudinal_tomography.tracking.tracking import Tracking
    from longitudinal_tomography.tracking.particles import Particles
    from longitudinal_tomography import exceptions as expt
    th = c.thorough
    tmp = scratch()

    def outdir():
        return tempfile.mkdtemp(prefix='o', dir=tmp)

    def only(d, names):
        got = sorted(os.listdir(d))
        expect(got == sorted(names), f'files {got}, expected {names}')

    # writers: (name, function(data, index, dir), file name, checker, source shape)
    def image_writer(data, idx, d):
        n = data.shape[0]
        # particles that produce exactly this image at profile idx
        xp = np.zeros((n * n, idx + 1), dtype=np.int32)
        yp = np.zeros((n * n, idx + 1), dtype=np.int32)
        ii, jj = np.divmod(np.arange(n * n), n)
        xp[:, idx], yp[:, idx] = ii, jj
        if idx:
            xp[:, 0], yp[:, 0] = jj[::-1], ii[::-1]
        tsc.save_image(xp, yp, data.ravel().astype(float), n, idx, d)

    def W(idx):
        k = f'{idx + 1:03d}'
        return {
            'profile': (lambda a, d: ftn.save_profile(a, idx, d), f'profile{k}.data', 2),
            'profile_old': (lambda a, d: out.save_profile_ftn(a, idx, d), f'profile{k}.data', 2),
            'tprofile': (lambda a, d: tsc.save_profile(a[idx], idx, d), f'profile{k}.data', 2),
            'image': (lambda a, d: ftn.save_phase_space(a, idx, d), f'image{k}.data', 1),
            'image_old': (lambda a, d: out.save_phase_space_ftn(a, idx, d), f'image{k}.data', 1),
            'vself': (lambda a, d: ftn.save_self_volt_profile(a, d), 'vself.data', 1),
            'vself_old': (lambda a, d: out.save_self_volt_profile_ftn(a, d), 'vself.data', 1),
            'diff': (lambda a, d: ftn.save_difference(a.ravel(), d, idx), f'd{k}.data', 0),
            'diff_old': (lambda a, d: out.save_difference_ftn(a.ravel(), d, idx), f'd{k}.data', 0),
            'tdiff': (lambda a, d: tsc.save_difference(a.ravel(), d, idx), f'd{k}.data', 0),
        }

    def one(kind, idx, data, d, ctx):
        fn, name, mode = W(idx)[kind]
        if mode == 2:
            # the profile with the given number, other profiles different
            a = np.zeros((idx + 2, data.size), dtype=data.dtype) + 77.25
            a[idx] = data.ravel()
        else:
            a = data
        a0 = a.copy()
        fn(a, d)
        expect(np.array_equal(a, a0), f'{kind}: data modified')
        (check_diff if mode == 0 else check_values)(os.path.join(d, name), data.ravel(), f'{kind} {ctx}')
        return name

    KINDSW = sorted(W(0))

    # ---- profile numbers
    def run_idx(case):
        kind, a, b = case
        d = outdir()
        names = set()
        for idx in range(a, b):
            names.add(one(kind, idx, np.array([[1.5, -2.25], [0.0, 3e-4 + idx]]), d, f'index {idx}'))
        only(d, names)
        shutil.rmtree(d)
        return dict(states=b - a, transitions=b - a, traces=b - a)

    top = 1200 if th else 130
    idxs = [[k, a, b] for k in KINDSW for a, b in blocks(top, 50)] + [[k, a, a + 3] for k in KINDSW for a in (198, 497, 998)]
    c.part('profile_numbers', idxs, run_idx)

    # ---- values and shapes
    def run_val(case):
        kind, shape = case
        d = outdir()
        n = 0
        size = int(np.prod(shape))
        for s in range(len(VAL) if size else 1):
            for dt in (np.float64, np.float32, np.int64):
                v = np.array([VAL[(s + i) % len(VAL)] for i in range(size)], float)
                if dt is np.float32:
                    v = np.clip(v, -3e38, 3e38)
                if dt is np.int64:
                    v = np.clip(np.round(v), -1e15, 1e15)
                v = v.astype(dt).reshape(shape)
                one(kind, s % 4, v, d, f'{shape} {dt.__name__}')
                if v.ndim == 2 and kind in ('image', 'vself', 'image_old', 'vself_old'):
                    # views: row-major order of the values, not of the memory
                    one(kind, s % 4, np.asfortranarray(v), d, f'{shape} column major')
                    one(kind, s % 4, v.T, d, f'{shape} transposed')
                    one(kind, s % 4, v[::-1, ::-1], d, f'{shape} reversed')
                n += 1
        shutil.rmtree(d)
        return dict(states=n, transitions=n, traces=n)

    shapes = [(a, b) for a in range(1, 6) for b in range(1, 6)] + [(1, n) for n in (9, 10, 11, 12, 99, 100, 101, 102, 300, 1001)]
    c.part('values_and_shapes', [[k, list(s)] for k in KINDSW for s in shapes if k.find('image') < 0 or s[0] == s[1]], run_val)

    # ---- tomoscope images made from particles
    def run_img(case):
        n, idx, s = case
        d = outdir()
        v = np.abs(pattern((n, n), s + 1, -0.3, 1.0)) + 0.01
        image_writer(v, idx, d)
        path = os.path.join(d, f'image{idx + 1:03d}.data')
        only(d, [os.path.basename(path)])
        ls = [float(x) for x in lines_of(path)]
        same('image', ls, (v / v.sum()).ravel(), 1e-6, 1e-9)
        shutil.rmtree(d)
        return dict(states=1, transitions=1, traces=1)

    c.part('tomoscope_images', [[n, i, s] for n in range(1, 9) for i in (0, 1, 2, 11, 120) for s in range(3)], run_img)

    # ---- histories of writes to the same directory
    ops = [(k, i, sz) for k in ('profile', 'tprofile', 'image', 'diff', 'tdiff', 'vself') for i in (0, 1) for sz in (1, 3)]
    depth = 3
    hist = [[a] for a in range(len(ops))]

    def run_hist(case):
        n = 0
        for rest in itertools.product(range(len(ops)), repeat=depth - 1):
            d = outdir()
            state = {}
            for step, o in enumerate([case[0]] + list(rest)):
                k, i, sz = ops[o]
                v = pattern((sz, sz), 10 * step + o, -1, 1)
                fn, name, mode = W(i)[k]
                a = v
                if mode == 2:
                    a = np.zeros((3, v.size))
                    a[i] = v.ravel()
                fn(a, d)
                state[name] = (mode, v.ravel())
            only(d, state)
            for name, (mode, v) in state.items():
                (check_diff if mode == 0 else check_values)(os.path.join(d, name), v, f'history {case} {rest}')
            shutil.rmtree(d)
            n += 1
        return dict(states=n, transitions=n * depth, traces=n)

    c.part('write_histories', hist, run_hist, chunk=1)

    # ---- plot information
    NUM = r'([-+0-9.eEnainf]+)'

    def parse(text):
        g = {}
        for key in ('profilecount', 'profilelength', 'dtbin', 'dEbin', 'eperimage', 'xat0', 'yat0', 'tangentfootl',
                    'tangentfootu', 'fit xat0'):
            m = re.findall(r'^ *' + key + r' *= *' + NUM + r' *$', text, re.M)
            expect(len(m) == 1, f'{key}: {m} in\n{text}')
            g[key] = float(m[0])
        m = re.findall(r'phi0\( *(\d+) *\) *= *' + NUM, text)
        expect(len(m) == 1, f'phi0 {m}')
        g['phi0'] = (int(m[0][0]), float(m[0][1]))
        m = re.findall(r'imin\( *(\d+) *\) *= *' + NUM + r' +and +imax\( *(\d+) *\) *= *' + NUM, text)
        expect(len(m) == 1, f'limits {m} in {text}')
        g['lim'] = (int(m[0][0]), float(m[0][1]), int(m[0][2]), float(m[0][3]))
        return g

    def close(name, got, want, dec=None, sig=None):
        tol = 0.5000001 * 10.0 ** -dec if dec is not None else abs(want) * 0.5000001 * 10.0 ** -(sig - 1)
        expect(abs(got - want) <= tol + 1e-300, f'{name} printed {got}, is {want}')

    def run_plot(case):
        p, film, fit, charge = case
        kw = dict(PHYS_SET[p])
        m = machine(filmstart=film, filmstop=max(film, 1), synch_part_x=9.4, **kw)
        if fit:
            m.load_fitted_synch_part_x_ftn((10.1234, 2.3456, 17.891))
        pa = Particles()
        pa.homogeneous_distribution(m, film)
        for fn in (ftn.write_plotinfo, out.write_plotinfo_ftn):
            text = fn(m, pa, charge)
            expect(isinstance(text, str), 'no text')
            g = parse(text)
            expect(g['profilecount'] == m.nprofiles and g['profilelength'] == m.nbins, f'{g}')
            close('dtbin', g['dtbin'], m.dtbin, sig=5)
            close('dEbin', g['dEbin'], pa.dEbin, sig=5)
            close('charge', g['eperimage'], charge, sig=4)
            close('x', g['xat0'], m.synch_part_x, dec=3)
            close('y', g['yat0'], m.synch_part_y, dec=3)
            close('foot l', g['tangentfootl'], 2.3456 if fit else 0, dec=3)
            close('foot u', g['tangentfootu'], 17.891 if fit else 0, dec=3)
            close('fit', g['fit xat0'], 10.1234 if fit else 0, dec=3)
            expect(g['phi0'][0] == film + 1 and g['lim'][0] == film + 1 and g['lim'][2] == film + 1, f'profile number {g}')
            close('phi0', g['phi0'][1], m.phi0[film * m.dturns], dec=4)
            expect(g['lim'][1] == pa.imin and g['lim'][3] == pa.imax, f'limits {g}')
        for f, err in (('dEbin', expt.EnergyBinningError), ('imin', expt.PhaseLimitsError), ('imax', expt.PhaseLimitsError)):
            q = Particles()
            q.homogeneous_distribution(m, film)
            setattr(q, f, None)
            try:
                ftn.write_plotinfo(m, q, charge)
                raise Violation(f'{f} missing but text written')
            except err:
                pass
        return dict(states=1, transitions=5, traces=5)

    c.part('plot_information', [[p, f, fit, q] for p in range(len(PHYS_SET)) for f in range(4) for fit in (0, 1)
                                for q in (0.0, 1.0, 3.14159e11, 2.5e-3)], run_plot)

    # ---- progress lines
    LINE = re.compile(r'^ *Tracking from time slice +(\d+) +to +(\d+), +0\.000% went outside the image width\.$')

    def run_line(case):
        a, b = case
        for fn in (ftn.print_tracking_status, out.print_tracking_status_ftn):
            s = io.StringIO()
            with redirect_stdout(s):
                fn(a, b)
            m = LINE.match(s.getvalue().rstrip('\n'))
            expect(m and (int(m[1]), int(m[2])) == (a + 1, b + 1), f'{s.getvalue()!r} for {a} {b}')
        return dict(states=1, transitions=2, traces=2)

    c.part('progress_line', [[a, b] for a in list(range(12)) + [99, 999] for b in list(range(12)) + [100, 1000]], run_line)

    def run_prog(case):
        nprof, d, rec, auto = case
        n = 0
        for on in (True, False):
            m = machine(nprofiles=nprof, dturns=d)
            t = Tracking(m)
            if on:
                t.enable_fortran_output(1.5e10)
            expect(t.fortran_flag is on, 'flag')
            for hyb in (False, True):
                x, y = cloud(4)
                x, y = x * 1e-2, y * 1e3
                if hyb:
                    f = lambda: t.kick_and_drift(y.copy(), x.copy(), m.vrf1_at_turn * m.q, m.vrf2_at_turn * m.q, rec)
                else:
                    f = lambda: t.track(rec) if auto else t.track(rec, (x, y))
                _, text = captured(f)
                ls = text.split('\n')
                got = [(int(q[1]), int(q[2])) for q in map(LINE.match, ls) if q]
                other = [s for s in ls if s.strip() and not LINE.match(s)]
                want = [(rec + 1, k + 1) for k in list(range(rec + 1, nprof)) + list(range(rec - 1, -1, -1))] if on else []
                expect(got == want, f'progress {got}, expected {want} {case} hybrid={hyb}')
                if on and auto and not hyb:
                    g = parse('\n'.join(other))
                    close('charge', g['eperimage'], 1.5e10, sig=4)
                    expect(g['profilecount'] == nprof, 'plot information')
                else:
                    expect(not other, f'unexpected output {other}')
                n += 1
        return dict(states=n, transitions=n * nprof, traces=n)

    c.part('progress_of_tracking', [[n, d, r, a] for n in range(1, 6) for d in (1, 2, 3) for r in range(n) for a in (0, 1)],
           run_prog)

    def run_noc(case):
        try:
            Tracking(machine()).enable_fortran_output(None)
            raise Violation('output enabled without charge')
        except expt.ProfileChargeNotCalculated:
            return dict(states=1, transitions=1, traces=1)

    c.part('refusal', [[0]], run_noc)


main(body, 'C19', assumptions=['Spacing between the tokens of a line is not judged.'])
