"""C14: every parameter line (singly and in pairs), every way of feeding a file,
every frame shape, every truncation of a file."""
from filelib import *


def body(c, lib):
    lib.set_num_threads(1)
    from longitudinal_tomography.utils import tomo_input as ti
    from longitudinal_tomography.compat import fortran
    from longitudinal_tomography.data import data_treatment as dtr
    from longitudinal_tomography import exceptions as expt
    th = c.thorough
    tmp = scratch()

    # alternatives per parameter; every machine built from them is valid
    ALT = {
        'outdir': ['/nowhere/else', 'rel dir'], 'nframes': [5, 9], 'skipf': [1, 2], 'nbins': [30, 61],
        'dt': [2e-9, 4.999999999999999E-10], 'dturns': [1, 5], 'skips': [2, 3], 'skipe': [1, 2], 'emptylo': [1, 4],
        'emptyhi': [1, 3], 'rebin': [2, 3], 'spx': [7.25, -1.0], 'demax': [2.5e5, -1.0], 'film0': [2],
        'film1': [3, 4], 'films': [2], 'niter': [1, 40], 'snpt': [1, 5], 'full': [1], 'bref': [2, 3], 'mref': [2, 3],
        'v1': [3000.5, 8000], 'v1dot': [1e5, -2e4], 'v2': [500.25, 900], 'v2dot': [3e4], 'h': [2, 3], 'hr': [2.0, 3.0],
        'phi12': [0.3, -0.2], 'b0': [0.2, 0.86129], 'bdot': [0.05, -0.02], 'radius': [26.5, 100.0], 'rho': [8.0, 9.5],
        'gt': [4.5, 6.1], 'erest': [0.9395e9, 1.9e9], 'q': [2], 'sf': [1], 'g': [0.5, 3.0], 'zw': [15.0, 2.5],
        'pick': [0.9, 12.0]}
    implied = {'film0': {'film1': 3}, 'films': {'film1': 3}, 'v2dot': {'v2': 400.0}}

    def refused(fn, what, kinds=(Exception,)):
        try:
            r = fn()
        except kinds:
            return
        except Violation:
            raise
        except Exception as e:
            raise Violation(f'{what}: unexpected error {e!r}')
        raise Violation(f'{what} accepted: {r}')

    def check_objects(p, m, f, ctx):
        em, ef = expected(p)
        for k, v in em.items():
            g = getattr(m, k)
            ok = (g == v) if isinstance(v, (str, bool)) else abs(float(g) - float(v)) <= 1e-12 * abs(float(v))
            expect(ok, f'machine.{k} is {g!r}, file says {v!r} {ctx}')
        for k, v in ef.items():
            g = getattr(f, k)
            expect(g == v, f'frame {k} is {g!r}, file says {v!r} {ctx}')
        expect(f.nprofs() == em['nprofiles'] and f.nbins() == em['nbins'], f'frame dimensions {ctx}')
        n = m.dturns * (m.nprofiles - 1) + 1
        expect(len(m.phi0) == n and len(m.vrf1_at_turn) == n, f'turn arrays {len(m.phi0)} {n} {ctx}')

    singles = [[{k: v}] for k in ALT for v in ALT[k]]
    pairs = [[{a: x, b: y}] for a, b in itertools.combinations(sorted(ALT), 2) for x in ALT[a] for y in ALT[b]]
    if th:
        pairs += [[{a: ALT[a][0], b: ALT[b][-1], d: ALT[d][0]}] for a, b, d in itertools.combinations(sorted(ALT), 3)]

    def full_kw(kw):
        r = {}
        for k in kw:
            r.update(implied.get(k, {}))
        r.update(kw)
        if r.get('films', 1) > 1 or r.get('film0', 1) > r.get('film1', 1) or 'film0' in kw or 'films' in kw:
            r['film1'] = max(r.get('film1', 1), 3)
        return r

    def run_param(case):
        kw = full_kw(case[0])
        p = params(**kw)
        ls = lines(**kw)
        src = np.array([x + '\n' for x in ls])
        if p['mref'] > p['nframes'] - p['skipf']:
            # reference profile outside of the measurement
            refused(lambda: ti.txt_input_to_machine(src), f'reference profile outside the measurement {kw}')
            return dict(states=1, transitions=1, traces=1)
        m, f = ti.txt_input_to_machine(src)
        check_objects(p, m, f, str(kw))
        m, f = ti.txt_input_to_machine([x + '\r\n' for x in ls])
        check_objects(p, m, f, str(kw))
        m, f = ti.txt_input_to_machine(list(ls))
        check_objects(p, m, f, str(kw))
        return dict(states=1, transitions=len(NAMES) * 3, traces=3)

    c.part('parameters_and_pairs', singles + pairs, run_param)

    # ---- routes: the same file in every way
    routes = [[r, nl, kw] for r in ('pipe', 'sep', 'stdin', 'stdin_default', 'stdin_sep') for nl in ('\n', '\r\n')
              for kw in ({}, {'nbins': 40, 'skipf': 1, 'skips': 2, 'skipe': 3, 'rebin': 2, 'bref': 2}, {'nframes': 7, 'nbins': 33},
                         {'nframes': 1 + 1, 'nbins': 20}, {'nbins': 60, 'rebin': 7, 'skipe': 1})]

    def run_route(case):
        r, nl, kw = case
        d = os.path.join(tmp, f'r{os.getpid()}')
        os.makedirs(d, exist_ok=True)
        dat, fil = os.path.join(d, 'raw.dat'), os.path.join(d, 'in.dat')
        p = params(**kw)
        data = raw(p['nframes'], p['nbins'])
        if 'sep' in r:
            p = params(data=dat, **kw)
            write(dat, [], data, nl)
            ls = lines(data=dat, **kw)
            write(fil, ls, None, nl)
        else:
            ls = lines(**kw)
            write(fil, ls, data, nl)
        if r.startswith('stdin'):
            with Stdin(open(fil, newline='').read()):
                pr, rd = ti.get_user_input('' if r == 'stdin_default' else 'stdin')
        else:
            pr, rd = ti.get_user_input(fil)
        same('raw data', rd, data, 1e-12)
        expect([str(x).strip('\r\n') for x in pr] == ls, f'parameters changed on the way {case}')
        m, f = ti.txt_input_to_machine(pr)
        check_objects(p, m, f, str(case))
        w = f.to_waterfall(rd)
        same('waterfall', w, ref_waterfall(p, data), 1e-12, ctx=str(case))
        keep = w.copy()
        pro = ti.raw_data_to_profiles(w, m, f.rebin, f.sampling_time)
        want = ref_profiles(keep, p['bref'] - 1, p['rebin'])
        same('profiles', pro.waterfall, want, 1e-9, atol=1e-9, ctx=str(case))
        expect(np.array_equal(keep, w), 'input waterfall modified')
        expect(m.nbins == want.shape[1] and m.synch_part_y == want.shape[1] / 2, 'machine bins not updated')
        same('dtbin', m.dtbin, p['dt'] * p['rebin'], 1e-12)
        same('synch_part_x', m.synch_part_x, p['spx'] / p['rebin'], 1e-12)
        expect(pro.sampling_time == p['dt'] and pro.machine is m, 'profile bookkeeping')
        from longitudinal_tomography import shortcuts
        if r in ('pipe', 'sep'):
            m2, w2 = shortcuts.read_input_file(fil)
            same('shortcut profiles', w2, want, 1e-9, atol=1e-9, ctx=str(case))
        return dict(states=1, transitions=8, traces=1)

    c.part('routes', routes, run_route)

    # ---- frames: every shape and skip, accepted exactly when consistent
    fr = [[nf, nb] for nf in range(1, 5) for nb in range(1, 7 if not th else 9)]

    def run_frames(case):
        nf, nb = case
        k = 0
        data = np.arange(nf * nb, dtype=float)
        for sf in range(-1, nf + 2):
            for a in range(-1, nb + 2):
                for b in range(-1, nb + 2):
                    for rb in (-1, 0, 1, 3):
                        ok = 0 <= sf <= nf - 1 and 0 <= a and 0 <= b and a + b < nb and rb >= 1
                        f = ti.Frames(nf, nb, sf, a, b, rb, 1e-9)
                        try:
                            w = f.to_waterfall(data)
                        except expt.InputError:
                            expect(not ok, f'valid frame refused {case} {sf} {a} {b} {rb}')
                            k += 1
                            continue
                        expect(ok, f'invalid frame accepted {case} skip={sf} start={a} end={b} rebin={rb}')
                        want = data.reshape(nf, nb)[sf:, a:nb - b]
                        expect(np.array_equal(w, want) and w.shape == (f.nprofs(), f.nbins()),
                               f'waterfall {w} {case} {sf} {a} {b}')
                        k += 1
        f = ti.Frames(nf, nb, 0, 0, 0, 1, 1e-9)
        for n in {0, 1, nf * nb - 1, nf * nb, nf * nb + 1, 2 * nf * nb}:
            for how in ('waterfall', 'setter'):
                try:
                    if how == 'waterfall':
                        f.to_waterfall(np.zeros(n))
                    else:
                        f.raw_data = np.arange(n)
                        got = f.raw_data
                        expect(np.array_equal(got, np.arange(n)), 'raw data')
                        got[:] = -1
                        expect(np.array_equal(f.raw_data, np.arange(n)), 'raw data shared with the caller')
                    expect(n == nf * nb, f'{n} values accepted for {case}')
                except expt.RawDataImportError:
                    expect(n != nf * nb, f'{n} values refused for {case}')
                k += 1
        keep = data.copy()
        w = f.to_waterfall(data)
        w[:] = -3
        expect(np.array_equal(keep, data), 'waterfall shares memory with the raw data')
        for bad in (5, None, 2.5):
            try:
                f.to_waterfall(bad)
                raise Violation(f'{bad} accepted as raw data')
            except expt.RawDataImportError:
                pass
        return dict(states=k, transitions=k, traces=k)

    c.part('frames', fr, run_frames)

    # sizes past those of a byte, a short or a buffer
    def run_big(case):
        nf, nb, skip, how = case
        kw = dict(nframes=nf, nbins=nb, skipf=skip, bref=1)
        p, data = params(**kw), raw(nf, nb)
        fil = os.path.join(tmp, f'big{os.getpid()}.dat')
        write(fil, lines(**kw), data)
        if how == 'stdin':
            with Stdin(open(fil, newline='').read()):
                pr, rd = ti.get_user_input('stdin')
        else:
            pr, rd = ti.get_user_input(fil)
        os.remove(fil)
        same('raw data', rd, data, 1e-12)
        m, f = ti.txt_input_to_machine(pr)
        check_objects(p, m, f, str(case))
        same('waterfall', f.to_waterfall(rd), ref_waterfall(p, data), 1e-12, ctx=str(case))
        return dict(states=1, transitions=3, traces=1)

    c.part('large_files', [[nf, nb, s, h] for nf, nb in ((3, 300), (140, 12), (300, 10), (40, 2000), (700, 100)) for s in
                           sorted({0, 1, nf // 2, nf - 3, min(nf - 2, 127), min(nf - 2, 128), min(nf - 2, 129), min(nf - 2, 257)})
                           for h in ('file', 'stdin')], run_big, chunk=1)

    # ---- baseline and profiles for every width, reference profile and rebin factor
    bl = [[n, ref, rb] for n in list(range(20, 64)) + [100, 119, 120, 121, 400] for ref in range(3)
          for rb in (1, 2, 3, 4, 5, 7, 20)]

    def run_bl(case):
        n, ref, rb = case
        w = raw(3, n).reshape(3, n) + np.arange(3)[:, None] * 0.05
        w0 = w.copy()
        kk = 0
        for pc in (0.05, 0.1, 0.5, 1.0):
            k = int(pc * n)
            want = w[ref, :k].sum() / k
            same('baseline', fortran.calc_baseline(w, ref, pc), want, 1e-12, ctx=str(case))
            kk += 1
        same('baseline default', fortran.calc_baseline(w, ref), w[ref, :int(0.05 * n)].mean(), 1e-12)
        same('baseline old name', dtr.calc_baseline_ftn(w, ref), w[ref, :int(0.05 * n)].mean(), 1e-12)
        for pc in (-0.1, 1.01, 2, 0.0, 0.5 / n):
            try:
                v = fortran.calc_baseline(w, ref, pc)
                raise Violation(f'percentage {pc} accepted: {v}')
            except expt.InputError:
                kk += 1
        for spx in (None, 9.5):
            m = machine(nprofiles=3, nbins=n, dturns=1, beam_ref_frame=ref, synch_part_x=4.25, dtbin=3e-9)
            p = ti.raw_data_to_profiles(w, m, rb, 2e-9) if spx is None else ti.raw_data_to_profiles(w, m, rb, 2e-9, spx)
            want = ref_profiles(w0, ref, rb)
            same('profiles', p.waterfall, want, 1e-9, atol=1e-9, ctx=str(case))
            same('dtbin', m.dtbin, rb * 2e-9, 1e-12)
            same('synch x', m.synch_part_x, (4.25 if spx is None else spx) / rb, 1e-12)
            expect(m.nbins == want.shape[1] and m.synch_part_y == m.nbins / 2, 'bins')
            expect(np.array_equal(w, w0), 'measurement modified')
            kk += 1
        return dict(states=kk, transitions=kk, traces=kk)

    c.part('baseline', bl, run_bl)

    # ---- rejections: every wrong line count, every wrong data count, unusable values
    rej = [['lines', n] for n in list(range(0, 98)) + list(range(99, 110)) + [200]] + \
          [['data', d] for d in (-96, -40, -2, -1, 1, 2, 24, 96)] + [['value', i] for i in sorted(LINES) if i not in (12, 14)] + \
          [['path', 0], ['rawpath', 0], ['type', 0], ['short_file', 0]]

    def run_rej(case):
        kind, v = case
        d = os.path.join(tmp, f'j{os.getpid()}')
        os.makedirs(d, exist_ok=True)
        fil = os.path.join(d, 'in.dat')
        p = params()
        data = raw(p['nframes'], p['nbins'])
        k = 1
        if kind == 'lines':
            ls = (lines() + ['! more'] * 200)[:v]
            refused(lambda: ti.txt_input_to_machine(list(ls)), f'{v} parameter lines', (expt.InputError,))
            write(fil, ls, data)
            if v not in (98,):
                # as a file: the shifted content must not be taken for a complete input
                if v < 98 or v > 98:
                    refused(lambda: ti.get_user_input(fil), f'file with {v} parameter lines')
                    with Stdin(open(fil).read()):
                        try:
                            r = ti.get_user_input('stdin')
                            # standard input may carry more than is needed
                            expect(v < 0, f'stdin with {v} parameter lines accepted')
                        except Violation:
                            raise
                        except Exception:
                            pass
                k = 3
        elif kind == 'data':
            dd = np.concatenate([data, data, data])[:max(0, len(data) + v)]
            write(fil, lines(), dd)
            refused(lambda: ti.get_user_input(fil), f'{len(dd)} of {len(data)} values piped', (expt.InputError,))
            raw_f = os.path.join(d, 'raw.dat')
            if len(dd) > 1:
                write(raw_f, [], dd)
                write(fil, lines(data=raw_f))
                refused(lambda: ti.get_user_input(fil), f'{len(dd)} of {len(data)} values in data file', (expt.InputError,))
            if v < 0:
                write(fil, lines(), dd)
                with Stdin(open(fil).read()):
                    refused(lambda: ti.get_user_input('stdin'), 'short standard input')
            k = 3
        elif kind == 'value':
            for bad in ('', 'abc', '1 2', '!'):
                ls = lines()
                ls[v] = bad
                refused(lambda: ti.txt_input_to_machine(list(ls)), f'line {v} = {bad!r}', (ValueError, expt.InputError))
            k = 4
        elif kind == 'path':
            refused(lambda: ti.get_user_input(os.path.join(d, 'missing.dat')), 'missing file', (expt.InputError,))
            refused(lambda: ti.get_user_input(d), 'directory', (expt.InputError,))
        elif kind == 'rawpath':
            write(fil, lines(data=os.path.join(d, 'no_raw.dat')))
            refused(lambda: ti.get_user_input(fil), 'missing raw data', (FileNotFoundError,))
        elif kind == 'type':
            for bad in (None, 5, 2.5):
                refused(lambda: ti.txt_input_to_machine(bad), repr(bad), (expt.InputError,))
                m = machine()
                refused(lambda: ti.raw_data_to_profiles(bad, m, 1, 1e-9), repr(bad), (expt.WaterfallError,))
        elif kind == 'short_file':
            write(fil, lines()[:40])
            refused(lambda: ti.get_user_input(fil), 'truncated file')
        return dict(states=k, transitions=k, traces=k)

    c.part('rejections', rej, run_rej)


main(body, 'C14', assumptions=['raw data are numbers; text parsing of Fortran D exponents is outside',
                               'lines beyond the end of a parameter block only matter for files'])
