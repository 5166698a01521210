"""C21: complete runs of generated input files for a grid of settings, each
compared with an independent composition of the documented steps; viewer mode,
command line, convenience functions and histories of runs."""
import runpy
import shutil
import tempfile
from filelib import *
from c19lib import captured, lines_of, check_values, check_diff

BASE = dict(nframes=5, nbins=24, niter=4, snpt=2, dturns=2)


class Ref:
    """The documented steps, written out: only the particle distribution and
    the fit of the synchronous position are taken from the library (they have
    properties of their own)."""

    def __init__(self, p, data, idx=None):
        from longitudinal_tomography.tracking.particles import Particles
        from longitudinal_tomography.data import data_treatment as dt
        from longitudinal_tomography.data.profiles import Profiles
        from longitudinal_tomography.tracking.machine import Machine
        e, _ = expected(p)
        kw = {k: e[k] for k in e if k not in ('synch_part_y', 'e_rest', 'q')}
        m = Machine(rest_energy=e['e_rest'], charge=e['q'], **kw)
        m.values_at_turns()
        w = ref_profiles(ref_waterfall(p, data), m.beam_ref_frame, p['rebin'])
        m.dtbin = p['dt'] * p['rebin']
        m.synch_part_x = p['spx'] / p['rebin']
        self.prof = w
        self.charge = None
        m.nbins = w.shape[1]
        m.synch_part_y = m.nbins / 2.0
        self.fitted = None
        if p['spx'] < 0:
            m2 = Machine(rest_energy=e['e_rest'], charge=e['q'], **dict(kw, synch_part_x=p['spx'] / p['rebin']))
            m2.values_at_turns()
            m2.dtbin = m.dtbin
            try:
                self.fitted = dt.fit_synch_part_x(Profiles(m2, p['dt'], w.copy()))
            except Exception:       # too few bins for a fit
                self.empty, self.ambiguous = True, False
                return
            m.synch_part_x = self.fitted[0]
        self.m = m
        self.idx = idx = m.filmstart if idx is None else idx
        pa = Particles()
        try:
            pa.homogeneous_distribution(m, idx)
        except Exception:       # settings without a reconstruction area
            self.empty, self.ambiguous = True, False
            return
        self.pa = pa
        x, y = pa.coordinates_dphi_denergy
        X, Y = model_of(m, x, y, idx if idx >= 0 else idx + m.nprofiles)
        t = np.arange(m.nprofiles) * m.dturns
        xp = (X + m.phi0[t][:, None]) / (m.h_num * m.omega_rev0[t][:, None] * m.dtbin) - pa.xorigin
        yp = Y / pa.dEbin + m.synch_part_y
        bad = ((xp < 0) | (xp >= m.nbins)).any(axis=0)
        self.ambiguous = bool((np.abs(xp - np.round(xp)) < 1e-7).any() or (np.abs(yp - np.round(yp)) < 1e-7).any())
        self.lost = int(bad.sum())
        xp, yp = xp[:, ~bad].T, yp[:, ~bad].T
        self.yout = (yp < 0) | (yp >= m.nbins)
        self.xp, self.yp = np.floor(xp).astype(int), np.floor(yp).astype(int)
        wf = np.maximum(w, 0)
        self.wf = wf / wf.sum(axis=1, keepdims=True)
        self.empty = xp.shape[0] == 0
        if not self.empty:
            try:
                self.w, self.diff, self.rec, _ = M.reconstruct(self.xp, self.wf, m.niter)
            except M.Ambiguous:
                self.ambiguous = True
            except M.Zero:          # all weights vanish: an error
                self.empty = True
        self.t = (np.arange(m.nbins) - m.synch_part_x) * m.dtbin
        self.E = (np.arange(m.nbins) - m.synch_part_y) * pa.dEbin

    def image(self, film):
        if self.yout[:, film].any():
            return None
        im = np.zeros((self.m.nbins, self.m.nbins))
        np.add.at(im, (self.xp[:, film], self.yp[:, film]), self.w)
        return im / im.sum()


def body(c, lib):
    lib.set_num_threads(1)
    os.environ['MPLBACKEND'] = 'Agg'
    from longitudinal_tomography.utils import tomo_run
    from longitudinal_tomography import shortcuts as sc
    from longitudinal_tomography.data import data_treatment as dt
    from longitudinal_tomography.compat import fortran as ftn
    th = c.thorough
    tmp = scratch()

    def infile(p, seed=1, d=None):
        f = tempfile.mkstemp(dir=tmp, suffix='.dat')[1]
        data = raw(p['nframes'], p['nbins'], seed)
        write(f, lines(**p), data if p['data'] == 'pipe' else None)
        return f, data

    def compare(got, r, ctx, film=None):
        expect(isinstance(got, tuple) and len(got) == 3, f'returned {type(got)} {ctx}')
        t, E, im = got
        expect(np.shape(im) == (r.m.nbins, r.m.nbins), f'image shape {np.shape(im)} {ctx}')
        expect(np.all(np.asarray(im) >= 0), f'negative density {ctx}')
        expect(abs(np.sum(im) - 1) < 1e-9, f'sums to {np.sum(im)} {ctx}')
        same('time axis', t, r.t, 1e-9, ctx=ctx)
        same('energy axis', E, r.E, 1e-9, ctx=ctx)
        if not r.ambiguous:
            want = r.image(r.idx if film is None else film)
            same('image', im, want, 1e-7, ctx=ctx)

    DIM = dict(
        nframes=[5, 3, 2, 7], nbins=[24, 30, 21], dturns=[2, 1, 5, 60, 200], rebin=[1, 2, 3], niter=[4, 1, 9], snpt=[2, 1, 3],
        spx=[12.0, -1.0, 10.5], full=[0, 1], bref=[1, 2], mref=[1, 2], film0=[1, 2], skipf=[0, 1], skips=[0, 2],
        skipe=[0, 3], emptylo=[0, 2], emptyhi=[0, 2], demax=[-1e6, 3e5, 6e5], v2=[0.0, 900.0], phi12=[0.0, 0.3],
        v1dot=[0.0, 5e6], bdot=[0.0, 0.5], q=[1, 2], h=[1, 2], sf=[0, 1], hr=[2.0, 3.0])

    def valid(p):
        np_ = p['nframes'] - p['skipf']
        if max(p['bref'], p['mref'], p['film0']) > np_ or np_ < 2:
            return False
        if p['spx'] < 0 and (p['v1dot'] or p['v2dot']):
            return False
        return p['nbins'] - p['skips'] - p['skipe'] >= 20

    def settings(pairs):
        keys = list(DIM)
        yield dict(BASE)
        for k in keys:
            for v in DIM[k][1:]:
                yield dict(BASE, **{k: v})
        if pairs:
            for a, b in itertools.combinations(keys, 2):
                for u in DIM[a][1:]:
                    for v in DIM[b][1:]:
                        yield dict(BASE, **{a: u, b: v})

    def full(kw):
        p = dict(BASE)
        p.update(hr=2.0)
        p.update(kw)
        if 'spx' not in kw:
            p['spx'] = (p['nbins'] - p.get('skips', 0) - p.get('skipe', 0)) / 2.0
        if p.get('h', 1) == 2 and 'dt' not in kw:
            p['dt'] = 5e-9
        if 'film1' not in kw:
            p['film1'] = max(p.get('film0', 1), 1)
        if p['rebin'] > 1 if 'rebin' in p else False:
            p['dt'] = p.get('dt', 1e-8) / p['rebin']
        return params(**p)

    SINGLES = [full(s) for s in settings(False)]
    PAIRS = [full(s) for s in settings(True)]

    def run_file(case):
        p, idxs = case
        if not valid(p):
            return dict(skipped=1)
        n = amb = 0
        f, data = infile(p)
        np_ = p['nframes'] - p['skipf']
        for idx in (idxs or [None] + list(range(np_))):
            r = Ref(p, data, idx)
            if r.empty or r.yout[:, r.idx].any():
                try:
                    tomo_run.run(f, reconstruct_profile=idx)
                except Exception:
                    n += 1
                    continue
                expect(r.ambiguous, f'image although nothing can be shown {p} {idx}')
            before = open(f).read()
            got = tomo_run.run(f, reconstruct_profile=idx) if idx is not None else tomo_run.run(f)
            compare(got, r, f'idx={idx} {p}')
            expect(open(f).read() == before, 'input file changed')
            amb += r.ambiguous
            n += 1
        os.remove(f)
        return dict(states=n, transitions=n * np_, traces=n - amb, ambiguous=amb)

    c.part('runs', [[p, None] for p in SINGLES], run_file, chunk=1)
    c.part('runs_pairs', [[p, None] for p in PAIRS], run_file, chunk=8)

    if th:
        tri = [full(dict(BASE, **{a: u, b: v, d: w})) for a, b, d in itertools.combinations(list(DIM), 3)
               for u in DIM[a][1:] for v in DIM[b][1:] for w in DIM[d][1:]]
        c.part('runs_triples', [[p, None] for p in tri], run_file, chunk=16)
    big = [full(dict(nframes=n, nbins=b, dturns=d, niter=20, snpt=s, film0=f)) for n, b, d, s, f in
           ((20, 60, 12, 3, 1), (40, 100, 12, 2, 1), (17, 80, 5, 4, 9), (30, 41, 60, 1, 30), (130, 30, 3, 1, 100), (300, 24, 2, 1, 260))]
    c.part('runs_large', [[p, [None, 0, 7, -1] + ([99, 100, 126, 128] if p['nframes'] > 100 else [])] for p in big], run_file, chunk=1)

    # ---- convenience functions
    def run_short(p):
        if not valid(p):
            return dict(skipped=1)
        f, data = infile(p)
        n = 0
        np_ = p['nframes'] - p['skipf']
        for idx in [None] + list(range(np_)):
            r = Ref(p, data, idx)
            if r.empty or r.yout[:, r.idx].any():
                continue
            m, wf = sc.read_input_file(f)
            same('waterfall', wf, r.prof, 1e-9)
            for k in ('dtbin', 'synch_part_x', 'nbins', 'synch_part_y'):
                same(k, getattr(m, k), getattr(r.m, k), 1e-9)
            if r.fitted is not None:
                same('fit', [m.fitted_synch_part_x, m.bunchlimit_low, m.bunchlimit_up], r.fitted, 1e-9)
            calls = []
            xp, yp = sc.track(m, idx, callback=lambda i, k: calls.append((i, k))) if idx is not None else sc.track(m)
            if idx is not None:
                k = (np_ - 1) * p['dturns']
                expect(calls == [(i + 1, k) for i in range(k)], f'callback {calls}')
            if not r.ambiguous:
                expect(np.array_equal(xp, r.xp), f'phase coordinates {p} {idx}')
                expect(np.array_equal(np.where(r.yout, 0, yp), np.where(r.yout, 0, r.yp)), f'energy coordinates {p} {idx}')
            calls = []
            t = sc.tomogram(wf, xp, yp, m.niter, callback=lambda i, k: calls.append((i, k)))
            expect([q for q in calls if q[0] < m.niter] == [(i + 1, m.niter) for i in range(m.niter - 1)], f'{calls}')
            same('measured profiles', t.waterfall, r.wf, 1e-9)
            if not r.ambiguous:
                same('weights', t.weight, r.w, 1e-8)
                same('difference', t.diff, r.diff, 1e-8)
            compare(dt.phase_space(t, m, r.idx)[:2] + (
                lambda q: (q / q.sum(),))(dt.phase_space(t, m, r.idx)[2]), r, f'shortcuts {idx} {p}')
            n += 1
        os.remove(f)
        return dict(states=n, transitions=3 * n, traces=n)

    c.part('shortcuts', PAIRS, run_short, chunk=2)

    # ---- viewer mode
    def films(p):
        return list(range(p['film0'] - 1, p['film1'], p['films']))

    def check_files(d, r, p, ctx):
        fl = films(p)
        want = [f'image{k + 1:03d}.data' for k in fl] + [f'profile{k + 1:03d}.data' for k in fl] + [f'd{fl[-1] + 1:03d}.data']
        got = sorted(os.listdir(d))
        expect(got == sorted(want), f'files {got}, expected {sorted(want)} {ctx}')
        for k in fl:
            v = [float(s) for s in lines_of(os.path.join(d, f'profile{k + 1:03d}.data'))]
            same('profile file', v, r.wf[k], 2e-7, ctx=f'{k} {ctx}')
            v = np.array([float(s) for s in lines_of(os.path.join(d, f'image{k + 1:03d}.data'))])
            expect(v.size == r.m.nbins ** 2 and (v >= 0).all() and abs(v.sum() - 1) < 1e-4, f'image file {k} {ctx}')
            if not r.ambiguous:
                same('image file', v, r.image(k).ravel(), 3e-7, ctx=f'{k} {ctx}')
        ls = lines_of(os.path.join(d, f'd{fl[-1] + 1:03d}.data'))
        expect([int(s.split()[0]) for s in ls] == list(range(r.m.niter + 1)), f'discrepancy file {ls} {ctx}')
        if not r.ambiguous:
            same('discrepancy file', [float(s.split()[1]) for s in ls], r.diff, 3e-7, ctx=ctx)

    def viewer(p, idx, how, ctx):
        """how: 'arg' directory as argument, 'file' as in the input file,
        'both' argument overrides, 'cli', 'cli-stdin', 'cli-file'"""
        d = tempfile.mkdtemp(prefix='v', dir=tmp)
        other = tempfile.mkdtemp(prefix='n', dir=tmp)
        q = dict(p)
        q['outdir'] = {'file': d, 'cli-file': d}.get(how, other)
        f, data = infile(q)
        r = Ref(q, data, idx)
        if r.empty or r.yout[:, films(p)].any() or r.yout[:, r.idx].any():
            for x in (d, other):
                shutil.rmtree(x)
            os.remove(f)
            return 0
        got = None
        if how in ('arg', 'file'):
            got, text = captured(lambda: tomo_run.run(f, reconstruct_profile=idx, tomoscope=True,
                                                      output_dir=d if how == 'arg' else None))
        else:
            argv = ['longitudinal_tomography', f, '-t', '-o', d]
            if how == 'cli-file':
                argv = ['longitudinal_tomography', '--tomoscope', f]
            if how == 'cli-stdin':
                argv = ['longitudinal_tomography', '--output', d, '-t', 'stdin']
            if how == 'cli-plot':
                argv.append('-p')
            keep, sys.argv = sys.argv, argv
            try:
                with Stdin(open(f).read()):
                    _, text = captured(lambda: runpy.run_module('longitudinal_tomography', run_name='__main__'))
            finally:
                sys.argv = keep
        if got is not None:
            compare(got, r, f'viewer {ctx}')
        check_files(d, r, p, ctx)
        expect(os.listdir(other) == [], f'files in the overridden directory {ctx}')
        ls = [s.strip() for s in text.split('\n')]
        expect('Start' in ls, f'no start line in {text!r}')
        expect(any(s.startswith('profilecount') for s in ls), f'no plot information {ctx}')
        for x in (d, other):
            shutil.rmtree(x)
        os.remove(f)
        return 1

    def run_view(case):
        p, idx, how = case
        n = viewer(p, idx, how, f'{how} idx={idx} {p}')
        return dict(states=n, transitions=n, traces=n)

    fr = [(a, b, s) for a in range(1, 6) for b in range(a, 6) for s in (1, 2, 3, 7) if s <= b - a + 1]
    VB = dict(BASE, snpt=1, niter=2, dturns=20)
    c.part('film_ranges', [[full(dict(VB, film0=a, film1=b, films=s)), i, 'arg'] for a, b, s in fr
                           for i in ((None, 2) if not th else (None, 0, 1, 2, 3, 4))], run_view, chunk=2)
    hows = ('arg', 'file', 'cli', 'cli-stdin', 'cli-file', 'cli-plot')
    small = [dict(), dict(spx=-1.0), dict(rebin=2, nbins=48), dict(niter=11), dict(film0=2, film1=4, films=2),
             dict(dturns=3, bref=2, mref=2), dict(skipf=1, skips=1)]
    c.part('entry_points', [[full(dict(VB, film1=3, **{k: v for k, v in s.items()}) if 'film1' not in s else dict(VB, **s)),
                             None, h] for s in small for h in hows], run_view, chunk=1)
    vs = [full(dict(s, **e)) for s in (dict(BASE), *({k: v} for k in DIM for v in DIM[k][1:]))
          for e in (dict(), dict(demax=4e5), dict(full=1, demax=6e5, dturns=30))]
    c.part('viewer_settings', [[p, None, 'arg'] for p in vs if valid(p)], run_view, chunk=1)

    # ---- histories: runs do not influence each other
    H = [(full(dict(VB)), None, False), (full(dict(VB, nbins=30, niter=7, nframes=4)), 1, False),
         (full(dict(VB, film0=1, film1=3)), 2, True), (full(dict(VB, spx=-1.0)), None, False),
         (full(dict(VB, nframes=1, bref=3)), None, False)]

    def run_hist(case):
        n = 0
        for rest in itertools.product(range(len(H)), repeat=3 if th else 2):
            for o in [case[0]] + list(rest):
                p, idx, view = H[o]
                d = tempfile.mkdtemp(prefix='h', dir=tmp)
                f, data = infile(p, o + 1)
                if o == 4:
                    try:
                        tomo_run.run(f)
                        raise Violation('reference profile outside the measurement accepted')
                    except Violation:
                        raise
                    except Exception:
                        pass
                else:
                    r = Ref(p, data, idx)
                    got, _ = captured(lambda: tomo_run.run(f, idx, d, view))
                    compare(got, r, f'history {case} {rest}')
                    if view:
                        check_files(d, r, p, f'history {case} {rest}')
                    else:
                        expect(os.listdir(d) == [], 'files written without viewer mode')
                shutil.rmtree(d)
                os.remove(f)
                n += 1
        return dict(states=n, transitions=n, traces=n)

    c.part('histories', [[a] for a in range(len(H))], run_hist, chunk=1)

    # ---- requested profiles that do not exist
    def run_bad(idx):
        p = full(dict(VB))
        f, data = infile(p)
        try:
            tomo_run.run(f, reconstruct_profile=idx)
        except Exception:
            os.remove(f)
            return dict(states=1, transitions=1, traces=1)
        raise Violation(f'profile {idx} of 5 accepted')

    c.part('no_such_profile', [5, 6, 99, -6, -99], run_bad)


main(body, 'C21', assumptions=[
    'Generated measurements: a bunch near the middle plus a noise floor; particles on a bin edge to 1e-7 are not judged.',
    'The particle distribution and the synchronous-position fit come from the library (C10, C13).'])
