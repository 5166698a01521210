"""C16: memory safety of every accepted and every refused call.

The same enumerated calls run (1) on an address-sanitizer build, where any
access outside an array or a wrong free ends the worker, and (2) in processes
whose heap is filled with different byte patterns, on a build that counts live
allocations: results must be bitwise the same for every pattern, and a repeated
call must leave no allocation behind."""
import json
import os
import pickle
import subprocess
import sys
import gc
from tracklib import *

COUNT_RT = os.path.join(ROOT, 'lib', 'count_rt.cpp')


class Boom(Exception):
    pass


def failing(k):
    n = [0]

    def cb(i, total):
        n[0] += 1
        if n[0] == k:
            raise Boom(k)
    return cb


def coords(kind, npart, nprof, nbins):
    if kind == 'low':
        return np.zeros((npart, nprof), np.int32)
    if kind == 'high':
        return np.full((npart, nprof), nbins - 1, np.int32)
    if kind == 'alt':
        return (np.indices((npart, nprof)).sum(axis=0) % 2 * (nbins - 1)).astype(np.int32)
    x = lcg(npart * nprof, nbins, 7).reshape(npart, nprof).astype(np.int32)
    if kind == 'over':
        x[-1, -1] = nbins
    if kind == 'under':
        x[0, 0] = -1
    if kind == 'far':
        x[npart // 2, 0] = 2 ** 31 - 1
    if kind == 'farneg':
        x[npart // 2, 0] = -2 ** 31
    return x


def flats(nprof, nbins, t):
    w = pattern((nprof, nbins), 9, 0.05, 1.0)
    return (w / w.sum(axis=1, keepdims=True)).astype(t)


def callback(k):
    return None if k is None else failing(k)


# Every operation returns the arrays it produced (and those it works on in place).
def o_rec(L, a):
    t = np.float32 if a['f'] else np.float64
    n, p, b = a['n'], a['p'], a['b']
    return L.lib.reconstruct(coords(a['x'], n, p, b), flats(p, b, t), a['it'], b, n, p, False,
                             callback(a['cb']))


def o_recm(L, a):
    t = np.float32 if a['f'] else np.float64
    n, p, b = a['n'], a['p'], a['b']
    i = lambda v: np.array(v, np.int32)
    return L.lib.reconstruct_multi(coords(a['x'], n, p, b), flats(p, b, t), i(a['cl']), i(a['cr']),
                                   i(a['ce']), a['it'], b, n, p, len(a['ce']), False,
                                   callback(a['cb']))


def o_tomo(L, a):
    n, p, b = a['n'], a['p'], a['b']
    w = flats(p, b, np.float64)
    x = coords(a['x'], n, p, b)
    if a['bad'] == 'float':
        x = x + 0.75
    if a['bad'] == 'nan':
        x = x.astype(float)
        x[0, 0] = np.nan
    if a['bad'] == 'inf':
        x = x.astype(float)
        x[-1, -1] = np.inf
    if a['bad'] == 'columns':
        x = np.hstack([x, x[:, :1]])
    if a['bad'] == 'fewer':
        x = x[:, :-1]
    if a['bad'] == 'flat':
        x = x.ravel()
    if a['bad'] == 'fortran':
        x = np.asfortranarray(x)
    if a['bad'] == 'strided':
        x = np.repeat(np.repeat(x, 2, axis=0), 2, axis=1)[::2, ::2]
    if a['bad'] == 'int64':
        x = x.astype(np.int64)
    if a['bad'] == 'empty':
        x = x[:0]
    if a['bad'] == 'waterfall':
        w = np.asfortranarray(w)
    if a['bad'] == 'wstrided':
        w = np.repeat(w, 2, axis=1)[:, ::2]
    t = L.Tomography(w, x)
    r = t.run_hybrid(a['it']) if a['hy'] else t.run(a['it'], callback=callback(a['cb']))
    return r, t.diff, t.recreated, t.xp


def o_multi(L, a):
    n, p, b = a['n'], a['p'], a['b']
    t = L.Multi(flats(p, b, np.float64), coords(a['x'], n, p, b))
    t.run(a['ce'], a['cl'], a['cr'], a['it'], callback=callback(a['cb']))
    return t.weight_combined, t.diff, t.diff_split, t.recreated


def o_project(L, a):
    n, p, b = a['n'], a['p'], a['b']
    fp = coords(a['x'], n, p, b) + b * np.arange(p, dtype=np.int32)
    w = pattern(n, 3, 0, 1)
    rec = np.zeros((p, b))
    L.lib.project(rec, fp, w, n, p, b)
    back = np.zeros(n)
    L.lib.back_project(back, fp, flats(p, b, np.float64).ravel(), n, p)
    return rec, back


def o_count(L, a):
    t = np.float32 if a['f'] else np.float64
    n, p, b = a['n'], a['p'], a['b']
    x = coords(a['x'], n, p, b)
    one = np.zeros((p, b), t)
    L.lib.count_particles_in_bins(one, x, p, n, b)
    ce = np.array(a['ce'], np.int32)
    two = np.zeros((p, b), t)
    L.lib.count_particles_in_bins_multi(two, x, ce, p, n, b, len(ce))
    return one, two


def o_image(L, a):
    t = np.float32 if a['f'] else np.float64
    n, b = a['n'], a['b']
    x, y = coords(a['x'], n, 2, b)[:, 0].copy(), coords(a['y'], n, 2, b)[:, 1].copy()
    w = pattern(n, 3, 0, 1).astype(t)
    if a['bad'] == 'weights':
        w = w[:-1]
    if a['bad'] == 'y':
        y = y[:-1]
    if a['bad'] == 'x':
        x = x[:-1]
    if a['bad'] == 'scalar':
        x, y, w = x[0], y[0], w[0]
    if a['bad'] == '2d':
        x, y, w = x[:, None], y[:, None], w[:, None]
    if a['bad'] == 'nobins':
        b = 0
    return L.lib.make_phase_space(x, y, w, b),


def o_track(L, a):
    m = synth(a['p'], a['d'], a['kind'])
    if a['short']:
        f, k = a['short']
        v = np.atleast_1d(np.asarray(getattr(m, f), float))
        v = v[:len(v) - k]
        setattr(m, f, list(v) if a.get('list') else v)
    x, y = cloud(a['n'])
    if a['init'] == 'strided':
        x, y = np.repeat(x, 2)[::2], np.repeat(y, 2)[::2]
    if a['init'] == 'lists':
        x, y = list(x), list(y)
    if a['init'] == 'unequal':
        y = y[:-1]
    if a['init'] == 'unequal2':
        x = x[:-1]
    t = L.Tracking(m)
    args = () if a['init'] == 'auto' else ((x, y),)
    if a['hy']:
        nt = a['p']
        return t.kick_and_drift(np.array(y), np.array(x), m.vrf1_at_turn, m.vrf2_at_turn, a['rec'])
    return t.track(a['rec'], *args, callback=callback(a['cb']))


def o_auto(L, a):
    m = machine(nprofiles=a['p'], dturns=a['d'], nbins=a['b'], **a['kw'])
    m.values_at_turns()
    t = L.Tracking(m)
    xp, yp = t.track(a['rec'])
    from longitudinal_tomography.tracking import particles as pts
    x, y = pts.physical_to_coords(xp, yp, m, t.particles.xorigin, t.particles.dEbin)
    x, y, lost = pts.filter_lost(x, y, m.nbins)
    x, y = pts.ready_for_tomography(x, y, m.nbins)
    tm = L.Tomography(flats(m.nprofiles, m.nbins, np.float64), x)
    w = tm.run(1)
    return xp, yp, x, y, w, tm.diff


def o_self(L, a):
    m = machine(nprofiles=a['p'], dturns=a['d'], nbins=20, h_num=1)
    m.values_at_turns()
    m.vself = 1e-3 * pattern((a['p'] - 1, m.nbins + 1), 5)
    from longitudinal_tomography.data.profiles import Profiles
    pr = Profiles(m, 1e-9, pattern((a['p'], m.nbins), 6, 0.1, 1.0))
    pr.calc_profilecharge = None
    pr.profile_charge = 1e6
    pr.vself = 1e2 * pattern((a['p'] - 1, int(a['w'])), 5)
    pr.phiwrap = 2 * np.pi
    pr.wraplength = int(a['w'])
    t = L.Tracking(m)
    t.enable_self_fields(pr)
    return t.track(a['rec'])


def o_kick(L, a):
    n = a['n']
    x, y = cloud(n)
    up = a['up']
    m = synth(3, 2, 'double')
    (L.lib.kick_up if up else L.lib.kick_down)(x, y, .3, .2, .1, .4, 2.0, n, .01)
    (L.lib.drift_up if up else L.lib.drift_down)(x, y, .2, n)
    for turn in range(len(m.phi0)):
        L.lib.kick(m, y, x, m.vrf1_at_turn, m.vrf2_at_turn, n, turn, up)
        L.lib.drift(y, x, m.drift_coef, n, turn, up)
    return x, y




OPS = {k[2:]: v for k, v in list(globals().items()) if k.startswith('o_')}


class Lib:
    def __init__(self, lib):
        self.lib = lib
        from longitudinal_tomography.tracking.tracking import Tracking
        from longitudinal_tomography.tomography.tomography import Tomography
        from longitudinal_tomography.tomography.tomography_multibunch import Tomography as Multi
        self.Tracking, self.Tomography, self.Multi = Tracking, Tomography, Multi


def execute(L, case):
    precision(case.get('single', 0))
    try:
        r = OPS[case['op']](L, case)
        return [np.array(v, copy=True) for v in r]
    except Exception as e:
        return f'{type(e).__name__}: {e}'
    finally:
        precision(0)


def all_cases(th):
    out = []

    def add(op, **kw):
        out.append(dict(op=op, **kw))

    X = ('low', 'high', 'alt', 'mix')
    sizes = [(n, p, b) for n in (1, 2, 3, 5, 9) for p in (1, 2, 3, 4) for b in (1, 2, 3, 7)]
    if th:
        sizes += [(n, p, b) for n in (17, 64, 200) for p in (1, 5, 16) for b in (2, 16, 33)]
    for n, p, b in sizes:
        for x in X:
            for f in (0, 1):
                for it in (0, 1, 2, 3) if th else (0, 1, 2):
                    add('rec', n=n, p=p, b=b, x=x, f=f, it=it, cb=None)
                add('count', n=n, p=p, b=b, x=x, f=f, ce=[0, b - 1, -b, b + 2])
            add('project', n=n, p=p, b=b, x=x)
    for n, p, b in ((300, 4, 33), (5000, 3, 9), (3, 150, 205), (1, 300, 2), (40, 1, 5000)):
        for f in (0, 1):
            for x in ('high', 'mix'):
                add('rec', n=n, p=p, b=b, x=x, f=f, it=1, cb=None)
                add('count', n=n, p=p, b=b, x=x, f=f, ce=[0, b - 1, -b, b + 2])
                add('recm', n=n, p=p, b=b, x=x, f=f, it=1, cb=None, ce=[0, -1, 3], cl=[0, 0, 1],
                    cr=[b, b, b + 1])
            add('project', n=n, p=p, b=b, x='mix')
            add('image', n=n, b=b if b < 300 else 300, x='mix', y='high', f=f, bad='')
    for n in list(range(10, 140)) + [191, 255, 256, 257]:       # every length around the sizes of vectors, lines and blocks
        f = n % 2
        add('rec', n=n, p=2, b=3, x='mix', f=f, it=1, cb=None)
        add('rec', n=2, p=n, b=3, x='mix', f=f, it=1, cb=None)
        add('rec', n=3, p=2, b=n, x='high', f=f, it=1, cb=None)
        add('recm', n=n, p=2, b=3, x='mix', f=f, it=1, cb=None, ce=[0, 1], cl=[0, 0], cr=[3, 3])
        add('project', n=n, p=2, b=3, x='mix')
        add('image', n=n, b=4, x='mix', y='high', f=f, bad='')
        add('track', p=2, d=2, rec=1, kind='double', n=n, short=None, init='', hy=0, cb=None, single=f)
    # fault injection: callback failing at every call
    for f in (0, 1):
        for it in (0, 1, 3):
            for k in range(1, it + 2):
                add('rec', n=6, p=3, b=4, x='mix', f=f, it=it, cb=k)
                add('recm', n=6, p=3, b=8, x='mix', f=f, it=it, cb=k, ce=[0, 3], cl=[0, 0], cr=[8, 8])
    # windows and centres anywhere, also past the image
    wins = [([0], [0], [6]), ([0], [-2], [9]), ([-1], [0], [6]), ([-6], [-9], [20]), ([3], [0], [6]),
            ([6], [-9], [20]), ([100], [0], [200]), ([0, 3], [0, 3], [3, 6]), ([3, 0], [2, 0], [7, 1]),
            ([-2, 5], [-5, -5], [10, 10]), ([0, 2, 4], [0, 2, 4], [2, 4, 6]), ([0, 0], [3, 0], [3, 6]),
            ([-7, 0, 7], [-99, 0, -99], [99, 5, 99]), ([0] * 5, [0] * 5, [6] * 5)]
    for ce, cl, cr in wins:
        for n, p, b in ((1, 1, 6), (4, 2, 6), (7, 3, 6), (5, 4, 2)) + (((40, 9, 6),) if th else ()):
            for x in X:
                for it in (0, 1, 2):
                    for f in (0, 1):
                        add('recm', n=n, p=p, b=b, x=x, f=f, it=it, cb=None, ce=ce, cl=cl, cr=cr)
                    add('multi', n=n, p=p, b=b, x=x, it=it, cb=None, ce=ce, cl=cl, cr=cr,
                        single=it % 2)
    # windows that do not belong to the centres
    for ce, cl, cr in (([0, 3], [0], [6, 6]), ([0, 3], [0, 0], [6]), ([0, 3, 5], [0], [6]),
                       ([0], [0, 1], [6, 7]), ([], [], []), ([0, 1], [], []),
                       ([0] * 40, [0], [6])):
        for s in (0, 1):
            add('multi', n=4, p=2, b=6, x='mix', it=1, cb=None, ce=ce, cl=cl, cr=cr, single=s)
    for it in (-1, -2, -5, -1000):
        for s in (0, 1):
            add('multi', n=4, p=2, b=6, x='mix', it=it, cb=None, ce=[0, 1], cl=[0, 0], cr=[6, 6], single=s)
            for hy in (0, 1):
                add('tomo', n=4, p=2, b=6, x='mix', bad='', it=it, hy=hy, cb=None, single=s)
    for n, p, b in ((1, 1, 2), (4, 2, 3), (6, 3, 5)):
        for x in X + ('over', 'under', 'far', 'farneg'):
            for it in (0, 1, 2):
                for hy in (0, 1):
                    for s in (0, 1):
                        add('tomo', n=n, p=p, b=b, x=x, bad='', it=it, hy=hy, cb=None, single=s)
                add('multi', n=n, p=p, b=b, x=x, it=it, cb=None, ce=[0, 1], cl=[0, 0], cr=[b, b], single=0)
        for bad in ('float', 'nan', 'inf', 'columns', 'fewer', 'flat', 'fortran', 'strided', 'int64',
                    'empty', 'waterfall', 'wstrided'):
            for hy in (0, 1):
                for s in (0, 1):
                    add('tomo', n=n, p=p, b=b, x='mix', bad=bad, it=2, hy=hy, cb=None, single=s)
    for n in (1, 2, 5, 30):
        for b in (1, 2, 3, 10):
            for x in X + ('over', 'under', 'far', 'farneg'):
                for y in X + ('over', 'under', 'far', 'farneg'):
                    for f in (0, 1):
                        add('image', n=n, b=b, x=x, y=y, f=f, bad='')
        for bad in ('weights', 'y', 'x', 'scalar', '2d', 'nobins'):
            for f in (0, 1):
                add('image', n=n, b=4, x='mix', y='mix', f=f, bad=bad)
    # tracking
    shapes = [(p, d) for p in (1, 2, 3, 5) for d in (1, 2, 3)] + ([(9, 7), (2, 50)] if th else [])
    for p, d in shapes:
        for rec in list(range(p)) + [p, p + 1, -1]:
            for kind in KINDS:
                for n in (1, 2, 7) if not th else (0, 1, 2, 3, 7, 64):
                    for s in (0, 1):
                        add('track', p=p, d=d, rec=rec, kind=kind, n=n, short=None, init='', hy=0,
                            cb=None, single=s)
            for init in ('strided', 'lists', 'unequal', 'unequal2'):
                for s in (0, 1):
                    add('track', p=p, d=d, rec=rec, kind='double', n=5, short=None, init=init, hy=0,
                        cb=None, single=s)
            if 0 <= rec < p:
                add('track', p=p, d=d, rec=rec, kind='double', n=5, short=None, init='', hy=1, cb=None)
                for k in range(1, d * (p - 1) + 1):
                    for s in (0, 1):
                        add('track', p=p, d=d, rec=rec, kind='turn', n=5, short=None, init='', hy=0,
                            cb=k, single=s)
                for f in ('phi0', 'deltaE0', 'drift_coef', 'vrf1_at_turn', 'vrf2_at_turn', 'phi12'):
                    for k in (1, 2, d, d * (p - 1)):
                        if k <= d * (p - 1):
                            for s in (0, 1):
                                for li in (0, 1):
                                    add('track', p=p, d=d, rec=rec, kind='turn', n=5, short=[f, k],
                                        init='', hy=0, cb=None, single=s, list=li)
    for kw in PHYS_SET:
        for p, d in ((1, 1), (2, 3), (4, 2)):
            for rec in range(p):
                for b in (10, 20):
                    for s in (0, 1):
                        k2 = dict(kw)
                        if k2.get('machine_ref_frame', 0) >= p:
                            k2['machine_ref_frame'] = 0
                        add('auto', p=p, d=d, rec=rec, b=b, kw=dict(k2, synch_part_x=b / 2), single=s)
    for p, d in ((2, 1), (3, 2), (4, 3)):
        for rec in range(p):
            for w in (20, 33):
                add('self', p=p, d=d, rec=rec, w=w)
    for n in range(0, 20):
        for up in (True, False):
            add('kick', n=n, up=up)
    return out


def child():
    """c16.py --heap so start stop step out: run the cases, store the outcomes."""
    so, a, b, th, out = sys.argv[2:7]
    lib = load(so)
    lib.set_num_threads(1)
    import ctypes
    dll = ctypes.CDLL(so)
    dll.verif_live.restype = ctypes.c_long
    live = dll.verif_live
    L = Lib(lib)
    gc.collect()
    gc.freeze()
    cases = all_cases(int(th))[int(a):int(b)]
    res = []
    for k in cases:
        r = execute(L, k)
        # repeated calls leave nothing behind; settle twice, then three equal counts
        counts = []
        for i in range(4):
            r2 = execute(L, k)
            del r2
            if k['op'] in ('tomo', 'multi', 'track', 'auto', 'self') or isinstance(r, str):
                gc.collect(0)
            counts.append(live())
        if not (counts[1] == counts[2] == counts[3]):
            gc.collect()
            n0 = live()
            for i in range(6):
                execute(L, k)
            gc.collect()
            counts = [n0, live()]
            leak = counts[1] - counts[0]
        else:
            leak = 0
        res.append((r if isinstance(r, str) else [(v.shape, v.dtype.str, v.tobytes()) for v in r],
                    leak))
    with open(out, 'wb') as f:
        pickle.dump(res, f)


FILLS = ('0', '85', '255', '1')


def body(c, lib):
    lib.set_num_threads(2)
    th = c.thorough
    cases = all_cases(th)
    L = Lib(lib)

    def run(k):
        r = execute(L, k)
        return dict(states=1, transitions=1, traces=1,
                    refused=1 if isinstance(r, str) else 0)
    c.part('sanitized', cases, run)

    so = build('count', [(COUNT_RT, ['-O2'])])
    size = max(1, len(cases) // (16 if th else 8) + 1)

    def heap(blk):
        a, b = blk
        outs = []
        for n, fill in enumerate(FILLS):
            env = {k: v for k, v in os.environ.items()
                   if k not in ('LD_PRELOAD', 'PYTHONMALLOC', 'ASAN_OPTIONS', 'VERIF_ASAN_CHILD')}
            env['MALLOC_PERTURB_'] = fill
            env['VERIF_SCRATCH'] = scratch()
            out = os.path.join(scratch(), f'heap_{a}_{n}.pkl')
            p = subprocess.run([sys.executable, os.path.abspath(__file__), '--heap', so, str(a),
                                str(b), str(int(th)), out], env=env, stdout=subprocess.DEVNULL,
                               stderr=subprocess.PIPE, text=True)
            expect(p.returncode == 0, f'process with heap pattern {fill} ended with code '
                                      f'{p.returncode} on cases {a}..{b}: {p.stderr[-1500:]}')
            with open(out, 'rb') as f:
                outs.append(pickle.load(f))
            os.remove(out)
        for i, k in enumerate(cases[a:b]):
            for n in range(len(FILLS)):
                r, leak = outs[n][i]
                expect(leak == 0, f'call leaves {leak} allocations behind after 6 repetitions: {k}')
                if r != outs[0][i][0]:
                    show = lambda q: q if isinstance(q, str) else \
                        [np.frombuffer(v, d).reshape(s) for s, d, v in q]
                    raise Violation(f'result depends on the content of unused memory: {k}\n'
                                    f'{show(outs[0][i][0])}\n{show(r)}')
        n = (b - a) * len(FILLS)
        return dict(states=n, transitions=5 * n, traces=n)

    c.part('heap patterns', blocks(len(cases), size), heap, chunk=1,
           case_timeout=3000 if th else 500)


if __name__ == '__main__':
    if len(sys.argv) > 1 and sys.argv[1] == '--heap':
        child()
    else:
        main(body, 'C16', variant='asan', assumptions=[
            'address sanitizer sees every access of the compiled code that leaves an array by '
            'less than its red zone or reaches unmapped or freed memory',
            'heap patterns: four fills of the C heap (MALLOC_PERTURB_), bitwise comparison',
            'raw calls of the compiled routines get consistent sizes; the Python classes get '
            'consistent and inconsistent ones'])
