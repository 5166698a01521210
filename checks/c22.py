"""C22: machines from programs for a grid of program shapes, samplings,
machines and frames against a turn-by-turn reference interpolation."""
from tracklib import *
C0 = 299792458.0
ER = 0.93827231E9
RAD, RHO = 25.0, 8.239
P0 = RHO * C0 * 0.15722     # momentum of the standard machine [eV]


def beta_of(p):
    return p / np.sqrt(p * p + ER * ER)


T0 = 2 * np.pi * RAD / (beta_of(P0) * C0)


def axis(kind, n, span):
    """Times of a program with n samples over the span."""
    if kind == 'even':
        return np.linspace(0.0, span, n)
    if kind == 'irregular':
        g = 1.0 + 0.9 * np.sin(np.arange(1, n) * 2.1)
        return np.concatenate([[0.0], np.cumsum(g) / g.sum() * span])
    if kind == 'offset':
        return np.linspace(0.0, span, n) + 0.275
    raise AssertionError(kind)


def momentum(kind, t, scale=1.0):
    """Momentum program gaining or losing up to some hundred eV per turn."""
    u = (t - t[0]) / (t[-1] - t[0])
    a = 500.0 * (t[-1] - t[0]) / T0
    return P0 * scale + a * {'const': 0 * u, 'ramp': u, 'fall': -u, 'curve': u * u, 'kink': np.abs(u - 0.4)}[kind]


def lin(x, xs, ys):
    """Linear interpolation, written out."""
    out = np.empty(len(x))
    for i, v in enumerate(x):
        if v <= xs[0]:
            out[i] = ys[0]
        elif v >= xs[-1]:
            out[i] = ys[-1]
        else:
            k = int(np.searchsorted(xs, v, side='right'))
            f = (v - xs[k - 1]) / (xs[k] - xs[k - 1])
            out[i] = ys[k - 1] * (1 - f) + ys[k] * f
    return out


def interpolate(mom, t_ref, i0, nturns):
    """Times and momenta of the turns, or None when the program is too short."""
    ts, ps = mom
    t, p = [ts[0] + 2 * np.pi * RAD / (beta_of(ps[0]) * C0)], [ps[0]]
    while True:
        nxt = t[-1] + 2 * np.pi * RAD / (beta_of(p[-1]) * C0)
        if nxt > ts[-1]:
            break
        t.append(nxt)
        p.append(lin([nxt], ts, ps)[0])
    t, p = np.array(t), np.array(p)
    w = np.flatnonzero(t >= t_ref)
    if not len(w) or w[0] - i0 < 0 or w[0] - i0 + nturns > len(t):
        return None
    a = w[0] - i0
    return t[a:a + nturns], p[a:a + nturns], a


def reference(case_mom, vol, phi12_of, harm, q, gt, hnum, t_ref, i0, nturns):
    r = interpolate(case_mom, t_ref, i0, nturns)
    if r is None:
        return None
    t, p, first = r
    e = np.sqrt(p * p + ER * ER)
    b = beta_of(p)
    T = 2 * np.pi * RAD / (b * C0)
    time = np.cumsum(T)
    time = time - time[i0]
    eta = 1 - b * b - gt ** -2.0
    v1 = lin(t, vol[0], vol[1])
    v2 = lin(t, vol[0], vol[2]) if len(harm) == 2 else np.zeros(nturns)
    h = harm[1] / harm[0] if len(harm) == 2 else 1.0
    B = p / (RHO * q * C0)
    bdot = np.gradient(B, time)
    d = dict(first=first, e0=e, beta0=b, omega_rev0=2 * np.pi / T, time_at_turn=time, eta0=eta,
             drift_coef=2 * np.pi * hnum * eta / (e * b * b), deltaE0=e[1:] - e[:-1], vrf1_at_turn=v1,
             vrf2_at_turn=v2)
    p12 = phi12_of(t, h)
    d['phi12'] = p12
    need = 2 * np.pi * RAD * RHO * bdot * np.sign(q)

    def newton(f, g, x):
        for _ in range(200):
            s = f(x) / g(x)
            x -= s
            if abs(s) < 1e-13:
                return x
        raise RuntimeError

    def solve(i, x):
        return newton(lambda x: v1[i] * np.sin(x) + v2[i] * np.sin(h * (x - p12[i])) - need[i],
                      lambda x: v1[i] * np.cos(x) + h * v2[i] * np.cos(h * (x - p12[i])), x)

    phi = np.zeros(nturns)
    x = 0.0 if q * (gt - e[i0] / ER) > 0 else np.pi
    x = newton(lambda x: v1[i0] * np.sin(x) - need[i0], lambda x: v1[i0] * np.cos(x), x)
    phi[i0] = solve(i0, x)
    for i in range(i0 + 1, nturns):
        phi[i] = solve(i, phi[i - 1])
    for i in range(i0 - 1, -1, -1):
        phi[i] = solve(i, phi[i + 1])
    d['phi0'] = phi
    d['h_ratio'] = h
    return d


def body(c, lib):
    lib.set_num_threads(1)
    from longitudinal_tomography.tracking.programs_machine import ProgramsMachine
    from longitudinal_tomography.tracking.tracking import Tracking
    th = c.thorough

    def programs(mk, ax, n, nturns, two, scale=1.0, extra=40):
        span = (nturns + extra) * T0 * 1.02
        t = axis(ax, n, span)
        mom = np.array([t, momentum(mk, t, scale)])
        tv = axis('irregular', max(3, n // 2), span * 1.1) + t[0] - 0.02 * span
        rows = [tv, 3000 * (1 + 0.3 * np.sin(np.linspace(0, 5, len(tv))))]
        if two:
            rows.append(900 * (1 + 0.2 * np.cos(np.linspace(0, 4, len(tv)))))
        vol = np.array(rows)
        tp = axis('even', max(3, n // 3), span * 1.2) + t[0] - 0.05 * span
        rows = [tp, 0.2 + 0.1 * np.sin(np.linspace(0, 3, len(tp)))]
        if two:
            rows.append(np.pi + 0.3 + 0.1 * np.cos(np.linspace(0, 6, len(tp))))
        ph = np.array(rows)
        return mom, vol, ph

    def make(dturns, nprof, ref, mom, vol, harm, q, gt, hnum, t_ref, **kw):
        return ProgramsMachine(dturns, vol, mom, harm, RAD, RHO, gt, ER, nprof, 20, 1e-8, t_ref, machine_ref_frame=ref,
                               charge=q, h_num=hnum, synch_part_x=10.0, **kw)

    def compare(m, r, ctx):
        n = len(r['e0'])
        expect(m.n_turns == n, f'{m.n_turns} turns instead of {n} {ctx}')
        for k in ('e0', 'beta0', 'omega_rev0', 'eta0', 'drift_coef', 'vrf1_at_turn', 'vrf2_at_turn', 'phi12'):
            same(k, getattr(m, k), r[k], 1e-9, ctx=ctx)
        same('deltaE0', m.deltaE0, r['deltaE0'], 1e-6, atol=1e-6 * max(1.0, np.abs(r['deltaE0']).max()), ctx=ctx)
        same('time_at_turn', m.time_at_turn, r['time_at_turn'], 1e-9, atol=1e-14, ctx=ctx)
        same('phi0', m.phi0, r['phi0'], 1e-5, atol=1e-5, ctx=ctx)
        expect(abs(m.h_ratio - r['h_ratio']) < 1e-12, f'h_ratio {m.h_ratio} {ctx}')

    def phase12(ph, two):
        return lambda t, h: (lin(t, ph[0], ph[1]) - (lin(t, ph[0], ph[2]) if two else 0.0) + np.pi) / h

    FRAMES = [(1, 2, 0), (2, 3, 0), (2, 3, 2), (3, 4, 1), (7, 3, 1), (1, 9, 4), (12, 2, 1)]
    if th:
        FRAMES += [(d, n, r) for d in (1, 2, 4, 9) for n in (2, 3, 5, 8) for r in (0, 1, n - 1)]

    def run_grid(case):
        mk, ax, n, frame = case
        dturns, nprof, ref = frame
        nturns, i0 = dturns * nprof, dturns * ref
        k = 0
        for harm in ([1], [1, 2], [2, 6], [2, 3], [4, 9]):
            two = len(harm) == 2
            for q, gt, scale, hnum in ((1, 4.1, 1.0, 1), (2, 4.1, 1.0, 2), (1, 1.8, 7.0, 1), (1, 4.1, 0.4, 3)):
                mom, vol, ph = programs(mk, ax, n, nturns, two, scale)
                copies = [a.copy() for a in (mom, vol, ph)]
                T = 2 * np.pi * RAD / (beta_of(P0 * scale) * C0)
                for off in (i0 + 1.6, i0 + 9.3):
                    t_ref = mom[0, 0] + off * T
                    r = reference(mom, vol, phase12(ph, two), harm, q, gt, hnum, t_ref, i0, nturns)
                    ctx = f'{case} {harm} q={q} gt={gt} off={off}'
                    try:
                        m = make(dturns, nprof, ref, mom, vol, harm, q, gt, hnum, t_ref, phase_function=ph)
                    except Exception as e:
                        expect(r is None, f'refused {ctx}: {e!r}')
                        k += 1
                        continue
                    expect(r is not None, f'accepted {ctx}')
                    expect(r['first'] >= 1, 'harness')
                    compare(m, r, ctx)
                    m.values_at_turns()
                    compare(m, r, 'recomputed ' + ctx)
                    for a, b in zip((mom, vol, ph), copies):
                        expect(np.array_equal(a, b), f'program modified {ctx}')
                    if nturns - 1 > dturns * (nprof - 1):
                        x, y = np.array([0.1, -0.4, 0.02, 1.0]), np.array([1e4, -2e4, 3e5, 0.0])
                        for rec in range(nprof):
                            a, b = Tracking(m).track(rec, (x, y))
                            wa, wb = model_of(m, x, y, rec)
                            same('phase', a, wa, 1e-8, ctx=ctx)
                            same('energy', b, wb, 1e-8, ctx=ctx)
                    k += 1
        return dict(states=k, transitions=k * nturns, traces=k)

    grid = [[mk, ax, n, list(f)] for mk in ('const', 'ramp', 'fall', 'curve', 'kink') for ax in ('even', 'irregular', 'offset')
            for n in ((2, 3, 7, 31, 200) if not th else (2, 3, 4, 5, 7, 16, 31, 64, 111, 200, 500)) for f in FRAMES]
    c.part('programs', grid, run_grid, chunk=2)

    # ---- programs of every length around the needed one
    def run_len(case):
        mk, dens, frame = case
        dturns, nprof, ref = frame
        nturns, i0 = dturns * nprof, dturns * ref
        k = 0
        for L in range(2, int((nturns + 14) / dens) + 3):
            t = np.arange(L) * dens * T0
            mom = np.array([t, momentum(mk, t)])
            vol = np.array([[0.0, 1.0], [3000.0, 3000.0]])
            ph = np.array([[0.0, 1.0], [0.1, 0.1]])
            for off in (1.5, i0 + 1.5, i0 + 4.5):
                r = reference(mom, vol, phase12(ph, False), [1], 1, 4.1, 1, off * T0, i0, nturns)
                try:
                    m = make(dturns, nprof, ref, mom, vol, [1], 1, 4.1, 1, off * T0, phase_function=ph)
                except Exception as e:
                    # a program ending within the turn after the last may be refused
                    if r is not None and interpolate(mom, off * T0, i0, nturns + 1) is None:
                        r = None
                    expect(r is None, f'refused although long enough: {case} samples={L} t_ref={off}: {e!r}')
                else:
                    expect(r is not None, f'accepted although too short: {case} samples={L} t_ref={off}')
                    compare(m, r, f'{case} samples={L} t_ref={off}')
                k += 1
        return dict(states=k, transitions=k * nturns, traces=k)

    c.part('program_lengths', [[mk, d, list(f)] for mk in ('const', 'ramp', 'fall') for d in (0.31371, 0.77213, 1.31713, 2.71829, 5.12347)
                               for f in FRAMES[:6]], run_len, chunk=1)

    # ---- constant programs are the constant machine
    def run_const(case):
        dturns, nprof, ref, two, q = case
        t = np.array([0.0, 1e-3])
        p = RHO * C0 * 0.15722 * q
        mom = np.array([t, [p, p]])
        vol = np.array([t, [3000.0] * 2] + ([[800.0] * 2] if two else []))
        kw = dict(vrf2=800.0, h_ratio=2.5) if two else dict()
        harm = [2, 5] if two else [1]
        k = 0
        for p12 in (0.0, 0.3, -1.0, 2.2):
            a = machine(dturns=dturns, nprofiles=nprof, machine_ref_frame=ref, vrf1=3000.0, charge=q, phi12=p12, **kw)
            b = make(dturns, nprof, ref, mom, vol, harm, q, 4.1, 1, 20.5e-6 + ref * dturns * T0, phi12=p12)
            ph = np.array([t, [p12 * (2.5 if two else 1)] * 2] + ([[np.pi] * 2] if two else []))
            if not two:
                ph[1] -= np.pi
            d = make(dturns, nprof, ref, mom, vol, harm, q, 4.1, 1, 20.5e-6 + ref * dturns * T0, phase_function=ph)
            n = dturns * (nprof - 1) + 1
            for o, nm in ((b, 'phi12'), (d, 'phases')):
                for f in ('e0', 'beta0', 'eta0', 'drift_coef', 'omega_rev0', 'vrf1_at_turn', 'vrf2_at_turn'):
                    same(f, getattr(o, f)[:n], getattr(a, f), 1e-6, ctx=f'{case} {nm}')
                same('phi12', o.phi12[:n], np.full(n, p12), 1e-9, atol=1e-12, ctx=f'{case} {nm}')
                if two or True:
                    same('phi0', o.phi0[:n], a.phi0, 1e-6, atol=1e-5, ctx=f'{case} {nm} {p12}')
                same('time', o.time_at_turn[:n], a.time_at_turn, 1e-6, atol=1e-13, ctx=f'{case} {nm}')
                same('gain', o.deltaE0[:n - 1], np.zeros(n - 1), 1e-6, atol=1e-6)
            k += 2
        return dict(states=k, transitions=k * nprof * dturns, traces=k)

    c.part('constant_programs', [[d, n, r, t, q] for d in (1, 2, 5) for n in (2, 3, 6) for r in (0, 1, n - 1) for t in (0, 1)
                                 for q in (1, 2)], run_const)

    # ---- ways to give the phase difference
    def run_phi(case):
        form, two, frame = case
        dturns, nprof, ref = frame
        nturns, i0 = dturns * nprof, dturns * ref
        harm = [2, 5] if two else [1]
        mom, vol, ph = programs('ramp', 'even', 30, nturns, two)
        t_ref = mom[0, 0] + (i0 + 2.5) * T0
        tab = np.array([vol[0], 0.3 + 0.1 * np.sin(np.arange(vol.shape[1]))])
        own = np.array([ph[0], -0.2 + 0.1 * np.cos(np.arange(ph.shape[1]))])
        V = {'float': (0.4, lambda t, h: np.full(len(t), 0.4)), 'int': (0, lambda t, h: np.zeros(len(t))),
             'array1': (np.array([0.7]), lambda t, h: np.full(len(t), 0.7)),
             'voltage_axis': (tab[1], lambda t, h: lin(t, tab[0], tab[1])), 'own_axis': (own, lambda t, h: lin(t, *own))}
        if form in V:
            r = reference(mom, vol, V[form][1], harm, 1, 4.1, 1, t_ref, i0, nturns)
            m = make(dturns, nprof, ref, mom, vol, harm, 1, 4.1, 1, t_ref, phi12=V[form][0])
            compare(m, r, f'{case}')
            m.values_at_turns()
            compare(m, r, f'recomputed {case}')
        elif form == 'wrong':
            for bad in (np.zeros(vol.shape[1] + 1), np.zeros((3, 7)), np.zeros((5, 2))):
                try:
                    make(dturns, nprof, ref, mom, vol, harm, 1, 4.1, 1, t_ref, phi12=bad)
                except Exception:
                    continue
                raise Violation(f'phi12 of shape {bad.shape} accepted')
        elif form == 'both':
            try:
                make(dturns, nprof, ref, mom, vol, harm, 1, 4.1, 1, t_ref, phi12=0.1, phase_function=ph)
            except Exception:
                return dict(states=1, transitions=1, traces=1)
            raise Violation('phi12 and phase program accepted together')
        elif form == 'none':
            m = make(dturns, nprof, ref, mom, vol, harm, 1, 4.1, 1, t_ref)
            try:
                m.find_synchronous_phase()
                raise Violation('synchronous phase without phase difference')
            except ValueError:
                pass
            r = reference(mom, vol, phase12(ph, two), harm, 1, 4.1, 1, t_ref, i0, nturns)
            m.phi12 = r['phi12'].copy()
            m.find_synchronous_phase()
            compare(m, r, f'{case} later')
        elif form == 'later':
            m = make(dturns, nprof, ref, mom, vol, harm, 1, 4.1, 1, t_ref, phase_function=ph, vat_now=False)
            expect(m.vrf1_at_turn is None and m.phi0 is None, 'values calculated too early')
            m.values_at_turns()
            compare(m, reference(mom, vol, phase12(ph, two), harm, 1, 4.1, 1, t_ref, i0, nturns), f'{case}')
        elif form == 'harmonics':
            for h in ([], [1, 2, 3]):
                try:
                    make(dturns, nprof, ref, mom, vol, h, 1, 4.1, 1, t_ref, phase_function=ph)
                except Exception:
                    continue
                raise Violation(f'{len(h)} harmonics accepted')
        return dict(states=1, transitions=nturns, traces=1)

    c.part('phase_difference', [[f, t, list(fr)] for f in ('float', 'int', 'array1', 'voltage_axis', 'own_axis', 'wrong', 'both',
                                                           'none', 'later', 'harmonics') for t in (0, 1) for fr in FRAMES], run_phi)

    # ---- changing the program or the frames and recomputing
    OPS = ['voltage', 'momentum', 'phase', 'frames', 'recompute', 'track']

    def run_hist(case):
        k = 0
        for rest in itertools.product(range(len(OPS)), repeat=2 if not th else 3):
            st = dict(mk='ramp', vs=1.0, ps=0.0, frame=(2, 3, 1))
            def progs():
                mom, vol, ph = programs(st['mk'], 'even', 25, 40, True)
                vol[1:] *= st['vs']
                ph[1] += st['ps']
                return mom, vol, ph
            mom, vol, ph = progs()
            t_ref = mom[0, 0] + 12.5 * T0
            m = make(*st['frame'], mom, vol, [1, 2], 1, 4.1, 1, t_ref, phase_function=ph)
            for o in [case[0]] + list(rest):
                op = OPS[o]
                if op == 'voltage':
                    st['vs'] *= 1.25
                elif op == 'momentum':
                    st['mk'] = {'ramp': 'fall', 'fall': 'kink', 'kink': 'ramp'}[st['mk']]
                elif op == 'phase':
                    st['ps'] += 0.15
                elif op == 'frames':
                    st['frame'] = {(2, 3, 1): (3, 4, 2), (3, 4, 2): (4, 2, 0), (4, 2, 0): (2, 3, 1)}[st['frame']]
                mom, vol, ph = progs()
                m.momentum_raw, m.voltage_raw, m.phase_raw = mom, vol, ph
                m.dturns, m.nprofiles, m.machine_ref_frame = st['frame']
                m.values_at_turns()
                d, n, f = st['frame']
                r = reference(mom, vol, phase12(ph, True), [1, 2], 1, 4.1, 1, t_ref, d * f, d * n)
                if op == 'track':
                    Tracking(m).track(0, (np.array([0.1]), np.array([1e4])))
                compare(m, r, f'history {case} {rest}')
                k += 1
        return dict(states=k, transitions=k, traces=k)

    c.part('histories', [[a] for a in range(len(OPS))], run_hist, chunk=1)


main(body, 'C22', assumptions=[
    'Momentum programs with small relative change per turn; reference time never on a turn boundary nor on the first turn.',
    'Voltage and phase programs shorter than the momentum program are held constant outside (as np.interp).'])
