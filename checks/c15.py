"""C15: machines over a grid of physics settings, turn counts, reference
profiles; every turn checked against the recurrences, and against the machine
with other settings that must not matter."""
from tracklib import *

CLIGHT = 299792458.0
ARR = ('time_at_turn', 'phi0', 'e0', 'beta0', 'deltaE0', 'eta0', 'drift_coef', 'omega_rev0', 'vrf1_at_turn',
       'vrf2_at_turn')

PHY = [
    dict(),
    dict(bdot=0.8, vrf1=5000.0),
    dict(bdot=-0.4, vrf1=5000.0),
    dict(vrf2=1200.0, h_ratio=2.0, phi12=0.4),
    dict(vrf2=900.0, h_ratio=2.0, phi12=np.pi),
    dict(bdot=0.5, vrf1=6000.0, vrf2=2000.0, h_ratio=2.0, phi12=0.3, vrf1dot=2e6),
    dict(bdot=0.5, vrf1=6000.0, vrf2=1500.0, h_ratio=3.0, phi12=-0.3, vrf1dot=-3e6, vrf2dot=5e6),
    dict(vrf1dot=4e6, vrf1=4000.0),
    dict(vrf1dot=4e6, vrf1=4000.0, vrf2dot=3e6, vrf2=10.0, h_ratio=2.0, bdot=0.3),
    dict(vrf2dot=3e6, h_ratio=2.0, bdot=0.3, vrf1=5000.0),
    dict(vrf2dot=-2e6, h_ratio=2.0, phi12=0.2, vrf1=5000.0, vrf1dot=1e6),
    dict(b0=1.1, trans_gamma=1.8, vrf1=30000.0, dtbin=5e-9),
    dict(b0=1.1, trans_gamma=1.8, vrf1=30000.0, bdot=1.5, vrf2=6000.0, h_ratio=2.0, phi12=-0.2, dtbin=5e-9),
    dict(charge=2, vrf1=3000.0, h_num=2, dtbin=4e-9, bdot=0.4),
    dict(charge=-1, vrf1=6000.0, bdot=0.5),
    dict(charge=-1, vrf1=30000.0, bdot=1.0, b0=1.1, trans_gamma=1.8),
    dict(charge=54, rest_energy=193.7e9, b0=0.7, bending_rad=70.1, mean_orbit_rad=100.0, trans_gamma=6.1, h_num=16,
         vrf1=80000.0, bdot=0.2),
]


def model(a):
    """Independent recurrence with root refinement (all turns)."""
    q, R, rho = a.get('charge', 1), a['mean_orbit_rad'], a['bending_rad']
    m0, bdot = a['rest_energy'], a.get('bdot', 0.0)
    v1, v1d, v2, v2d = a['vrf1'], a.get('vrf1dot', 0.0), a.get('vrf2', 0.0), a.get('vrf2dot', 0.0)
    hr, p12 = a.get('h_ratio', 1.0), a.get('phi12', 0.0)
    n = a['dturns'] * (a['nprofiles'] - 1) + 1
    i0 = a['dturns'] * a.get('machine_ref_frame', 0)
    need = 2 * np.pi * R * rho * bdot * np.sign(q)
    t, e, ph = np.zeros(n), np.zeros(n), np.zeros(n)
    e[i0] = np.sqrt((q * a['b0'] * rho * CLIGHT) ** 2 + m0 ** 2)

    def volt(x, tt):
        return (v1 + v1d * tt) * np.sin(x) + (v2 + v2d * tt) * np.sin(hr * (x - p12))

    def dvolt(x, tt):
        return (v1 + v1d * tt) * np.cos(x) + hr * (v2 + v2d * tt) * np.cos(hr * (x - p12))

    def root(x, tt):
        for _ in range(60):
            x = x - (volt(x, tt) - need) / dvolt(x, tt)
        return x

    def beta(x):
        return np.sqrt(1 - (m0 / x) ** 2)

    below = q * (a['trans_gamma'] - e[i0] / m0) > 0
    x = 0.0 if below else np.pi
    s = np.arcsin(need / v1)
    ph[i0] = root(s if below else np.pi - s, 0.0)
    for i in range(i0 + 1, n):
        t[i] = t[i - 1] + 2 * np.pi * R / (beta(e[i - 1]) * CLIGHT)
        ph[i] = root(ph[i - 1], t[i])
        e[i] = e[i - 1] + q * volt(ph[i], t[i])
    for i in range(i0 - 1, -1, -1):
        e[i] = e[i + 1] - q * volt(ph[i + 1], t[i + 1])
        t[i] = t[i + 1] - 2 * np.pi * R / (beta(e[i]) * CLIGHT)
        ph[i] = root(ph[i + 1], t[i])
    b = beta(e)
    eta = 1 - b ** 2 - a['trans_gamma'] ** -2
    return dict(time_at_turn=t, phi0=ph, e0=e, beta0=b, eta0=eta,
                drift_coef=2 * np.pi * a.get('h_num', 1) * eta / (e * b ** 2), omega_rev0=b * CLIGHT / R,
                vrf1_at_turn=v1 + v1d * t, vrf2_at_turn=v2 + v2d * t), volt, dvolt, need, below


def grab(m):
    return {k: np.array(getattr(m, k), float) for k in ARR}


def body(c, lib):
    from longitudinal_tomography import exceptions as expt
    th = c.thorough
    defect = {'seen': 0}

    def args(kw):
        a = dict(PHYS)
        a.update(kw)
        return a

    def check(m, kw, ctx=''):
        a = args(kw)
        ref, volt, dvolt, need, below = model(a)
        n = a['dturns'] * (a['nprofiles'] - 1) + 1
        i0 = a['dturns'] * a.get('machine_ref_frame', 0)
        q = a.get('charge', 1)
        for k in ARR:
            expect(np.shape(getattr(m, k)) == (n,), f'{k} has shape {np.shape(getattr(m, k))} {kw} {ctx}')
        g = grab(m)
        vmax = np.abs(g['vrf1_at_turn']) + np.abs(g['vrf2_at_turn'])
        t, e, b, ph = g['time_at_turn'], g['e0'], g['beta0'], g['phi0']
        expect(t[i0] == 0, f'time at the reference profile is {t[i0]} {kw}')
        expect(np.all(np.abs(volt(ph, t) - need) <= 1e-5 * vmax), f'synchronous phase does not balance {kw} {ctx}')
        expect(np.all(((q * dvolt(ph, t) > 0) == (below if q > 0 else (not below))) | (g['vrf1_at_turn'] <= 0))
               or a.get('vrf2', 0.0) != 0, f'unstable synchronous phase {ph} {kw} {ctx}')
        same('energy', e[i0], ref['e0'][i0], 1e-12, ctx=str(kw))
        same('energy gain', np.diff(e), q * volt(ph[1:], t[1:]), 1e-9, atol=1e-14 * e[0] * 100, ctx=str(kw))
        same('revolution period', np.diff(t), 2 * np.pi * a['mean_orbit_rad'] / (b[:-1] * CLIGHT), 1e-9, ctx=str(kw))
        for k, v in ref.items():
            # the synchronous phase is found to 1e-4 in the last step
            tol = dict(time_at_turn=1e-9, phi0=1e-5, e0=1e-10).get(k, 1e-9)
            same(k, g[k], v, tol, atol=tol if k == 'phi0' else tol * max(1e-30, np.abs(v).max()), ctx=f'{kw} {ctx}')
        want = np.zeros(n)
        want[1:] = np.diff(e)
        tol = 1e-6 * np.abs(q * vmax).max() + 1e-13 * e[0]
        up = slice(i0 + 1, n)
        same('deltaE0', g['deltaE0'][up], want[up], 1e-9, atol=tol, ctx=str(kw))
        lo = g['deltaE0'][1:i0 + 1]
        if not np.allclose(lo, want[1:i0 + 1], rtol=1e-9, atol=tol):
            asis = np.zeros(n)
            asis[:i0] = np.diff(e)[:i0]
            same('deltaE0', g['deltaE0'][:i0 + 1], asis[:i0 + 1], 1e-9, atol=tol, ctx=str(kw))
            defect['seen'] += 1
            return True
        return False

    grid = [[p, d, n, r] for p in range(len(PHY)) for d in ((1, 2, 5) if not th else (1, 2, 3, 5, 12))
            for n in ((1, 2, 4) if not th else (1, 2, 3, 4, 9)) for r in range(n)]
    long_ = [[p, d, n, r] for p in range(len(PHY)) for d, n in (((40, 12), (1, 300)) if not th else
             ((40, 12), (1, 300), (200, 20))) for r in (0, n // 2, n - 1)
             if d < 200 or 'vrf1dot' not in PHY[p]]
    long_ += [[p, 1300, 3, r] for p in (0, 1, 3, 5, 12) for r in (0, 2)]

    def run_grid(case):
        p, d, n, r = case
        kw = dict(PHY[p], dturns=d, nprofiles=n, machine_ref_frame=r)
        m = machine(**kw)
        bad = check(m, kw)
        if bad:
            raise Known('deltaE0-before-reference', str(kw),
                        dict(states=d * (n - 1) + 1, transitions=d * (n - 1), traces=1))
        return dict(states=d * (n - 1) + 1, transitions=d * (n - 1), traces=1)

    c.part('recurrences', grid + long_, run_grid)

    # ---- what must not matter, what must only shift
    def eqarr(a, b, what, sl=slice(None), sl2=slice(None), rtol=0.0):
        for k in ARR:
            if k == 'deltaE0':
                continue
            x, y = a[k][sl], b[k][sl2]
            if rtol == 0.0:
                expect(np.array_equal(x, y), f'{k} changed by {what}: {x} {y}')
            else:
                same(k, x, y, rtol, atol=rtol * max(np.abs(y).max(), 1.0 if k == 'phi0' else 0.0), ctx=what)

    IRR = [dict(nbins=40), dict(dtbin=3e-9), dict(synch_part_x=4.0), dict(beam_ref_frame=2), dict(snpt=7),
           dict(niter=3), dict(filmstart=1, filmstop=2), dict(demax=5e5), dict(full_pp_flag=True),
           dict(self_field_flag=True, g_coupling=1.0, zwall_over_n=10.0, pickup_sensitivity=0.3),
           dict(min_dt=2e-8, max_dt=5e-8), dict(output_dir='x')]

    def run_meta(case):
        p, = case
        kw = dict(PHY[p], dturns=3, nprofiles=5)
        k = 0
        base = grab(machine(**kw))
        # recomputation, from every history of one or two other settings
        for r1 in (0, 2, 4):
            for n1 in (3, 5, 7):
                if r1 >= n1:
                    continue
                m = machine(**kw)
                m.machine_ref_frame, m.nprofiles = r1, n1
                m.values_at_turns()
                other = grab(machine(**dict(kw, machine_ref_frame=r1, nprofiles=n1)))
                eqarr(grab(m), other, f'history {r1} {n1}')
                m.values_at_turns()
                eqarr(grab(m), other, 'recomputation')
                m.machine_ref_frame, m.nprofiles = 0, 5
                m.values_at_turns()
                eqarr(grab(m), base, f'history {r1} {n1} and back')
                k += 3
        m = machine(vat_now=False, **kw)
        expect(m.phi0 is None, 'values computed although not asked for')
        m.values_at_turns()
        eqarr(grab(m), base, 'late computation')
        for ir in IRR:
            eqarr(grab(machine(**dict(kw, **ir))), base, f'irrelevant parameter {ir}')
            k += 1
        # more profiles, other grouping of the turns
        eqarr(grab(machine(**dict(kw, nprofiles=9))), base, 'more profiles', slice(0, 13))
        eqarr(grab(machine(**dict(kw, nprofiles=13, dturns=1))), base, 'grouping 1')
        eqarr(grab(machine(**dict(kw, nprofiles=3, dturns=6))), base, 'grouping 6')
        eqarr(grab(machine(**dict(kw, nprofiles=2, dturns=12))), base, 'grouping 12')
        # reference profile: same values, shifted
        for r in range(1, 5):
            s = grab(machine(**dict(kw, machine_ref_frame=r)))
            eqarr(s, base, f'reference {r}', slice(3 * r, 13), slice(0, 13 - 3 * r), 1e-9)
            d1 = grab(machine(**dict(kw, nprofiles=13, dturns=1, machine_ref_frame=3 * r)))
            eqarr(s, d1, f'reference {r} regrouped')
            # independent of the number of later profiles
            s2 = grab(machine(**dict(kw, machine_ref_frame=r, nprofiles=8)))
            eqarr(s2, s, f'reference {r}, more profiles', slice(0, 13))
            # the state before the reference is the one that leads to it
            back = machine(**dict(kw, machine_ref_frame=r))
            a = dict(PHYS)
            a.update(kw)
            pc = np.sqrt(back.e0[0] ** 2 - a['rest_energy'] ** 2) / CLIGHT
            # time zero differs: voltages are given at the reference
            t0 = back.time_at_turn[0]
            fw = dict(kw, b0=pc / (abs(back.q) * a['bending_rad']), vrf1=a['vrf1'] + a.get('vrf1dot', 0.0) * t0,
                      vrf2=a.get('vrf2', 0.0) + a.get('vrf2dot', 0.0) * t0)
            f = grab(machine(**fw))
            f['time_at_turn'] = f['time_at_turn'] + t0
            eqarr(f, s, f'start from the first profile, reference {r}', rtol=1e-5)
            k += 4
        # objects do not share arrays; scaling laws
        m1, m2 = machine(**kw), machine(**kw)
        for nme in ARR:
            expect(not np.shares_memory(getattr(m1, nme), getattr(m2, nme)), f'{nme} shared between machines')
        h = grab(machine(**dict(kw, h_num=3 * kw.get('h_num', 1))))
        same('drift_coef', h['drift_coef'], 3 * base['drift_coef'], 1e-12)
        return dict(states=k + 30, transitions=k + 30, traces=k + 30)

    c.part('histories_and_symmetries', [[p] for p in range(len(PHY))], run_meta)

    # ---- parameters: refused or kept
    BAD = {'dtbin': [0, -1e-9], 'dturns': [0, -1], 'niter': [0, -1], 'snpt': [0, -2], 'h_num': [0, -1],
           'b0': [0, -0.1], 'mean_orbit_rad': [0, -1.0], 'bending_rad': [0, -2.0], 'rest_energy': [0, -1e9],
           'machine_ref_frame': [-1, 4, 50], 'beam_ref_frame': [-1, -3], 'h_ratio': [-1, -0.5],
           'filmstart': [-1, 3], 'filmstop': [-1], 'filmstep': [0, 5, -5], 'pickup_sensitivity': [-0.1],
           'g_coupling': [-1.0]}
    GOOD = {'dtbin': [1e-12, 5e-9], 'dturns': [1, 7], 'niter': [1, 99], 'snpt': [1, 9], 'h_num': [1, 21],
            'b0': [0.05, 0.9], 'mean_orbit_rad': [5.0, 110.0], 'bending_rad': [4.0, 70.0], 'rest_energy': [0.5e9, 2e9],
            'machine_ref_frame': [0, 3], 'beam_ref_frame': [0, 3], 'h_ratio': [1.0, 2.5], 'filmstart': [0, 2],
            'filmstop': [2, 3], 'filmstep': [1, 2, 3, -1], 'pickup_sensitivity': [0, 2.0], 'g_coupling': [0, 4.0]}
    NONE = ('dtbin', 'dturns', 'niter', 'snpt', 'h_num', 'b0', 'mean_orbit_rad', 'bending_rad', 'rest_energy',
            'machine_ref_frame', 'beam_ref_frame', 'h_ratio', 'filmstart', 'filmstop', 'filmstep')
    film = dict(filmstart=0, filmstop=2, filmstep=1)
    attr = {'rest_energy': 'e_rest'}

    def run_par(case):
        name, v, good, other = case
        kw = dict(film, nprofiles=4)
        if other:
            kw[other[0]] = other[1]
        kw[name] = v
        for late in (False, True):
            try:
                if late:
                    # set on a living machine, then recomputed
                    m = machine(**dict(film, nprofiles=4))
                    for n_, v_ in ((other,) if other else ()) + ((name, v),):
                        setattr(m, attr.get(n_, n_), v_)
                    m.values_at_turns()
                else:
                    m = machine(**kw)
            except (expt.MachineParameterError, expt.SpaceChargeParameterError):
                expect(not good, f'valid {name}={v} ({other}) refused')
                continue
            except (IndexError, ValueError, TypeError):
                expect(not good and name in ('machine_ref_frame',) or v is None, f'{name}={v} ({other}) failed')
                continue
            expect(good, f'invalid {name}={v} accepted (other {other})')
            expect(getattr(m, attr.get(name, name)) == v, f'{name} not kept')
        return dict(states=1, transitions=2, traces=2)

    cases = [[n, v, False, None] for n in BAD for v in BAD[n]] + [[n, v, True, None] for n in GOOD for v in GOOD[n]] + \
            [[n, None, False, None] for n in NONE]
    # an invalid parameter stays invalid beside any other valid one
    for n in BAD:
        for o in GOOD:
            if o == n or {o, n} & {'filmstart', 'filmstop', 'filmstep'} or {o, n} <= {'machine_ref_frame', 'dturns'}:
                continue
            for v in BAD[n]:
                for w in GOOD[o]:
                    cases.append([n, v, False, [o, w]])
    c.part('parameters', cases, run_par)

    def run_bins(case):
        nb, d = case
        m = machine(nbins=nb, dtbin=d)
        expect(m.synch_part_y == nb / 2 and m.min_dt == 0, 'centre')
        same('max_dt', m.max_dt, nb * d, 1e-12)
        m.nbins = nb + 3
        expect(m.synch_part_y == (nb + 3) / 2 and m.nbins == nb + 3, 'centre not updated')
        m.load_fitted_synch_part_x_ftn((nb / 3, 1.5, 7.25))
        expect((m.synch_part_x, m.fitted_synch_part_x, m.bunchlimit_low, m.bunchlimit_up) ==
               (nb / 3, nb / 3, 1.5, 7.25), 'fitted values')
        return dict(states=2, transitions=3, traces=1)

    c.part('bins', [[nb, d] for nb in range(1, 60) for d in (1e-9, 2.5e-10)], run_bins)


    # ---- the functions the recurrences are made of, at every turn of every machine and a grid of phases
    from longitudinal_tomography.utils import physics as ph

    class Programs:
        """Turn-by-turn values, as the physics functions see a machine made from programs."""

    def run_fun(case):
        i, frames, dturns, rf = case
        base = dict(PHYS, **PHY[i])
        base.update(nprofiles=frames, dturns=dturns, machine_ref_frame=rf)
        m = machine(**base)
        m.values_at_turns()
        n = len(m.phi0)
        t, v1, v2 = m.time_at_turn, m.vrf1_at_turn, m.vrf2_at_turn
        hr, p12, q = m.h_ratio, m.phi12, m.q
        need = 2 * np.pi * m.mean_orbit_rad * m.bending_rad * m.bdot * np.sign(q)
        scale = abs(v1).max() * (1 + hr) + abs(v2).max() * (1 + hr) + abs(need)
        pm = Programs()
        turns = np.arange(n)
        pm.vrf1_at_turn, pm.vrf2_at_turn = v1 * (1 + 0.01 * turns), v2 + 500.0 + 10.0 * turns
        pm.phi12, pm.bdot = 0.2 + 0.01 * turns, m.bdot + 0.02 * turns
        pm.h_ratio, pm.mean_orbit_rad, pm.bending_rad, pm.q = hr, m.mean_orbit_rad, m.bending_rad, q
        k = 0

        def ok(name, got, want, turn, x, sc=scale):
            nonlocal k
            k += 1
            expect(abs(got - want) <= 1e-11 * sc, f'{name} turn={turn} phase={x}: {got} instead of {want}')

        for u in range(n):
            expect(ph.find_phi_lower_upper(m, u) == ((-np.pi, np.pi) if q * (m.trans_gamma - m.e0[u] / m.e_rest) > 0
                                                     else (0.0, 2 * np.pi)), f'phase limits at turn {u}')
            ok('lorentz_beta', ph.lorentz_beta(m, u), np.sqrt(1 - (m.e_rest / m.e0[u]) ** 2), u, None, 1.0)
            ok('vrft', ph.vrft(m.vrf1, m.vrf1dot, t[u]), v1[u], u, None)
            lo, up = ph.find_phi_lower_upper(m, u)
            if not v2[u]:
                x = ph.find_synch_phase_mch(m, u, lo, up)
                expect(abs(v1[u] * np.sin(x) - need) <= 1e-5 * scale and (np.cos(x) * v1[u] > 0) == (lo < 0 if v1[u] > 0 else
                       lo >= 0), f'synchronous phase {x} at turn {u}')
            for x in PHASES:
                a, b, e = v1[u] * np.sin(x), v2[u] * np.sin(hr * (x - p12)), v1[u] * np.cos(x)
                f = hr * v2[u] * np.cos(hr * (x - p12))
                ok('rfvolt_rf1', ph.rfvolt_rf1_mch(x, m, u), a - need, u, x)
                ok('drfvolt_rf1', ph.drfvolt_rf1_mch(x, m, u), e, u, x)
                ok('rf_voltage', ph.rf_voltage_mch(x, m, u), a + b - need, u, x)
                ok('rf_voltage (arrays)', ph.rf_voltage(x, v1, v2, m.bdot, hr, p12, m.mean_orbit_rad, m.bending_rad,
                                                        q)[u], a + b - need, u, x)
                ok('drf_voltage', ph.drf_voltage_mch(x, m, u), e + f, u, x)
                ok('drf_voltage (arrays)', ph.drf_voltage(x, v1, v2, hr, p12)[u], e + f, u, x)
                ok('rf_voltage_at_phase', ph.rf_voltage_at_phase(x, m.vrf1, m.vrf1dot, m.vrf2, m.vrf2dot, hr, p12, t,
                                                                 u), a + b, u, x)
                ok('rf_voltage_at_phase (voltages)', ph.rf_voltage_at_phase(x, v1[u], v2[u], hr, p12), a + b, u, x)
                V, W, P, B = pm.vrf1_at_turn[u], pm.vrf2_at_turn[u], pm.phi12[u], pm.bdot[u]
                N = 2 * np.pi * m.mean_orbit_rad * m.bending_rad * B * np.sign(q)
                ps = scale * 2 + 4000 + abs(N)
                ok('programs rfvolt_rf1', ph.rfvolt_rf1_pmch(x, pm, u), V * np.sin(x) - N, u, x, ps)
                ok('programs drfvolt_rf1', ph.drfvolt_rf1_pmch(x, pm, u), V * np.cos(x), u, x, ps)
                ok('programs rf_voltage', ph.rf_voltage_pmch(x, pm, u), V * np.sin(x) + W * np.sin(hr * (x - P)) - N, u,
                   x, ps)
                ok('programs drf_voltage', ph.drf_voltage_pmch(x, pm, u),
                   V * np.cos(x) + hr * W * np.cos(hr * (x - P)), u, x, ps)
                for ln in (0.3, 1.7):
                    for ax in (p12, p12 + 0.05 * turns, (p12 + 0.05 * turns).tolist()):
                        w = p12 + 0.05 * u if not np.isscalar(ax) else p12
                        a1 = v1[u] * np.sin(m.phi0[u]) + v2[u] * np.sin(hr * (m.phi0[u] - w))
                        want = (v1[u] * (np.cos(x + ln) - np.cos(x))
                                + v2[u] / hr * (np.cos(hr * (x + ln - w)) - np.cos(hr * (x - w))) + ln * a1)
                        dwant = -(v1[u] * (np.sin(x + ln) - np.sin(x))
                                  + v2[u] * (np.sin(hr * (x + ln - w)) - np.sin(hr * (x - w))))
                        ok('phase_low', ph.phase_low(x, ln, v1, v2, m.phi0, hr, ax, u, u), want, u, x)
                        ok('dphase_low', ph.dphase_low(x, ln, v1, v2, hr, ax, u), dwant, u, x)
                        if ax is p12:
                            ok('phase_low (machine)', ph.phase_low_mch(x, m, ln, u), want, u, x)
                            ok('dphase_low (machine)', ph.dphase_low_mch(x, m, ln, u), dwant, u, x)
        return dict(states=k, transitions=k, traces=k)

    PHASES = (-2.9, -0.7, 0.0, 0.45, 1.6, 3.3) if not th else tuple(np.linspace(-3.3, 6.3, 33))
    c.part('functions', [[i, f, d, r] for i in range(len(PHY)) for f, d, r in ((3, 2, 0), (2, 3, 1), (4, 1, 2))], run_fun)


main(body, 'C15', assumptions=[
    'Synchronous phases are located by a root finder with a 1e-4 step tolerance; balance is required to 1e-5 of the '
    'peak voltages.'])
