"""Machines and distributions for the tracking checks."""
from common import *

PHYS = dict(dturns=2, vrf1=2637.2, mean_orbit_rad=25.0, bending_rad=8.239,
            b0=0.15722, trans_gamma=4.1, rest_energy=0.93827231E9,
            nprofiles=4, nbins=20, dtbin=9.999e-9, synch_part_x=10.0)


def machine(**kw):
    from longitudinal_tomography.tracking.machine import Machine
    a = dict(PHYS)
    a.update(kw)
    return Machine(**a)


def synth(nprof, dturns, kind, q=1):
    """A machine whose per-turn arrays are O(1) and all different, so that any
    shifted, swapped or repeated turn changes the result visibly."""
    m = machine(nprofiles=max(nprof, 1), dturns=dturns, charge=q)
    n = dturns * (nprof - 1) + 1
    t = np.arange(n)
    m.phi0 = 0.3 + 0.17 * np.sin(1.3 * t + 0.4)
    m.deltaE0 = 0.05 * np.cos(0.9 * t + 1.0)
    m.drift_coef = 0.21 + 0.06 * np.sin(0.7 * t + 2.0)
    m.vrf1_at_turn = (0.3 + 0.09 * np.cos(1.1 * t)) / q
    m.omega_rev0 = 4e6 * (1 + 0.01 * t)
    m.h_ratio = 1.0
    m.phi12 = 0.0
    m.vrf2_at_turn = np.zeros(n)
    if kind != 'single':
        m.vrf2_at_turn = (0.2 + 0.07 * np.sin(1.7 * t + 1.0)) / q
        m.h_ratio = {'double': 2.0, 'h3': 3.7, 'turn': 2.0, 'neg': 2.0, 'gaps': 3.0, 'late': 2.0, 'h8': 8.0}[kind]
        m.phi12 = {'double': 0.6, 'h3': -0.4, 'neg': 2.5, 'late': -1.1, 'h8': 0.7,
                   'gaps': np.where(t % 3 == 0, 0.0, 0.4 - 0.01 * t),
                   'turn': 0.5 + 0.3 * np.sin(0.8 * t + 0.2)}[kind]
    if kind == 'neg':
        m.drift_coef = -m.drift_coef
    if kind == 'late':          # second harmonic switched on after the first turns, sign changes
        m.vrf2_at_turn = np.where(t < 2, 0.0, m.vrf2_at_turn)
        m.vrf1_at_turn = np.where(t % 4 == 3, -1.0, 1.0) * m.vrf1_at_turn
        m.deltaE0 = np.where(t < 1, 0.0, m.deltaE0)
    if kind == 'gaps':          # every quantity is exactly zero at some turns
        m.vrf1_at_turn = np.where(t % 2 == 1, 0.0, m.vrf1_at_turn)
        m.vrf2_at_turn = np.where(t % 3 == 1, 0.0, m.vrf2_at_turn)
        m.drift_coef = np.where(t % 5 == 2, 0.0, m.drift_coef)
        m.phi0 = np.where(t % 4 == 0, 0.0, m.phi0)
        m.deltaE0 = np.where(t % 3 == 2, 0.0, m.deltaE0)
    return m


KINDS = ('single', 'double', 'h3', 'h8', 'turn', 'neg', 'late', 'gaps')
PER_TURN = ('turn', 'gaps')


def model_of(m, dphi, dE, rec, delta=0):
    n = m.dturns * (m.nprofiles - 1) + 1
    phi12 = np.asarray(m.phi12, float)
    phi12 = np.full(n, float(phi12)) if phi12.ndim == 0 else phi12[:n]
    return M.track(dphi, dE, np.asarray(m.vrf1_at_turn) * m.q, np.asarray(m.vrf2_at_turn) * m.q,
                   m.phi0, phi12, m.h_ratio, m.deltaE0, m.drift_coef, m.dturns, m.nprofiles, rec, delta)


def deltas(m, rec):
    """Turns relative to profile rec from which tracking can start."""
    d, n = m.dturns, m.dturns * (m.nprofiles - 1)
    return [k for k in range(1 - d, d) if k and 0 <= rec * d + k <= n]


def cloud(n, seed=3):
    """n distinct particles: corner points first, then a fixed pattern."""
    corners = [(0.0, 0.0), (1.0, 0.5), (-2.0, 1.5), (3.2, -1.0), (-3.4, 0.0), (0.5, -2.0),
               (7.0, 0.2), (1e-9, 1e-9), (-12.0, 3.0)]
    x = pattern((n,), seed, -3.0, 3.0)
    y = pattern((n,), seed + 1, -2.0, 2.0)
    for i, (a, b) in enumerate(corners[:n]):
        x[i], y[i] = a, b
    return x, y


PHYS_SET = [
    dict(),
    dict(vrf2=1200.0, h_ratio=2.0, phi12=0.4),
    dict(bdot=0.8, vrf1=5000.0),
    dict(bdot=0.5, vrf1=6000.0, vrf2=2000.0, h_ratio=2.0, phi12=0.3, vrf1dot=2e6, machine_ref_frame=1),
    dict(b0=1.1, trans_gamma=1.8, vrf1=30000.0, dtbin=5e-9),
    dict(charge=2, vrf1=3000.0, h_num=2, dtbin=4e-9),
]


def precision(single):
    from longitudinal_tomography.utils import tomo_config as conf
    if single:
        conf.AppConfig.set_single_precision()
    else:
        conf.AppConfig.set_double_precision()
