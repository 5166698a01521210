"""Fortran-style input files for the input and whole-run checks."""
import io
import os
import sys
from tracklib import *

# line index -> (name, base value)
LINES = {
    12: 'pipe', 14: '/tmp/', 16: 4, 18: 0, 20: 24, 22: 1e-8, 24: 2, 26: 0, 28: 0, 31: 0, 34: 0, 36: 1,
    39: 12.0, 41: -1e6, 43: 1, 45: 1, 47: 1, 49: 3, 51: 2, 53: 0, 55: 1, 57: 1, 61: 2637.2, 63: 0.0,
    65: 0.0, 67: 0.0, 69: 1, 71: 1.0, 73: 0.0, 75: 0.15722, 77: 0.0, 79: 25.0, 81: 8.239, 83: 4.1,
    85: 0.93827231E9, 87: 1, 91: 0, 93: 0.0, 95: 0.0, 97: 0.36}
NAMES = {'data': 12, 'outdir': 14, 'nframes': 16, 'skipf': 18, 'nbins': 20, 'dt': 22, 'dturns': 24,
         'skips': 26, 'skipe': 28, 'emptylo': 31, 'emptyhi': 34, 'rebin': 36, 'spx': 39, 'demax': 41,
         'film0': 43, 'film1': 45, 'films': 47, 'niter': 49, 'snpt': 51, 'full': 53, 'bref': 55, 'mref': 57,
         'v1': 61, 'v1dot': 63, 'v2': 65, 'v2dot': 67, 'h': 69, 'hr': 71, 'phi12': 73, 'b0': 75, 'bdot': 77,
         'radius': 79, 'rho': 81, 'gt': 83, 'erest': 85, 'q': 87, 'sf': 91, 'g': 93, 'zw': 95, 'pick': 97}
assert sorted(NAMES.values()) == sorted(LINES)


def params(**kw):
    v = dict(LINES)
    for k, x in kw.items():
        v[NAMES[k]] = x
    return {k: v[i] for k, i in NAMES.items()}


def lines(**kw):
    p = params(**kw)
    inv = {i: k for k, i in NAMES.items()}
    out = []
    for i in range(98):
        if i in inv:
            x = p[inv[i]]
            out.append(x if isinstance(x, str) else repr(x))
        else:
            out.append(f'! comment line {i} = ')
    return out


def raw(nframes, nbins, seed=1):
    """Measurement: noise floor plus a bunch in the middle, all different."""
    x = np.arange(nbins)
    out = np.zeros((nframes, nbins))
    for i in range(nframes):
        c0 = nbins * (0.5 + 0.03 * np.sin(1.3 * i))
        wd = nbins * (0.30 + 0.02 * np.cos(0.7 * i))
        out[i] = 0.25 + np.maximum(0.0, 1 - ((x - c0) / wd) ** 2) * (3 + 0.1 * i) + 0.01 * np.sin(x + i)
    return out.ravel()


def write(path, ls, data=None, nl='\n', datalines=True):
    with open(path, 'w', newline='') as f:
        for s in ls:
            f.write(s + nl)
        if data is not None:
            for d in data:
                f.write(repr(float(d)) + nl)


class Stdin:
    def __init__(self, text):
        self.text = text

    def __enter__(self):
        self.old = sys.stdin
        sys.stdin = io.StringIO(self.text)

    def __exit__(self, *a):
        sys.stdin = self.old


def expected(p):
    """Machine and frame settings that a file with these parameters means."""
    nb = p['nbins'] - p['skips'] - p['skipe']
    m = dict(output_dir=p['outdir'], dtbin=p['dt'], dturns=p['dturns'], synch_part_x=p['spx'], demax=p['demax'],
             filmstart=p['film0'] - 1, filmstop=p['film1'] - 1, filmstep=p['films'], niter=p['niter'],
             snpt=p['snpt'], full_pp_flag=bool(p['full']), beam_ref_frame=p['bref'] - 1,
             machine_ref_frame=p['mref'] - 1, vrf1=p['v1'], vrf1dot=p['v1dot'], vrf2=p['v2'], vrf2dot=p['v2dot'],
             h_num=p['h'], h_ratio=p['hr'], phi12=p['phi12'], b0=p['b0'], bdot=p['bdot'],
             mean_orbit_rad=p['radius'], bending_rad=p['rho'], trans_gamma=p['gt'], e_rest=p['erest'], q=p['q'],
             self_field_flag=bool(p['sf']), g_coupling=p['g'], zwall_over_n=p['zw'], pickup_sensitivity=p['pick'],
             nprofiles=p['nframes'] - p['skipf'], nbins=nb, synch_part_y=nb / 2.0,
             min_dt=p['emptylo'] * p['dt'], max_dt=(nb - p['emptyhi']) * p['dt'])
    f = dict(raw_data_path=p['data'], nframes=p['nframes'], nbins_frame=p['nbins'], skip_frames=p['skipf'],
             skip_bins_start=p['skips'], skip_bins_end=p['skipe'], rebin=p['rebin'], sampling_time=p['dt'])
    return m, f


def ref_waterfall(p, data):
    w = np.asarray(data, float).reshape(p['nframes'], p['nbins'])[p['skipf']:]
    return w[:, p['skips']:p['nbins'] - p['skipe']]


def ref_profiles(w, bref, rebin):
    n = w.shape[1]
    k = int(np.floor(0.05 * n + 1e-12))
    w = w - w[bref, :k].mean()
    full = n // rebin
    cols = [w[:, i * rebin:(i + 1) * rebin].sum(axis=1) for i in range(full)]
    if n % rebin:
        i0 = max(full - 1, 0) * rebin
        cols.append(w[:, i0:].sum(axis=1) * (rebin / (n - i0)))
    return np.maximum(np.array(cols).T, 0.0)
