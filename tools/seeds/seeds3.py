exec(open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'seeds2.py')).read().split('SEEDS=[')[0])
SEEDS=[
dict(id='c04_multi_counts', property='C04',
 edits=[(RC,"        for (int j = 0; j < npart; j++) {\n            for (int i = 0; i < nprof; i++) {\n                bin = xpRound0[j * nprof + i] + centers[c];","#pragma omp parallel for private(bin) if (npart > 50000)\n        for (int j = 0; j < npart; j++)  {\n            for (int i = 0; i < nprof; i++) {\n                bin = xpRound0[j * nprof + i] + centers[c];")],
 demo='''
import numpy as np
from longitudinal_tomography.cpp_routines import libtomo
npart, nprof, nbins = 400000, 3, 4
rng = np.random.RandomState(3)
xp = rng.randint(0, nbins, (npart, nprof)).astype(np.int32)
w = np.array([0.1, 0.2, 0.3, 0.4, 0.4, 0.3, 0.2, 0.1, 0.7, 0.1, 0.1, 0.1])
c = [np.array([v], dtype=np.int32) for v in (0, nbins - 1, 0)]
def run(t):
    libtomo.set_num_threads(t)
    return np.array(libtomo.reconstruct_multi(xp, w, *c, 1, nbins, npart, nprof, 1, False, None)[0])
a = run(1)
for _ in range(15):
    b = run(8)
    assert np.allclose(a, b, rtol=1e-9), np.abs(a - b).max()
''',
 needs='more than 50000 particles in a multi-bunch reconstruction and two threads counting particles of one bin at the same time',
 breaks='unsynchronised counting: lost counts change the weights depending on the schedule'),
dict(id='c06_small_signal', property='C06',
 edits=[(TA,"        waterfall /= conf.sum(waterfall, axis=1)[:, None]\n","        sums = conf.sum(waterfall, axis=1)[:, None]\n        # profiles without signal must not be divided by zero\n        sums[sums < 1e-15] = 1.0\n        waterfall /= sums\n")],
 demo='''
import numpy as np
from longitudinal_tomography.tomography.tomography import Tomography
rng = np.random.RandomState(1)
w = rng.rand(3, 6) + 0.1
x = rng.randint(0, 6, (20, 3))
a = Tomography(w.copy(), x).run(4)
b = Tomography(w * 1e-17, x).run(4)
assert np.allclose(a, b, rtol=1e-9), (a, b)
''',
 needs='measured profiles whose integral is tiny (below 1e-15)',
 breaks='the reconstruction depends on the scale of the measurement'),
dict(id='c07_shared_coordinates', property='C07',
 edits=[(TA,"            self._xp = conf.ascontiguousarray(value, dtype=conf.int32)\n            self._nparts","            self._xp = original if original.dtype == conf.int32 \\\n                and original.flags.c_contiguous else \\\n                conf.ascontiguousarray(value, dtype=conf.int32)\n            self._nparts"),
        (TA,"            value = conf.cast(value)\n\n            if value.ndim","            original = np.asarray(value)\n            value = conf.cast(value)\n\n            if value.ndim")],
 demo='''
import numpy as np
from longitudinal_tomography.tomography.tomography import Tomography
rng = np.random.RandomState(1)
w = rng.rand(3, 6) + 0.1
x = rng.randint(0, 6, (20, 3)).astype(np.int32)
t = Tomography(w.copy(), x)
a = t.run(4).copy()
x[:] = 0
b = Tomography(w.copy(), t.xp).run(4) if False else t.run(4)
assert np.allclose(a, b), (a, b)
''',
 needs='coordinates handed over as C-contiguous 32 bit integers which the caller changes later',
 breaks='later changes of the caller\'s array leak into the object'),
dict(id='c07_stale_count', property='C07',
 edits=[(TA,"            # Written so that values which","            self._nparts = value.shape[0]\n            # Written so that values which"),
        (TA,"            self._nparts = self._xp.shape[0]\n            log","            log")],
 demo='''
import numpy as np
from longitudinal_tomography.tomography.tomography import Tomography
w = np.ones((3, 6))
t = Tomography(w, np.zeros((5, 3), int))
try:
    t.xp = np.full((7, 3), 6)
    raise SystemExit('accepted')
except Exception:
    pass
assert t.nparts == len(t.xp) == 5, t.nparts
''',
 needs='a refused assignment of coordinates with another number of particles to an object that holds valid ones',
 breaks='the particle count no longer matches the stored coordinates and a run reads past their end'),
dict(id='c10_start_turn', property='C10',
 edits=[(PS,"        turn = self.machine.filmstart * self.machine.dturns\n        phases","        turn = self.machine.beam_ref_frame * self.machine.dturns\n        phases")],
 demo=MACH+'''
from longitudinal_tomography.tracking.phase_space_info import PhaseSpaceInfo
a = dict(vrf1=6000.0, vrf1dot=-5e7, nprofiles=4, min_dt=0.0, max_dt=20 * 9.999e-9, machine_ref_frame=0, beam_ref_frame=0)
m = machine(dturns=4, filmstart=3, filmstop=4, filmstep=1, **a)
m.values_at_turns()
p = PhaseSpaceInfo(m)
p.find_binned_phase_energy_limits()
# heights of the trajectories at the start of the film
t = 12
ph = (p.xorigin + np.arange(m.nbins + 1)) * m.dtbin * m.h_num * m.omega_rev0[t]
def h(x, x0):
    v = 2 * m.q / m.drift_coef[t] * (m.vrf1_at_turn[t] * (np.cos(x) - np.cos(x0)) + m.vrf1_at_turn[t] * (x - x0) * np.sin(m.phi0[t]))
    return np.sqrt(max(v, 0))
up = [np.floor(m.synch_part_y + min(h(x, ph[0]), h(x, ph[-1])) / p.dEbin) for x in ph]
want = [min(up[i], up[i + 1], m.nbins) for i in range(m.nbins)]
sel = slice(p.imin, p.imax + 1)
assert (np.array(want)[sel] == p.jmax[sel]).all(), (want, p.jmax)
''',
 needs='a start profile other than the beam reference profile, and voltages that change in between',
 breaks='the reconstruction area is bounded by trajectories of the wrong turn'),
dict(id='c13_cancelling_steps', property='C13',
 edits=[(PP,"    diff = np.sum(np.abs(waterfall[:, 1:] - waterfall[:, :-1]), axis=0)\n","    # the profiles are summed first, which costs less memory\n    diff = np.abs(np.diff(np.sum(waterfall, axis=0)))\n")],
 demo='''
import numpy as np
from longitudinal_tomography.data.pre_process import get_cuts
w = np.zeros((2, 200))
w[:, 90:110] = 1.0
w[0, 40:60], w[1, 40:60] = 5.0, -5.0        # a dipole: cancels in the sum
a, b = get_cuts(w, margin=5)
assert a <= 40 and b >= 60, (a, b)
''',
 needs='changes of the signal which cancel in the sum of the profiles',
 breaks='the automatic cut leaves out regions where the signal changes'),
]
