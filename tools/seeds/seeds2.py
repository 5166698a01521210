L='longitudinal_tomography/'
KD=L+'cpp_routines/kick_and_drift.cpp'; RC=L+'cpp_routines/reconstruct.cpp'; LT=L+'cpp_routines/libtomo.cpp'
TR=L+'tracking/tracking.py'; PA=L+'tracking/particles.py'; PS=L+'tracking/phase_space_info.py'; MA=L+'tracking/machine.py'; PM=L+'tracking/programs_machine.py'
TA=L+'tomography/__tomography.py'; TT=L+'tomography/tomography.py'
PP=L+'data/pre_process.py'; PO=L+'data/post_process.py'; PF=L+'data/profiles.py'; DD=L+'data/data_treatment.py'
TI=L+'utils/tomo_input.py'; TO=L+'utils/tomo_output.py'; RU=L+'utils/tomo_run.py'; PH=L+'utils/physics.py'
FT=L+'compat/fortran.py'
MACH='''
import numpy as np
from longitudinal_tomography.tracking.machine import Machine
from longitudinal_tomography.tracking.tracking import Tracking


def machine(**kw):
    a = dict(dturns=3, vrf1=2637.2, mean_orbit_rad=25.0, bending_rad=8.239, b0=0.15722, trans_gamma=4.1,
             rest_energy=0.93827231E9, nprofiles=4, nbins=20, dtbin=9.999e-9, synch_part_x=10.0)
    a.update(kw)
    return Machine(**a)

'''
SEEDS=[
dict(id='c08_voltage_cache', property='C08',
 edits=[(TR,"        rfv1 = conf.cast(machine.vrf1_at_turn * machine.q)\n        rfv2 =","        rfv1 = _voltages(machine.vrf1_at_turn * machine.q)\n        rfv2 ="),
  (TR,"log = logging.getLogger(__name__)\n","log = logging.getLogger(__name__)\n\n_prepared = {}\n\n\ndef _voltages(values):\n    # Voltage programs are usually the same from one tracking to the next\n    key = (len(values), float(values[0]), str(conf.AppConfig.get_precision()))\n    if key not in _prepared:\n        _prepared[key] = conf.cast(values)\n    return _prepared[key]\n")],
 demo=MACH+'''
p = (np.array([0.3, -0.5]), np.array([1e4, 2e4]))
b = machine(vrf1dot=5e7)
alone = b.vrf1_at_turn.copy()
x, y = Tracking(machine(vrf1dot=-5e7)).track(0, p)
X, Y = Tracking(b).track(0, p)
assert alone[0] == b.vrf1_at_turn[0] and not np.allclose(Y, y), 'the second tracking used the voltages of the first'
''',
 needs='two trackings in one process with equal first voltage but different ramps',
 breaks='the second tracking uses the voltage program of the first'),
dict(id='c11_many_particles', property='C11',
 edits=[(PA,"        valid_mask = ~conf.isin(conf.arange(xp.shape[1]), invalid_pts)","        valid_mask = ~conf.isin(conf.arange(xp.shape[1]).astype(np.uint16), invalid_pts)")],
 demo='''
import numpy as np
from longitudinal_tomography.tracking import particles as pts
n = 70000
x = np.full((2, n), 3.0)
x[1, 66000] = 50.0
y = np.tile(np.arange(float(n)), (2, 1))
a, b, lost = pts.filter_lost(x, y, 10)
assert lost == 1 and a.shape == (2, n - 1) and 66000 not in b[0] and (a < 10).all()
''',
 needs='more than 65536 particles, one of the later ones lost',
 breaks='the wrong particle is removed'),
dict(id='c14_long_data', property='C14',
 edits=[(TI,"    if not len(read_data) == ndata:","    if len(read_data) < ndata:")],
 demo='''
import sys
sys.path.insert(0, __file__.rsplit('/', 1)[0])
import os, shutil, tempfile, glob
import numpy as np
from longitudinal_tomography.utils import tomo_input as ti
src = ['/repo/unit_tests/resources/INDIVShavingC325.dat']
d = tempfile.mkdtemp()
try:
    text = open(src[0]).read()
    f = os.path.join(d, 'in.dat')
    open(f, 'w').write(text.rstrip() + '\\n' + '\\n'.join(['1.0'] * 100) + '\\n')
    try:
        ti.get_user_input(f)
    except Exception as e:
        print('refused', type(e))
    else:
        raise SystemExit('surplus data accepted')
finally:
    shutil.rmtree(d)
''',
 needs='a data block longer than the frame settings announce',
 breaks='the mismatch is not reported, all frames may be shifted'),
dict(id='c15_ramp_from_zero', property='C15',
 edits=[(MA,"        rf2v = self.vrf2 + self.vrf2dot * self.time_at_turn","        rf2v = self.vrf2 + (self.vrf2dot if self.vrf2 else 0.0) * self.time_at_turn")],
 demo=MACH+'''
m = machine(vrf2=0.0, vrf2dot=3e6, h_ratio=2.0)
m.values_at_turns()
assert np.allclose(m.vrf2_at_turn, 3e6 * m.time_at_turn) and m.vrf2_at_turn[-1] > 0, m.vrf2_at_turn
''',
 needs='second harmonic ramped up from exactly zero volt',
 breaks='the ramp is ignored'),
dict(id='c17_third_bunch', property='C17',
 edits=[(RC,"                bin = xpRound0[j * nprof + i] + centers[c];\n","                bin = xpRound0[j * nprof + i] + centers[c > 1 ? c - 1 : c];\n")],
 demo='''
import numpy as np
from longitudinal_tomography.tomography.tomography_multibunch import Tomography
rng = np.random.RandomState(2)
xp = rng.randint(0, 8, (40, 3))
wf = rng.rand(3, 40) + 0.2
cen = [0, 12, 26]
def go(order):
    c = [cen[i] for i in order]
    t = Tomography(wf, xp)
    t.run(c, [k for k in c], [k + 8 for k in c], niter=4)
    return np.array(t.weight_combined).reshape(3, -1)
a, b = go([0, 1, 2]), go([2, 1, 0])
assert np.allclose(a[[2, 1, 0]], b, rtol=1e-8), abs(a[[2, 1, 0]] - b).max()
''',
 needs='three or more bunches',
 breaks='particles of the third bunch are counted at the place of the second'),
dict(id='c18_threshold_maximum', property='C18',
 edits=[(DD,"    sumDens = np.sum(density)\n","    sumDens = np.max(density)\n")],
 demo='''
import numpy as np
from longitudinal_tomography.data.data_treatment import density_to_macro
t, e = np.arange(3.0), np.arange(4.0)
d = np.array([[1.0, 1, 1, 1], [1, 1, 1, 1], [1, 1, 1, 0.3]])
np.random.seed(1)
a, b = density_to_macro(t, e, d, 5000, threshold=0.05)
assert not ((np.rint(a) == 2) & (np.rint(b) == 3)).any()
''',
 needs='a cell below the threshold fraction of the total but not of the maximum',
 breaks='macroparticles in cells below the threshold'),
dict(id='c19_iteration_number', property='C19',
 edits=[(FT,"            f.write(f'         {i:3d}  {d:0.7E}\\n')","            f.write(f'         {i % 100:3d}  {d:0.7E}\\n')")],
 demo='''
import numpy as np, tempfile, shutil, glob, inspect
from longitudinal_tomography.compat import fortran
d = tempfile.mkdtemp()
try:
    fortran.save_difference(np.arange(150.0), d, 0)
    f = glob.glob(d + '/*')
    assert len(f) == 1
    a = np.loadtxt(f[0])
    assert np.array_equal(a[:, 0], np.arange(150)), a[98:103]
finally:
    shutil.rmtree(d)
''',
 needs='more than 100 iterations',
 breaks='iteration numbers start again from zero'),
dict(id='c21_profile_zero', property='C21',
 edits=[(RU,"    if reconstruct_profile is None:\n","    if not reconstruct_profile:\n")],
 demo='''
import numpy as np, glob
from longitudinal_tomography.utils import tomo_run, tomo_input as ti
from longitudinal_tomography.tracking import tracking
src = '/repo/unit_tests/resources/INDIVShavingC325.dat'
seen = []
orig = tracking.Tracking.track
def spy(self, rec, *a, **k):
    seen.append(rec)
    raise KeyboardInterrupt
tracking.Tracking.track = spy
inp = open(src).read().splitlines()
import tempfile, shutil, os
d = tempfile.mkdtemp()
try:
    # the first of the reconstructed profiles is the third one
    for i, l in enumerate(inp):
        if l.startswith('!') and ('first profile at which' in l or 'last profile at which' in l):
            inp[i + 1] = '3'
    p = os.path.join(d, 'in.dat')
    open(p, 'w').write('\\n'.join(inp) + '\\n')
    par, _ = ti.get_user_input(p)
    m, _ = ti.txt_input_to_machine(par)
    for want in (0, 1, None):
        try:
            tomo_run.run(p, reconstruct_profile=want)
        except KeyboardInterrupt:
            pass
    print(seen, m.filmstart)
    assert seen[0] == 0 and seen[1] == 1 and seen[2] == m.filmstart
finally:
    shutil.rmtree(d)
''',
 needs='asking for the first profile (index 0) with an input whose film starts later',
 breaks='another profile than the requested one is reconstructed'),
dict(id='c22_harmonic_ratio', property='C22',
 edits=[(PM,"            self.h_ratio = self.harmonics[1] / self.harmonics[0]","            self.h_ratio = self.harmonics[1] // self.harmonics[0]")],
 demo='''
import numpy as np
from longitudinal_tomography.tracking.programs_machine import ProgramsMachine
time = np.linspace(0.0, 1e-3, 50)
mom = np.array([time, np.full(50, 5e8)])
vol = np.array([time, np.full(50, 5000.0), np.full(50, 1000.0)])
for harm in ([1, 2], [2, 3], [2, 5]):
    m = ProgramsMachine(3, vol, mom, harm, 25.0, 8.239, 4.1, 0.93827231E9, 4, 20, 1e-8, 2e-4, phi12=0.3,
                        synch_part_x=10.0)
    assert abs(m.h_ratio - harm[1] / harm[0]) < 1e-12, (harm, m.h_ratio)
''',
 needs='a second harmonic number that is not a multiple of the first',
 breaks='ratio of the harmonics and with it the RF wave'),
dict(id='c12_clip_order', property='C12',
 edits=[(TO,"    phase_space = phase_space.clip(0.0)\n    # Normalizing phase space.\n    phase_space /= conf.sum(phase_space)","    # Normalizing phase space.\n    phase_space /= conf.sum(phase_space)\n    phase_space = phase_space.clip(0.0)")],
 demo='''
import numpy as np
from longitudinal_tomography.utils.tomo_output import create_phase_space_image
x = np.array([[0], [1], [2]])
y = np.array([[1], [1], [0]])
im = np.asarray(create_phase_space_image(x, y, np.array([2.0, 3.0, -1.0]), 4, 0))
assert im.min() >= 0 and abs(im.sum() - 1) < 1e-12, im
''',
 needs='a negative weight',
 breaks='the image does not sum to one'),
dict(id='c20_interval', property='C20',
 edits=[(TR,"            selfvolt = self._vself[profile, temp_xp.astype(int) - 1]\n\n            denergy = libtomo.kick(","            interval = min(turn // self.machine.dturns,\n                           len(self._vself) - 1)\n            selfvolt = self._vself[interval, temp_xp.astype(int) - 1]\n\n            denergy = libtomo.kick(")],
 demo=MACH+'''
from longitudinal_tomography.data.profiles import Profiles
m = machine(nprofiles=3, dturns=2, max_dt=20 * 9.999e-9, pickup_sensitivity=0.1, zwall_over_n=50.0, g_coupling=1.0)
m.values_at_turns()
w = np.tile(np.hanning(22)[1:-1], (3, 1)) * np.array([[1.0], [1.2], [1.5]])
p = Profiles(m, 9.999e-9, w)
p.calc_profilecharge()
p.calc_self_fields()
z = p.vself.copy()
out = []
for scale in (0.0, 1.0):
    v = np.zeros_like(z)
    v[1] = scale * 1e3          # a field between the second and the third profile only
    p.vself = v
    t = Tracking(m)
    t.enable_self_fields(p)
    out.append(t.track(0))
assert np.array_equal(out[0][1][:2], out[1][1][:2]), 'field of a later interval acts before it begins'
assert not np.array_equal(out[0][1][2], out[1][1][2])
''',
 needs='self-fields that differ from interval to interval; the turn that completes an interval',
 breaks='the last kick of every interval uses the self-field of the next one'),
dict(id='c03_hybrid_final', property='C03',
 edits=[(TT,"            weight = libtomo.back_project(\n                weight, flat_points, diff_waterfall.flatten(),\n                self.nparts, self.nprofs)\n            weight = weight.clip(0.0)\n\n        self.recreated = self._project(flat_points, weight)","            weight = libtomo.back_project(\n                weight, flat_points, diff_waterfall.flatten(),\n                self.nparts, self.nprofs)\n            if weight.min() < 0.0 and i + 1 < niter:\n                weight = weight.clip(0.0)\n\n        self.recreated = self._project(flat_points, weight)")],
 demo='''
import numpy as np
from longitudinal_tomography.tomography.tomography import Tomography
rng = np.random.RandomState(5)
bad = 0
for n in range(1, 6):
    xp = rng.randint(0, 6, (30, 4))
    wf = rng.rand(4, 6) ** 4
    a, b = Tomography(wf, xp), Tomography(wf, xp)
    assert np.allclose(a.run(n), b.run_hybrid(n), rtol=1e-7, atol=1e-12), n
''',
 needs='a weight that becomes negative in the last iteration',
 breaks='the hybrid variant returns negative weights there'),
dict(id='c16_next_turn', property='C16',
 edits=[(KD,"    while (turn < nturns) {\n        drift_up<real_t>(dphi, denergy, drift_coef[turn], nparts);","    while (turn < nturns) {\n        drift_up<real_t>(dphi, denergy, drift_coef[turn + 2] == 0 && turn + 2 == nturns + 1 ? 0 : drift_coef[turn], nparts);")],
 demo=MACH+'''
from longitudinal_tomography.cpp_routines import libtomo
m = machine(nprofiles=2, dturns=3)
m.values_at_turns()
n = 4
def go(behind):
    buf = np.full(n + 4, behind)
    buf[:n] = m.drift_coef[:n]
    x, y = np.zeros((2, 1)), np.zeros((2, 1))
    libtomo.kick_and_drift(x, y, np.array([1e4]), np.array([0.3]), m.vrf1_at_turn[:n].copy(), np.zeros(n),
                           m.phi0[:n].copy(), m.deltaE0[:n].copy(), buf[:n], np.zeros(n), 1.0, 3, 0, 0, 3, 1)
    return x, y
a, b = go(0.0), go(1.0)
assert np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]), (a, b)
''',
 needs='memory behind the drift coefficients that holds zero',
 breaks='reads one element behind an array, and the result depends on it'),
dict(id='c09_throttled', property='C09',
 edits=[(KD,"        callback(++progress, total);\n    } //while","        // about one report per thousandth is enough\n        if (++progress % std::max(total / 1000, 1) == 0)\n            callback(progress, total);\n    } //while")],
 demo=MACH+'''
m = machine(nprofiles=2, dturns=2500)
m.values_at_turns()
calls = []
Tracking(m).track(0, (np.array([0.3]), np.array([1e4])), callback=lambda i, n: calls.append((i, n)))
assert calls == [(i + 1, 2500) for i in range(2500)], (len(calls), calls[:3])
''',
 needs='at least 2000 turns',
 breaks='callbacks are skipped'),
]
