TG='longitudinal_tomography/utils/tomographics.py'
MACH='''
import warnings
warnings.simplefilter('ignore')
import numpy as np
from longitudinal_tomography.tracking.machine import Machine
from longitudinal_tomography.utils import tomographics as tg
def machine(**k):
    a = dict(dturns=40, mean_orbit_rad=25.0, bending_rad=8.239, rest_energy=0.93827231E9, nprofiles=40, nbins=24,
             b0=1.1, trans_gamma=1.8, vrf1=30000.0, dtbin=5e-9, synch_part_x=11.3)
    a.update(k)
    m = Machine(**a)
    m.values_at_turns()
    return m
'''
SEEDS=[
dict(id='c23_profile_energy', property='C23',
 edits=[(TG,"""    if idx_frame is None:
        idx_frame = tomomachine.machine_ref_frame

    turn = int(idx_frame * tomomachine.dturns)

    phi_0 = tomomachine.phi0[turn]
    energy = tomomachine.e0[turn]
    eta0 = tomomachine.eta0[turn]
    omega_rev0 = tomomachine.omega_rev0[turn]

    gamma0""","""    if idx_frame is None:
        idx_frame = tomomachine.machine_ref_frame

    turn = int(idx_frame * tomomachine.dturns)

    phi_0 = tomomachine.phi0[turn]
    energy = tomomachine.e0[idx_frame]
    eta0 = tomomachine.eta0[turn]
    omega_rev0 = tomomachine.omega_rev0[turn]

    gamma0""")],
 demo=MACH+'''
m = machine(bdot=8.0, vrf1=90000.0)
# one profile, every turn a machine of its own: the same area, whatever the numbering
a = float(np.ravel(tg.matched_area_calc(m, 60e-9, 39))[0])
t = 39 * m.dturns
n = machine(bdot=8.0, vrf1=90000.0)
for k in ('phi0', 'e0', 'eta0', 'omega_rev0'):
    setattr(n, k, np.full(len(m.phi0), getattr(m, k)[t]))
b = float(np.ravel(tg.matched_area_calc(n, 60e-9, 0))[0])
assert abs(a - b) < 1e-7 * b, (a, b)
''',
 needs='an accelerating machine and a profile other than the first',
 breaks='the matched area is computed with the energy of an early turn'),
dict(id='c23_weak_cells', property='C23',
 edits=[(TG,"""    cumulative_density = np.cumsum(-np.sort(-tomo_image.flatten()))
""","""    # Cells without density do not contribute
    cells = tomo_image[tomo_image > 1e-3 * np.max(tomo_image)]
    cumulative_density = np.cumsum(-np.sort(-cells))
""")],
 demo=MACH+'''
img = np.full((60, 60), 0.0009)
img[30, 30] = 1.0
img /= img.sum()
a = tg.emittance_density_calc(img, 1.0, 1.0, 0.9)
want = (0.9 - img[30, 30]) / img[0, 0]
assert abs(a - want) < 1.5, (a, want)
''',
 needs='an image with much of its density in many weak cells (below a thousandth of the maximum)',
 breaks='the area holding a fraction of the density ignores the weak cells'),
dict(id='c23_clip_scaling', property='C23',
 edits=[(TG,"""    new_weight_tomo = (new_weight_tomo
                       / np.sum(new_weight_tomo)
                       * np.sum(weight_tomo))
""","""    new_weight_tomo = (new_weight_tomo
                       * (len(weight_tomo)
                          / np.count_nonzero(new_weight_tomo)))
""")],
 demo=MACH+'''
m = machine()
n = 24
t = np.arange(n) * 2 * np.pi / (m.h_num * m.omega_rev0[0]) / n * 0.95
dE = (np.arange(n) - n / 2) * 1.2e6
rng = np.random.RandomState(2)
x, y = rng.rand(500, 40) * 22, rng.rand(500, 40) * 23
w = np.exp(-((x[:, 0] - 11) ** 2 + (y[:, 0] - 12) ** 2) / 20)
W = tg.tomo_weight_clipping(m, t, dE, x, y, w, 2.0, idx_frame=0)[0]
assert (W == 0).any() and abs(W.sum() - w.sum()) < 1e-9 * w.sum(), (W.sum(), w.sum())
''',
 needs='weights that differ between particles inside and outside the area',
 breaks='the total weight is not preserved'),
]
