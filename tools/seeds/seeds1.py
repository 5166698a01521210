KD='longitudinal_tomography/cpp_routines/kick_and_drift.cpp'
RC='longitudinal_tomography/cpp_routines/reconstruct.cpp'
SEEDS=[
dict(id='c01_restart_row', property='C01',
 edits=[(KD,"        // Downwards\n        while (turn > 0) {","        // Downwards\n        while (turn > 0 && nturns > dturns) {")],
 demo='''
import numpy as np
from longitudinal_tomography.tracking.machine import Machine
from longitudinal_tomography.tracking.tracking import Tracking
m = Machine(dturns=3, vrf1=2637.2, mean_orbit_rad=25.0, bending_rad=8.239, b0=0.15722, trans_gamma=4.1,
            rest_energy=0.93827231E9, nprofiles=2, nbins=20, dtbin=9.999e-9, synch_part_x=10.0)
x, y = Tracking(m).track(1, (np.array([0.3, 0.5]), np.array([1e4, -2e4])))
assert np.all(x[0] != 0) and np.all(y[0] != 0), (x, y)
u, v = Tracking(m).track(0, (x[0], y[0]))
assert np.allclose(u[1], [0.3, 0.5]) and np.allclose(v[1], [1e4, -2e4])
''',
 needs='exactly two profiles, tracking started at the last one',
 breaks='the rows before the start profile stay unfilled'),
dict(id='c05_integer_max', property='C05',
 edits=[(RC,"    int max_bin_val = max_1d(rparts, all_bins);\n\n    // Setting 0's to 1's to avoid zero division\n    #pragma omp parallel for\n    for (int i = 0; i < all_bins; i++)\n        if (rparts[i] == 0.0)\n            rparts[i] = 1.0;\n\n    // Creating reciprocal\n    #pragma omp parallel for\n    for (int i = 0; i < nprof; i++)",
 "    const int last = all_bins > 4096 ? (all_bins / 4096) * 4096 : all_bins;\n    int max_bin_val = max_1d(rparts, last);\n\n    // Setting 0's to 1's to avoid zero division\n    #pragma omp parallel for\n    for (int i = 0; i < all_bins; i++)\n        if (rparts[i] == 0.0)\n            rparts[i] = 1.0;\n\n    // Creating reciprocal\n    #pragma omp parallel for\n    for (int i = 0; i < nprof; i++)")],
 demo='''
import numpy as np
from longitudinal_tomography.tomography.tomography import Tomography
rng = np.random.RandomState(3)
nprof, nbins, npart = 60, 100, 400
xp = rng.randint(0, nbins, (npart, nprof))
xp[:200, -1] = 7
t = Tomography(rng.rand(nprof, nbins) + .1, xp)
h = Tomography(t.waterfall.copy(), xp)
w = t.run(3); v = h.run_hybrid(3)
assert np.allclose(w, v, rtol=1e-6), abs(w - v).max()
''',
 needs='more than 4096 bins in total and the fullest bin in the last profiles',
 breaks='the difference is scaled by the wrong reciprocal particle count'),
dict(id='c02_block_tail', property='C02',
 edits=[(KD,"#pragma omp parallel for\n    for (int i = 0; i < nr_particles; i++)\n        dphi[i] -= drift_coef * denergy[i];",
 "    // whole blocks first, then the remaining particles\n    const int block = 256;\n    const int whole = nr_particles / block * block;\n#pragma omp parallel for\n    for (int i = 0; i < whole; i++)\n        dphi[i] -= drift_coef * denergy[i];\n    for (int i = whole; i < nr_particles - (whole > 0 && nr_particles % block == 1); i++)\n        dphi[i] -= drift_coef * denergy[i];")],
 demo='''
import numpy as np
from longitudinal_tomography.tracking.machine import Machine
from longitudinal_tomography.tracking.tracking import Tracking
m = Machine(dturns=3, vrf1=2637.2, mean_orbit_rad=25.0, bending_rad=8.239, b0=0.15722, trans_gamma=4.1,
            rest_energy=0.93827231E9, nprofiles=4, nbins=20, dtbin=9.999e-9, synch_part_x=10.0)
n = 513
a, b = np.linspace(-1, 1, n), np.linspace(-1e5, 1e5, n)
x, y = Tracking(m).track(1, (a, b))
u, v = Tracking(m).track(1, (a[::-1], b[::-1]))
assert np.allclose(x, u[:, ::-1]) and np.allclose(y, v[:, ::-1])
''',
 needs='a particle count of 256k+1',
 breaks='the last particle does not drift'),
]
