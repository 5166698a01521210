
P = 'longitudinal_tomography/'
KD, RC = P + 'cuda_kernels/kick_and_drift.cu', P + 'cuda_kernels/reconstruct.cu'
KP, RP, CF = P + 'python_routines/kick_and_drift_cuda.py', P + 'python_routines/reconstruct_cuda.py', P + 'utils/tomo_config.py'
SIM = """
import os, shutil, tempfile, warnings
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import cudasim as S
import longitudinal_tomography as lt
import longitudinal_tomography.cuda_kernels as ck
ck.check_compiled_kernels = lambda: True
tmp = tempfile.mkdtemp()
S.install(os.path.dirname(os.path.abspath(ck.__file__)), tmp, ck.REDUCTION_BLOCK_SIZE)
shutil.rmtree(tmp)
S.Config.threads = 8
from longitudinal_tomography.tracking.machine import Machine
from longitudinal_tomography.tracking.tracking import Tracking
from longitudinal_tomography.tomography.tomography import Tomography

def track(gpu, n=5, rec=2, phi12=0.3):
    (lt.use_gpu if gpu else lt.use_cpu)()
    m = Machine(dturns=3, vrf1=2637.2, mean_orbit_rad=25.0, bending_rad=8.239, b0=0.15722, trans_gamma=4.1,
                rest_energy=0.93827231E9, nprofiles=4, nbins=20, dtbin=9.999e-9, synch_part_x=10.0,
                vrf2=1500.0, h_ratio=2.0, phi12=0.3)
    m.values_at_turns()
    m.phi12 = phi12(len(m.phi0)) if callable(phi12) else phi12
    x, y = np.linspace(-1, 1, n), np.linspace(-1e5, 2e5, n)
    a, b = Tracking(m).track(rec, (x, y))
    return np.asarray(a, float), np.asarray(b, float)

def rec(gpu, npart, nprof, nbins, niter=2):
    (lt.use_gpu if gpu else lt.use_cpu)()
    i = np.arange(npart * nprof).reshape(npart, nprof)
    xp = (i * 7 + i // 3) % nbins
    w = np.array([np.bincount(xp[:, j], minlength=nbins) for j in range(nprof)]) + 0.2 + (np.arange(nbins) % 3) * 0.1
    t = Tomography(w, xp)
    t.run(niter)
    return np.asarray(t.weight, float), np.asarray(t.diff, float)

def alike(a, b, tol=1e-8):
    for u, v in zip(a, b):
        assert u.shape == v.shape and np.abs(u - v).max() <= tol * np.abs(v).max(), np.abs(u - v).max()
"""
F = ['lib/cudasim.py', 'lib/cudasim']
SEEDS = [
dict(id='c24_reduction_barrier', property='C24', files=F,
 edits=[(RC, """                weight_prof[j] = 0.0;
        }

        __syncthreads();
""", """                weight_prof[j] = 0.0;
        }
""")],
 demo=SIM+"""
for n in (3, 512, 513, 1030):
    alike(rec(True, 4, n, 5), rec(False, 4, n, 5))
""",
 needs='more than 512 profiles, and a thread that is ahead of the first one by a round of the sum',
 breaks='the storage of the block-wide sum is overwritten before it has been read'),
dict(id='c24_stale_kernels', property='C24', files=F,
 edits=[(CF, """        kick_and_drift_cuda.refresh_kernels()
        reconstruct_cuda.refresh_kernels()
""", """        for module in (kick_and_drift_cuda, reconstruct_cuda):
            if getattr(module, '_single', None) is None or single_prec_flag:
                module.refresh_kernels()
            module._single = single_prec_flag
""")],
 demo=SIM+"""
want = track(False), rec(False, 4, 3, 5)
lt.use_gpu(); lt.set_single_precision()
alike(track(True), want[0], 1e-3); alike(rec(True, 4, 3, 5), want[1], 1e-3)
lt.set_double_precision()
alike(track(True), want[0]); alike(rec(True, 4, 3, 5), want[1])
""",
 needs='going back from single to double precision while the GPU is selected',
 breaks='the kernels of the previous precision stay in use'),
dict(id='c24_short_grid', property='C24', files=F,
 edits=[(RP, """    count_part_bin_kernel(args=(rparts, xp, n_profiles, n_particles, n_bins),
                          block=block_size,
                          grid=(int((n_particles * n_profiles) / block_size[0] + 1), 1, 1))
""", """    count_part_bin_kernel(args=(rparts, xp, n_profiles, n_particles, n_bins),
                          block=block_size,
                          grid=(max(1, round(n_particles * n_profiles / block_size[0])), 1, 1))
""")],
 demo=SIM+"""
for n in range(12, 80):
    alike(rec(True, n, 3, 5, 1), rec(False, n, 3, 5, 1))
""",
 needs='a number of coordinates a little above a multiple of the block size',
 breaks='the last coordinates are not counted'),
dict(id='c24_plain_count', property='C24', files=F,
 edits=[(RC, """        atomicAdd(&rparts[j * nbins + bin], 1);
""", """        rparts[j * nbins + bin] += 1;
""")],
 demo=SIM+"""
alike(rec(True, 9, 3, 4), rec(False, 9, 3, 4))
""",
 needs='two threads counting particles of the same bin at the same time',
 breaks='particles are lost from the count of a bin'),
dict(id='c24_phase_of_turn', property='C24', files=F,
 edits=[(KD, """                        + rfv2[turn] * sin(hratio * (current_dphi + phi0[turn] - phi12[turn])) - acc_kick[turn]);
            turn--;
""", """                        + rfv2[turn] * sin(hratio * (current_dphi + phi0[turn] - phi12[0])) - acc_kick[turn]);
            turn--;
""")],
 demo=SIM+"""
v = lambda n: 0.3 + 0.4 * np.sin(np.arange(n))
alike(track(True), track(False))
alike(track(True, phi12=v), track(False, phi12=v))
""",
 needs='a phase difference given turn by turn and tracking back from a later profile',
 breaks='tracking back uses the phase difference of the first turn'),
]
