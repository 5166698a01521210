import itertools
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import numpy as np
from lib.vlib import Violation, Known, main, build, load, scratch, enumerate_cases  # noqa
from lib import model as M  # noqa


def lcg(n, mod, seed=1):
    """Fixed low-discrepancy-looking integer pattern (no randomness)."""
    i = np.arange(n, dtype=np.uint64)
    x = (i * np.uint64(2654435761) + np.uint64(seed) * np.uint64(40503)
         + (i * i) * np.uint64(97)) % np.uint64(4294967296)
    x ^= x >> np.uint64(15)
    x = (x * np.uint64(2246822519)) % np.uint64(4294967296)
    x ^= x >> np.uint64(13)
    return (x % np.uint64(mod)).astype(np.int64)


def pattern(shape, seed=1, lo=-1.0, hi=1.0):
    n = int(np.prod(shape))
    return (lo + (hi - lo) * lcg(n, 1 << 20, seed) / float(1 << 20)).reshape(shape)


def xp_of(index, npart, nprof, nbins):
    """index-th coordinate matrix of the universe nbins^(npart*nprof)."""
    d = []
    for _ in range(npart * nprof):
        d.append(index % nbins)
        index //= nbins
    return np.array(d, dtype=np.int32).reshape(npart, nprof)


def ladder(top=300, powers=16, extra=()):
    s = set(range(1, top + 1))
    for k in range(1, powers + 1):
        s |= {(1 << k) - 1, 1 << k, (1 << k) + 1}
    s |= set(extra)
    return sorted(s)


def blocks(n, size):
    return [[a, min(n, a + size)] for a in range(0, n, size)]


def expect(cond, msg, *a):
    if not cond:
        raise Violation(msg % a if a else msg)


def same(name, got, want, rtol, atol=None, ctx=''):
    if not M.close(got, want, rtol, atol):
        g, w = np.asarray(got), np.asarray(want)
        raise Violation(f'{name} differs {ctx}\n got ({g.shape}, {g.dtype}): '
                        f'{np.array2string(g, threshold=40)}\n expected ({w.shape}): '
                        f'{np.array2string(w, threshold=40)}')
