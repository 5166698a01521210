"""Reference models: straightforward numpy transcriptions of the documented
equations.  Nothing here is shared with the code under test."""
import numpy as np


# -- tracking --------------------------------------------------------------
def kick(dphi, dE, v1, v2, phi0, phi12, h, acc):
    return dE + v1 * np.sin(dphi + phi0) + v2 * np.sin(h * (dphi + phi0 - phi12)) - acc


def unkick(dphi, dE, v1, v2, phi0, phi12, h, acc):
    return dE - (v1 * np.sin(dphi + phi0) + v2 * np.sin(h * (dphi + phi0 - phi12)) - acc)


def track(dphi0, dE0, v1, v2, phi0, phi12, h, acc, drift, dturns, nprof, rec, delta=0):
    """Longitudinal map, one drift and one kick per turn, from delta turns after profile rec.
    All per-turn arguments are arrays of length dturns*(nprof-1)+1."""
    nturns = dturns * (nprof - 1)
    n = len(dphi0)
    X = np.full((nprof, n), np.nan)
    Y = np.full((nprof, n), np.nan)
    x, y = np.array(dphi0, float), np.array(dE0, float)
    if delta == 0:
        X[rec], Y[rec] = x, y
    for t in range(rec * dturns + delta, nturns):
        x = x - drift[t] * y
        u = t + 1
        y = kick(x, y, v1[u], v2[u], phi0[u], phi12[u], h, acc[u])
        if u % dturns == 0:
            X[u // dturns], Y[u // dturns] = x, y
    x, y = np.array(dphi0, float), np.array(dE0, float)
    for t in range(rec * dturns + delta, 0, -1):
        y = unkick(x, y, v1[t], v2[t], phi0[t], phi12[t], h, acc[t])
        x = x + drift[t - 1] * y
        if (t - 1) % dturns == 0:
            X[(t - 1) // dturns], Y[(t - 1) // dturns] = x, y
    return X, Y


# -- reconstruction --------------------------------------------------------
class Zero(Exception):
    pass


class Ambiguous(Exception):
    """The outcome is decided by rounding: neither answer can be demanded."""


def _normalised(rec):
    return rec / rec.sum(axis=1, keepdims=True)


def counts(xp, nprof, nbins):
    c = np.zeros((nprof, nbins))
    for j in range(nprof):
        np.add.at(c[j], xp[:, j], 1)
    return c


def reconstruct(xp, profiles, niter, eps=1e-10):
    """xp: (npart, nprof) bins, profiles: (nprof, nbins) as handed over.
    Returns weights, discrepancies, recreated, history of weights."""
    xp = np.asarray(xp)
    profiles = np.asarray(profiles, float)
    npart, nprof = xp.shape
    nbins = profiles.shape[1]
    jj = np.arange(nprof)[None, :]
    c = counts(xp, nprof, nbins)
    r = c.max() / np.where(c == 0, 1, c)

    def project(w):
        rec = np.zeros((nprof, nbins))
        for j in range(nprof):
            np.add.at(rec[j], xp[:, j], w)
        return rec

    def clip(w, scale):
        # weights within rounding of zero: whether anything survives may be
        # decided by rounding
        out = np.where(w < 0, 0.0, w)
        if out.sum() <= 0 and w.max(initial=-1) > -eps * scale:
            raise Ambiguous
        if 0 < out.sum() <= eps * scale * max(1, npart):
            raise Ambiguous
        if out.sum() <= 0:
            raise Zero
        return out

    scale = max(1e-300, np.abs(profiles).max() * nprof)
    w = profiles[jj, xp].sum(axis=1)
    if np.all(profiles[jj, xp] == 0):
        raise Zero
    w = clip(w, scale)
    discr, hist = [], [w]
    for _ in range(niter):
        rec = _normalised(project(w))
        diff = profiles - rec
        discr.append(np.sqrt((diff ** 2).sum() / (nprof * nbins)))
        d = diff * r
        s = max(scale, np.abs(w).max(), (np.abs(d).max() * nprof))
        w = clip(w + d[jj, xp].sum(axis=1), s)
        hist.append(w)
    rec = _normalised(project(w))
    diff = profiles - rec
    discr.append(np.sqrt((diff ** 2).sum() / (nprof * nbins)))
    return w, np.array(discr), rec, hist


def reconstruct_multi(xp, profiles, left, right, centers, niter, eps=1e-10):
    xp = np.asarray(xp)
    profiles = np.asarray(profiles, float)
    npart, nprof = xp.shape
    nbins = profiles.shape[1]
    nc = len(centers)
    jj = np.arange(nprof)[None, None, :]
    pos = xp[None] + np.asarray(centers, int)[:, None, None]
    inside = (pos >= 0) & (pos < nbins)
    mask = (inside & (pos >= np.asarray(left)[:, None, None]) & (pos <= np.asarray(right)[:, None, None])).all(axis=2)
    c = np.zeros((nprof, nbins))
    np.add.at(c, (np.broadcast_to(jj, pos.shape)[inside], pos[inside]), 1)
    r = c.max() / np.where(c == 0, 1, c)
    safe = np.where(inside, pos, 0)

    def gather(prof):
        return np.where(mask, prof[jj, safe].sum(axis=2), 0.0)

    def project(w):
        rec = np.zeros((nprof, nbins))
        ww = np.broadcast_to(np.where(mask, w, 0.0)[:, :, None], pos.shape)
        np.add.at(rec, (np.broadcast_to(jj, pos.shape), safe), ww)
        return rec

    def clip(w, scale):
        out = np.where(w < 0, 0.0, w)
        if not mask.any():
            raise Zero
        if out.sum() <= 0 and w[mask].max(initial=-1) > -eps * scale:
            raise Ambiguous
        if 0 < out.sum() <= eps * scale * max(1, npart * nc):
            raise Ambiguous
        if out.sum() <= 0:
            raise Zero
        return out

    def split(diff):
        res = []
        for k in range(nc):
            s = 0.0
            for b in range(max(0, left[k]), min(nbins, right[k])):
                s += (diff[:, b] ** 2).sum()
            with np.errstate(all='ignore'):
                res.append(np.sqrt(np.float64(s) / (nprof * (right[k] - left[k]))))
        return res

    scale = max(1e-300, np.abs(profiles).max() * nprof)
    w = gather(profiles)
    if not mask.any() or not gather(np.abs(profiles)).any():
        raise Zero
    w = clip(w, scale)
    discr, dsplit, hist = [], [], [w]
    for _ in range(niter):
        rec = _normalised(project(w))
        diff = profiles - rec
        discr.append(np.sqrt((diff ** 2).sum() / (nprof * nbins)))
        dsplit.append(split(diff))
        d = diff * r
        s = max(scale, np.abs(w).max(), np.abs(d).max() * nprof)
        w = clip(w + gather(d), s)
        hist.append(w)
    rec = _normalised(project(w))
    diff = profiles - rec
    discr.append(np.sqrt((diff ** 2).sum() / (nprof * nbins)))
    dsplit.append(split(diff))
    return w, np.array(discr), np.array(dsplit).T, rec, hist


# -- helpers ---------------------------------------------------------------
def close(a, b, rtol, atol=None):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if atol is None:
        m = np.abs(b[np.isfinite(b)]).max(initial=0.0)
        atol = rtol * max(m, 1e-30)
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=False))
