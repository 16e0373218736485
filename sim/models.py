"""Small sequential reference models (numpy, double precision)."""
import numpy as np


class Degenerate(Exception):
    """the model's analogue of 'reduced to zeroes'"""


# rounding differences between two correct computations grow with every iteration
LONG = 20


class IllPosed(Exception):
    """so close to 'reduced to zeroes' that rounding decides the outcome"""


def settle(w, step, eps, degenerate=True):
    """new weights, or the verdict that nothing is left"""
    n = w + step
    scale = max(np.abs(w).max(), np.abs(step).max(), 1e-300)
    if np.abs(n.max()) <= eps * scale:
        if np.all(step == 0) and np.all(w == 0):
            raise Degenerate
        raise IllPosed
    n = n.clip(0.0)
    if degenerate and n.sum() <= 0:
        raise Degenerate
    return n


def counts(xp, nbins):
    npart, nprof = xp.shape
    c = np.zeros((nprof, nbins))
    for j in range(nprof):
        c[j] = np.bincount(xp[:, j], minlength=nbins)[:nbins]
    return c


def reciprocal(c):
    c = c.copy()
    mx = c.max() if c.size else 0
    c[c == 0] = 1
    return mx / c


def project(xp, w, nbins):
    npart, nprof = xp.shape
    r = np.zeros((nprof, nbins))
    for j in range(nprof):
        r[j] = np.bincount(xp[:, j], weights=w, minlength=nbins)[:nbins]
    return r


def back_project(xp, wf):
    return wf[np.arange(xp.shape[1])[None, :], xp].sum(axis=1)


def discrepancy(diff):
    return np.sqrt((diff ** 2).sum() / diff.size)


def normalise(wf):
    """what the reconstruction object makes of measured profiles"""
    wf = np.asarray(wf, dtype=np.float64).clip(0.0)
    return wf / wf.sum(axis=1)[:, None]


def reconstruct(xp, wf, niter, accumulate=True, eps=1e-4):
    """The sequential algorithm: weights, discrepancies, recreated.

    accumulate: the native code adds each projection to the previous,
    normalised one; the hybrid code starts from zero."""
    if niter > LONG:
        raise IllPosed
    wf = np.asarray(wf, dtype=np.float64)
    nbins = wf.shape[1]
    rp = reciprocal(counts(xp, nbins))
    w = back_project(xp, wf)
    w = settle(np.zeros_like(w), w, eps)
    rec = np.zeros_like(wf)
    d = np.zeros(niter + 1)
    for it in range(niter + 1):
        p = project(xp, w, nbins)
        rec = rec + p if accumulate else p
        rec = rec / rec.sum(axis=1)[:, None]
        diff = wf - rec
        d[it] = discrepancy(diff)
        if it == niter:
            break
        w = settle(w, back_project(xp, diff * rp), eps)
    return w, d, rec


def counts_multi(xp, centers, nbins):
    c = np.zeros((xp.shape[1], nbins))
    for ce in centers:
        c += counts(xp + ce, nbins)
    return c


def reconstruct_multi(xp, wf, cutleft, cutright, centers, niter, hybrid=False, eps=1e-4):
    """weights (nb, npart), discr, discr_split (nb, niter+1), recreated"""
    if niter > LONG:
        raise IllPosed
    wf = np.asarray(wf, dtype=np.float64)
    nprof, nbins = wf.shape
    nb = len(centers)
    mask = np.ones((nb, xp.shape[0]), dtype=bool)
    for b in range(nb):
        bins = xp + centers[b]
        if hybrid:
            mask[b] = np.all((bins > cutleft[b]) & (bins < cutright[b]), axis=1)
        else:
            mask[b] = np.all((bins >= cutleft[b]) & (bins <= cutright[b]), axis=1)
    rp = reciprocal(counts_multi(xp, centers, nbins))
    w = np.array([np.where(mask[b], back_project(xp + centers[b], wf), 0.0) for b in range(nb)])
    w = settle(np.zeros_like(w), w, eps, not hybrid)
    rec = np.zeros_like(wf)
    d = np.zeros(niter + 1)
    ds = np.zeros((nb, niter + 1))
    for it in range(niter + 1):
        p = sum(project(xp + centers[b], w[b], nbins) for b in range(nb))
        rec = p if hybrid else rec + p
        if hybrid and not rec.any():
            raise Degenerate
        rec = rec / rec.sum(axis=1)[:, None]
        diff = wf - rec
        d[it] = discrepancy(diff)
        for b in range(nb):
            lo, hi = max(cutleft[b], 0), min(cutright[b], nbins)
            ds[b, it] = np.sqrt((diff[:, lo:hi] ** 2).sum() / (nprof * (cutright[b] - cutleft[b])))
        if it == niter:
            break
        diff = diff * rp
        step = np.array([np.where(mask[b], back_project(xp + centers[b], diff), 0.0) for b in range(nb)])
        w = settle(w, step, eps, not hybrid)
    return w, d, ds, rec


def kick(dphi, de, v1, v2, phi0, phi12, hr, acc):
    return v1 * np.sin(dphi + phi0) + v2 * np.sin(hr * (dphi + phi0 - phi12)) - acc


def track(dphi, de, rf1, rf2, phi0, dE0, drift, phi12, hr, dturns, rec_prof, nturns, deltaturn=0):
    """(dphi, denergy) at every profile, and the number of turns applied"""
    f8 = lambda a: np.asarray(a, dtype=np.float64)
    rf1, rf2, phi0, dE0, drift = map(f8, (rf1, rf2, phi0, dE0, drift))
    phi12 = np.broadcast_to(f8(phi12), phi0.shape) if np.ndim(phi12) == 0 else f8(phi12)
    nprof = nturns // dturns + 1
    X = np.full((nprof, len(dphi)), np.nan)
    Y = X.copy()
    p, e = f8(dphi).copy(), f8(de).copy()
    turn = rec_prof * dturns + deltaturn
    prof = rec_prof - (1 if deltaturn < 0 else 0)
    X[prof], Y[prof] = p, e
    n = 0
    while turn < nturns:
        p = p - drift[turn] * e
        turn += 1
        e = e + kick(p, e, rf1[turn], rf2[turn], phi0[turn], phi12[turn], hr, dE0[turn])
        n += 1
        if turn % dturns == 0:
            prof += 1
            X[prof], Y[prof] = p, e
    prof, turn = rec_prof, rec_prof * dturns
    p, e = X[rec_prof].copy(), Y[rec_prof].copy()
    while turn > 0:
        e = e - kick(p, e, rf1[turn], rf2[turn], phi0[turn], phi12[turn], hr, dE0[turn])
        turn -= 1
        p = p + drift[turn] * e
        n += 1
        if turn % dturns == 0:
            prof -= 1
            X[prof], Y[prof] = p, e
    return X, Y, n


def phase_space(xp, yp, w, nbins):
    img = np.zeros(nbins * nbins)
    idx = yp.astype(np.int64) + xp.astype(np.int64) * nbins
    if len(idx) and (idx.min() < 0 or idx.max() >= nbins * nbins):
        raise IndexError
    np.add.at(img, idx, np.asarray(w, dtype=np.float64))
    return img.reshape(nbins, nbins)


def err(a, b, floor=1e-300):
    """largest deviation relative to the scale of the reference"""
    a = np.asarray(a, dtype=np.float64)
    b = np.asarray(b, dtype=np.float64)
    if a.shape != b.shape:
        return float('inf')
    if a.size == 0:
        return 0.0
    if not np.all(np.isfinite(a)):
        return float('inf') if np.all(np.isfinite(b)) else (0.0 if np.array_equal(a, b, equal_nan=True) else float('inf'))
    s = max(np.abs(b).max(), floor)
    return float(np.abs(a - b).max() / s)


def track_self(dphi, de, m, vself, phiwrap, xorigin, dEbin, rec):
    """tracking with self-fields, in bins"""
    f8 = lambda a: np.asarray(a, dtype=np.float64)
    nturns = m.dturns * (m.nprofiles - 1)
    X = np.full((m.nprofiles, len(dphi)), np.nan)
    Y = X.copy()
    rf1, rf2 = f8(m.vrf1_at_turn) * m.q, f8(m.vrf2_at_turn) * m.q

    def xbin(p, t):
        w = m.h_num * m.omega_rev0[t] * m.dtbin
        a = p + m.phi0[t] - xorigin * w
        return (a - phiwrap * np.floor(a / phiwrap)) / w

    def kick_at(p, t):
        return kick(p, None, rf1[t], rf2[t], m.phi0[t], m.phi12, m.h_ratio, m.deltaE0[t])

    p, e = f8(dphi).copy(), f8(de).copy()
    turn, prof = rec * m.dturns, rec
    X[rec], Y[rec] = xbin(p, turn), e / dEbin + m.synch_part_y
    edge = [X[rec]]
    while turn < nturns:
        p = p - m.drift_coef[turn] * e
        turn += 1
        x = xbin(p, turn)
        edge.append(x)
        e = e + kick_at(p, turn) + vself[prof, x.astype(int) - 1] * m.q
        if turn % m.dturns == 0:
            prof += 1
            X[prof], Y[prof] = x, e / dEbin + m.synch_part_y
    p, e = f8(dphi).copy(), f8(de).copy()
    turn, prof, x = rec * m.dturns, rec - 1, X[rec]
    while turn > 0:
        e = e - kick_at(p, turn) + vself[prof, x.astype(int)] * m.q
        turn -= 1
        p = p + m.drift_coef[turn] * e
        x = xbin(p, turn)
        edge.append(x)
        if turn % m.dturns == 0:
            X[prof], Y[prof] = x, e / dEbin + m.synch_part_y
            prof -= 1
    edge = np.concatenate(edge)
    # whole bins, and the wrap around, are discontinuities
    if np.abs(edge - np.rint(edge)).min() < 1e-5:
        raise IllPosed
    return X, Y
