"""Reference models: plain, sequential restatements of what is documented."""
import numpy as np
from vt.mon import Skip

C = 299792458.0
E = 1.602176634e-19


# ---------------------------------------------------------------- tracking
def track(dphi, denergy, rf1, rf2, phi0, deltaE0, drift, phi12, h_ratio,
          dturns, rec_prof, nturns):
    """rf1, rf2 already include the charge.  phi12: scalar or per turn."""
    nprof = nturns // dturns + 1
    n = len(dphi)
    xs, ys = np.zeros((nprof, n)), np.zeros((nprof, n))
    p12 = np.broadcast_to(np.asarray(phi12, float), (nturns + 1,)) if np.ndim(phi12) == 0 else np.asarray(phi12)
    x, y = np.array(dphi, float), np.array(denergy, float)
    xs[rec_prof], ys[rec_prof] = x, y
    turn = rec_prof * dturns
    while turn < nturns:
        x = x - drift[turn] * y
        turn += 1
        y = y + rf1[turn] * np.sin(x + phi0[turn]) \
            + rf2[turn] * np.sin(h_ratio * (x + phi0[turn] - p12[turn])) - deltaE0[turn]
        if turn % dturns == 0:
            xs[turn // dturns], ys[turn // dturns] = x, y
    x, y = np.array(dphi, float), np.array(denergy, float)
    turn = rec_prof * dturns
    while turn > 0:
        y = y - (rf1[turn] * np.sin(x + phi0[turn])
                 + rf2[turn] * np.sin(h_ratio * (x + phi0[turn] - p12[turn])) - deltaE0[turn])
        turn -= 1
        x = x + drift[turn] * y
        if turn % dturns == 0:
            xs[turn // dturns], ys[turn // dturns] = x, y
    return xs, ys


# ---------------------------------------------------------- reconstruction
class Vanished(Exception):
    """No weight is left: documented as an error of the reconstruction."""


def clip_weights(raw):
    top = np.max(raw, initial=-1.0)
    if top < -1e-6:
        raise Vanished()
    if top < 1e-6:
        raise Skip('the weights nearly vanish')
    return np.clip(raw, 0, None)


def both(mon, ref, real):
    """Results of the model and of the code, or None if both report that the
    phase space vanished."""
    try:
        want = ref()
    except Vanished:
        mon.raises(RuntimeError, real, 'the phase space vanishes')
        mon.ev('vanished')
        return None
    return want, real()


def project(xp, w, nprof, nbins):
    rec = np.zeros((nprof, nbins))
    for p in range(nprof):
        rec[p] = np.bincount(xp[:, p], weights=w, minlength=nbins)
    return rec


def normalise(rec):
    return rec / rec.sum(axis=1, keepdims=True)


def counts(xp, nprof, nbins):
    return np.array([np.bincount(xp[:, p], minlength=nbins) for p in range(nprof)], float)


def back(xp, wf):
    return wf[np.arange(wf.shape[0])[None, :], xp].sum(axis=1)


def reconstruct(xp, waterfall, niter, jitter=None):
    """waterfall is clipped and normalised here.  Returns weight, discrepancy
    history, recreated waterfall.  jitter: relative perturbation of the weights
    after each step, to measure how rounding is amplified."""
    wf = normalise(np.clip(np.asarray(waterfall, float), 0, None))
    nprof, nbins = wf.shape
    cnt = counts(xp, nprof, nbins)
    cnt[cnt == 0] = 1
    rp = cnt.max() / cnt
    w = clip_weights(back(xp, wf))
    hist = np.zeros(niter + 1)
    for it in range(niter):
        rec = normalise(project(xp, w, nprof, nbins))
        d = wf - rec
        hist[it] = np.sqrt(np.mean(d * d))
        w = clip_weights(w + back(xp, d * rp))
        if jitter is not None:
            w = w * (1 + jitter * np.cos(np.arange(len(w)) * 1.7 + it))
    rec = normalise(project(xp, w, nprof, nbins))
    hist[niter] = np.sqrt(np.mean((wf - rec) ** 2))
    return w, hist, rec


def conditioned(xp, waterfall, niter, eps=1e-12, factor=50.0, floor=1e-10):
    """The model's result and the tolerances its own conditioning asks for:
    (weights, history, recreated), (tolerances)."""
    a = reconstruct(xp, waterfall, niter)
    b = reconstruct(xp, waterfall, niter, jitter=eps)
    tol = [floor * max(np.max(np.abs(u)), 1e-300) + factor * np.max(np.abs(u - v), initial=0.0) for u, v in zip(a, b)]
    tol[1] += 1e-13      # both are fractions of a normalised profile
    tol[2] += 1e-13
    if tol[0] > 1e-4 * a[0].max():
        raise Skip('the iteration amplifies rounding')
    return a, tol


def reconstruct_multi(xp, waterfall, centers, cl, cr, niter, jitter=None):
    """Every bunch uses the particles whose shifted positions stay strictly
    inside its cuts in every profile."""
    wf = normalise(np.clip(np.asarray(waterfall, float), 0, None))
    nprof, nbins = wf.shape
    nb = len(centers)
    mask = [np.all((xp + c > a) & (xp + c < b), axis=1) for c, a, b in zip(centers, cl, cr)]
    cnt = np.zeros((nprof, nbins))
    for c in centers:
        for p in range(nprof):
            s = xp[:, p] + c
            s = s[(s >= 0) & (s < nbins)]
            cnt[p] += np.bincount(s, minlength=nbins)
    cnt[cnt == 0] = 1
    rp = cnt.max() / cnt
    w = np.zeros((nb, len(xp)))

    def update(d):
        raw = np.full(w.shape, -1.0)
        for b in range(nb):
            raw[b, mask[b]] = w[b, mask[b]] + back(xp[mask[b]] + centers[b], d)
        clip_weights(raw)
        w[:] = np.where(np.array(mask), np.clip(raw, 0, None), 0.0)
    update(wf)
    hist, split = np.zeros(niter + 1), np.zeros((nb, niter + 1))

    def proj():
        rec = np.zeros((nprof, nbins))
        for b in range(nb):
            rec += project(xp[mask[b]] + centers[b], w[b, mask[b]], nprof, nbins)
        return normalise(rec)

    def note(it, d):
        hist[it] = np.sqrt(np.mean(d * d))
        for b in range(nb):
            split[b, it] = np.sqrt(np.mean(d[:, cl[b]:cr[b]] ** 2))
    for it in range(niter):
        d = wf - proj()
        note(it, d)
        update(d * rp)
        if jitter is not None:
            w *= 1 + jitter * np.cos(np.arange(w.size).reshape(w.shape) * 1.7 + it)
    rec = proj()
    note(niter, wf - rec)
    return w, hist, split, rec


def conditioned_multi(xp, waterfall, centers, cl, cr, niter, eps=1e-12, factor=50.0, floor=1e-10):
    a = reconstruct_multi(xp, waterfall, centers, cl, cr, niter)
    b = reconstruct_multi(xp, waterfall, centers, cl, cr, niter, jitter=eps)
    tol = [1e-13 * (k > 0) + floor * max(np.max(np.abs(u)), 1e-300) + factor * np.max(np.abs(u - v), initial=0.0)
           for k, (u, v) in enumerate(zip(a, b))]
    if tol[0] > 1e-4 * a[0].max():
        raise Skip('the iteration amplifies rounding')
    return a, tol


# ------------------------------------------------------------- phase space
def phase_space(xp, yp, w, nbins):
    out = np.zeros((nbins, nbins))
    np.add.at(out, (np.asarray(xp), np.asarray(yp)), w)
    return out


# --------------------------------------------------------------- raw data
def rebin(data, r):
    n = data.shape[1]
    full = n // r
    out = [data[:, k * r:(k + 1) * r].sum(axis=1) for k in range(full)]
    if n % r:
        i0 = (full - 1) * r
        out.append(data[:, i0:].sum(axis=1) * r / (n - i0))
    return np.array(out).T


# ------------------------------------------------- reconstruction area
def phase_space_limits(m):
    """Documented reconstruction area of a machine with its turn-by-turn
    values.  Returns dEbin, xorigin, and per bin the allowed range of jmin and
    jmax (both ends equal unless rounding decides)."""
    sy = m.nbins / 2.0
    ref = m.beam_ref_frame * m.dturns
    rad = m.h_num * m.omega_rev0 * m.dtbin            # radians per bin, by turn
    xorigin = m.phi0[ref] / rad[ref] - m.synch_part_x

    def p12(turn):
        return m.phi12[turn] if np.ndim(m.phi12) else m.phi12

    def height2(phi, known, turn):
        v1, v2, hr, p = m.vrf1_at_turn[turn], m.vrf2_at_turn[turn], m.h_ratio, p12(turn)
        f0 = m.phi0[turn]
        vs = v1 * np.sin(f0) + v2 * np.sin(hr * (f0 - p))
        u = v1 * (np.cos(phi) - np.cos(known)) + v2 / hr * (
            np.cos(hr * (phi - p)) - np.cos(hr * (known - p))) + (phi - known) * vs
        return 2.0 * m.q / m.drift_coef[turn] * u

    def height(phi, known, turn):
        return np.sqrt(np.clip(height2(phi, known, turn), 0, None))

    def edges(turn):
        return (xorigin + np.arange(m.nbins + 1)) * rad[turn]

    if m.demax > 0:
        dE = m.demax / (m.nbins - sy)
    elif m.vrf2_at_turn[ref] != 0:
        e = edges(ref)
        dE = min(height(e, e[0], ref).max(), height(e, e[-1], ref).max()) / (m.nbins - sy)
    else:
        arg = m.e0[ref] * m.q * m.vrf1_at_turn[ref] * np.cos(m.phi0[ref]) / (2 * np.pi * m.h_num * m.eta0[ref])
        dE = m.beta0[ref] * np.sqrt(arg) * rad[ref] if arg > 0 else np.nan
    out = dict(dEbin=dE, xorigin=xorigin)
    if not dE > 0:
        return out
    turn = m.filmstart * m.dturns
    e = edges(turn)
    if m.full_pp_flag:
        lo = hi = np.full(m.nbins, float(m.nbins))
    else:
        lo_hi = []
        for eps in (-1, 1):
            best = np.full(m.nbins, float(m.nbins))
            for known in (e[0], e[-1]):
                # rounding of the difference of two cosines
                h2 = height2(e, known, turn) + eps * 1e-12 * abs(2 * m.q / m.drift_coef[turn]) * (
                    abs(m.vrf1_at_turn[turn]) + abs(m.vrf2_at_turn[turn])) * (1 + np.abs(e))
                v = np.sqrt(np.clip(h2, 0, None)) / dE
                j = np.floor(sy + v + np.where(v > 1e-3, eps * 1e-10 * (sy + v), 0))
                best = np.minimum(best, np.minimum(j[:-1], j[1:]))
            lo_hi.append(best)
        lo, hi = lo_hi
    out.update(jmax_lo=lo, jmax_hi=hi)
    return out
