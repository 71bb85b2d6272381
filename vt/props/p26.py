"""P26: bunch length, matched area and density tools measure what they say."""
import numpy as np
from vt import gen
from vt.mon import Skip

RULE = """Profiles with straight or curved edges, shifted, scaled, mirrored and
on many axes, go through the three foot-tangent fits: straight edges must be
found exactly, other edges as the zero of the least-squares line through the documented
points, and profiles that are too long must be refused.  For stationary buckets above
transition the matched area is compared with numerical integration of the
separatrix and its growth with the bunch length; density against emittance, clipping of
weights, fractional emittance and rms parameters are compared with their
definitions (areas by integration, densities by interpolation on the
contour, weights by counting) on random images and particle maps.  Distinct
cases differ in tool, shape, machine or parameters."""
ASSUMPTIONS = ['one rf system with constant voltage, stationary bucket above transition, positive charge, for the area tools',
               'the image is higher than the bucket and has an even number of energy bins',
               'no particle exactly on the border of two time slices',
               'rms parameters: square images of unit sum, as the reconstruction gives']

QUICK = 3
KINDS = {
    'foot': ('plain', 400, 8000),
    'footdq': ('plain', 400, 8000),
    'area': ('plain', 120, 2000),
    'emittance': ('plain', 300, 6000),
    'rms': ('plain', 300, 6000),
    'density': ('plain', 60, 800),
    'clip': ('plain', 100, 1500),
}


def profile(rng, n, straight):
    """A positive pulse; with straight=True both flanks are straight lines."""
    L = rng.uniform(6, n * 0.3)
    R = rng.uniform(n * 0.7, n - 7)
    x = np.arange(n)
    if straight:
        w1, w2 = rng.uniform(0.5, 0.85) * (R - L) * np.array([1, 1]) * rng.uniform(0.35, 0.65) + 0
        top = min(w1, w2)
        a, b = 1.0 / w1, 1.0 / w2
        y = np.minimum(a * (x - L), b * (R - x))
        y = np.minimum(y, rng.uniform(0.75, 1.0))
        return np.maximum(y, 0), L, R
    c, s = (L + R) / 2, (R - L) / 2
    u = np.clip(1 - ((x - c) / s) ** 2, 0, None)
    y = u ** rng.uniform(0.6, 3)
    y = y * (1 + 0.15 * np.sin(x * rng.uniform(0.1, 0.4)))
    return y, L, R


def zero(x, y):
    """Zero of the least-squares line."""
    x, y = np.asarray(x, float), np.asarray(y, float)
    xm, ym = x.mean(), y.mean()
    d = ((x - xm) ** 2).sum()
    k = ((x - xm) * (y - ym)).sum() / d
    return xm - ym / k


def run_foot(case, rng, mon):
    from longitudinal_tomography.utils import tomographics as tg
    n = int(rng.integers(60, 220))
    if rng.random() < 0.06:
        n = int(rng.integers(500, 1500))
    straight = bool(case['i'] % 2)
    y, L, R = profile(rng, n, straight)
    if case['i'] % 4 >= 2:
        # a baseline a little below zero
        y = np.where(y > 0, y, rng.uniform(-0.04, 0) * rng.random(n))
    y0 = y.copy()
    y = gen.lay(rng, y)
    thr = 0.15 * y.max()
    if np.min(np.abs(y - thr)) < 1e-9:
        raise Skip('sample on the threshold')
    im = int(np.argmax(y))
    l = np.where(y[:im] < thr)[0][-1]
    r = im + np.where(y[im:] < thr)[0][0]
    wl, wr = y[l - 1:l + 3], y[r - 2:r + 2]
    if wl.min() <= 0 and straight or wr.min() <= 0 and straight:
        straight = False           # a kink inside of the fitted points
    fl, fr = tg.foot_tangent_fit(y)
    sc = n
    mon.close(fl, zero(np.arange(l - 1, l + 3), wl), 'left foot', atol=1e-9 * sc)
    mon.close(fr, zero(np.arange(r - 2, r + 2), wr), 'right foot', atol=1e-9 * sc)
    if straight:
        mon.close([fl, fr], [L, R], 'feet of straight flanks', atol=1e-8 * sc)
        mon.ev('straight_edges')
    dx = float(gen.pick(rng, [1e-9, 0.25, 3.0]))
    mon.close(tg.foot_tangent_fit(y, dx), [fl * dx, fr * dx], 'feet on another axis', rtol=1e-12)
    k = float(gen.pick(rng, [1e-12, 0.5, 1e9]))
    mon.close(tg.foot_tangent_fit(y * k), [fl, fr], 'feet of a taller profile', rtol=1e-9)
    ml, mr = tg.foot_tangent_fit(y[::-1].copy())
    if (y == y.max()).sum() == 1:
        mon.close([ml, mr], [n - 1 - fr, n - 1 - fl], 'feet of the mirrored profile', atol=1e-8 * sc)
    p = int(rng.integers(1, 30))
    mon.close(tg.foot_tangent_fit(np.concatenate([np.zeros(p), y])), [fl + p, fr + p], 'feet of a shifted profile', atol=1e-8 * sc)
    # density curve: falling, on its own axis
    level = float(rng.uniform(0.05, 0.6))
    xax = np.cumsum(rng.uniform(0.5, 1.5, n)) * 1e-3
    yd = y + float(rng.uniform(-1, 1))
    z = yd - yd.min()
    t2 = level * z.max()
    im = int(np.argmax(z))
    bl = np.where(z[im + 1:] < t2)[0]
    if np.min(np.abs(z - t2)) > 1e-9 and bl.size and im + 1 + bl[0] + 2 <= n:
        r2 = im + 1 + bl[0]
        want = np.interp(zero(np.arange(r2 - 2, r2 + 2), z[r2 - 2:r2 + 2]), np.arange(n), xax)
        mon.close(tg.foot_tangent_fit_density(yd, xax, level), want, 'foot of a density curve', rtol=1e-7)
    for bad in (0, 1, -0.1, 1.5):
        mon.raises(ValueError, lambda: tg.foot_tangent_fit_density(yd, xax, bad), 'level')
    mon.equal(y, y0, 'profile after the fits')
    mon.state('foot', n, straight, l, r)


def run_footdq(case, rng, mon):
    from longitudinal_tomography.utils import tomographics as tg
    from longitudinal_tomography.exceptions import InvalidProfileError
    n = int(rng.integers(60, 220))
    if rng.random() < 0.06:
        n = int(rng.integers(500, 1500))
    straight = bool(case['i'] % 2)
    y, L, R = profile(rng, n, straight)
    x0, dx = float(rng.uniform(-1e-6, 1e-6)), float(gen.pick(rng, [1e-9, 2e-9, 0.5e-9]))
    if rng.random() < 0.3:
        x0, dx = 0.0, 1.0
    x = x0 + dx * np.arange(n)
    thr = 0.15 * y.max()
    if np.min(np.abs(y - thr)) < 1e-9:
        raise Skip('sample on the threshold')
    ab = np.where(y >= thr)[0]
    l, r = ab[0], ab[-1]
    y0, xx = y.copy(), x.copy()
    x, y = gen.lay(rng, x), gen.lay(rng, y)
    filt = bool(rng.integers(2))
    f = lambda yy=y, xa=x, t=1.0: tg.foot_tangent_fit_dq(xa, yy, t * dx * n, apply_filter=filt)
    got = f()
    tol = 1e-6 * n * dx
    mon.close(got, [zero(x[l - 3:l + 3], y[l - 3:l + 3]), zero(x[r - 2:r + 4], y[r - 2:r + 4])], 'feet', atol=tol)
    if straight and y[l - 3] > 0 and y[r + 3] > 0:
        mon.close(got, [x0 + L * dx, x0 + R * dx], 'feet of straight flanks', atol=tol)
        mon.ev('straight_edges')
    mon.close(f(y * 1e5), got, 'feet of a taller profile', atol=tol)
    length = got[1] - got[0]
    mon.raises(InvalidProfileError, lambda: f(t=length / (dx * n) * (1 - 1e-9) * rng.uniform(0.3, 1)), 'longer than the period')
    f(t=length / (dx * n) * (1 + 1e-6))
    # cut off close to the flank
    k = int(rng.integers(0, 3))
    mon.raises(InvalidProfileError, lambda: f(y[l - k:], x[l - k:]), 'no room on the left')
    mon.raises(InvalidProfileError, lambda: f(y[:r + 1 + k], x[:r + 1 + k]), 'no room on the right')
    a = f(y[l - 3:], x[l - 3:])
    b = f(y[:r + 4], x[:r + 4])
    mon.close([a, b], [got, got], 'feet with just enough room', atol=tol)
    mon.equal(y, y0, 'profile after the fit')
    mon.equal(x, xx, 'axis after the fit')
    mon.state('footdq', n, straight, l, r, filt)


def machine(rng, i, **kw):
    k, info = gen.machine_kwargs(rng, ring=[2, 3][i % 2], dual=False, accel=False, vdot=False, max_turns=120, **kw)
    return gen.make_machine(k), info


def constants(m, frame):
    t = frame * m.dturns
    g = m.e0[t] / m.e_rest
    hw = m.h_num * m.omega_rev0[t]
    return hw, m.q * (g - 1 / g) * m.e_rest / (np.pi * m.h_num * abs(m.eta0[t])) * m.vrf1, m.phi0[t]


def true_area(a, hw, K):
    """Area inside the trajectory with half length a [rad]."""
    from scipy.integrate import quad
    # substitution removes the square root at the end
    f = lambda u: np.sqrt(max(0.0, np.cos(a * (1 - u * u)) - np.cos(a))) * 2 * a * u
    return 2 / hw * np.sqrt(K) * 2 * quad(f, 0, 1, limit=200)[0]


def run_area(case, rng, mon):
    from longitudinal_tomography.utils import tomographics as tg
    m, info = machine(rng, case['i'], **({'nbins': int(rng.integers(501, 1200))} if rng.random() < 0.1 else {}))
    frame = int(rng.integers(m.nprofiles))
    m.machine_ref_frame = frame if rng.random() < 0.5 else m.machine_ref_frame
    hw, K, p0 = constants(m, frame)
    prev = 0
    for fr in sorted(rng.uniform(0.02, 0.99, 6)):
        a = fr * np.pi
        tau = 2 * a / hw
        got = tg.matched_area_calc(m, tau, frame)
        mon.close(got, true_area(a, hw, K), f'matched area, {fr:.3f} of the period', rtol=2e-4)
        mon.check(got > prev, 'area grows with the length')
        prev = got
        mon.state('area', info['ring'], round(fr, 3), frame)
    mon.close(tg.matched_area_calc(m, tau), tg.matched_area_calc(m, tau, m.machine_ref_frame), 'default profile', rtol=1e-9)
    mon.check(prev <= 16 / hw * np.sqrt(K) / np.sqrt(2) * (1 + 1e-3), 'no more than the bucket')


def run_emittance(case, rng, mon):
    from longitudinal_tomography.utils import tomographics as tg
    from vt.props.p20 import image
    kind, h, t, e = image(rng)
    h = gen.lay(rng, h / h.sum())
    h0 = h.copy()
    dt, dE = t[1] - t[0], e[1] - e[0]
    c = np.append(0, np.cumsum(np.sort(h.ravel())[::-1].astype(np.longdouble)))
    prev = 0
    for f in sorted(list(rng.uniform(0.001, 0.98, 5)) + [0.9, 0.5, 0.39]):
        got = tg.emittance_density_calc(h, dt, dE, f)
        k = int(np.searchsorted(c, f))           # c[k-1] < f <= c[k]
        want = float(k - 1 + (f - c[k - 1]) / (c[k] - c[k - 1])) * dt * dE
        mon.close(got, want, f'area of {f:.4f} of the beam', rtol=1e-9, atol=1e-7 * dt * dE)
        mon.check(got >= prev, 'grows with the fraction')
        prev = got
        mon.state('emittance', kind, h.shape, round(f, 3))
    d = tg.emittance_density_calc(h, dt, dE)
    mon.close(d, tg.emittance_density_calc(h, dt, dE, 0.9), 'default fraction', rtol=1e-12)
    mon.close(tg.emittance_density_calc(h.ravel()[rng.permutation(h.size)].reshape(h.shape), dt, dE), d, 'order of the cells', rtol=1e-9, atol=1e-7 * dt * dE)
    mon.close(tg.emittance_density_calc(h, 2 * dt, 3 * dE), 6 * d, 'units', rtol=1e-12)
    for bad in (0, 1, -0.5, 1.2):
        mon.raises(ValueError, lambda: tg.emittance_density_calc(h, dt, dE, bad), 'fraction')
    mon.equal(h, h0, 'image after the call')


def run_rms(case, rng, mon):
    from longitudinal_tomography.utils import tomographics as tg
    from vt.props.p20 import image
    n = int(gen.pick(rng, [2, 3, 5, 8, 20, 33, 64]))
    kind, h, t, e = image(rng, n, n)
    h = gen.lay(rng, h / h.sum())
    h0 = h.copy()
    dt, dE = float(t[1] - t[0]), float(e[1] - e[0])
    q = h.astype(np.longdouble)
    i, j = np.arange(n)[:, None], np.arange(n)[None, :]
    mt, me = (q * i).sum(), (q * j).sum()
    vt, ve, c = (q * (i - mt) ** 2).sum(), (q * (j - me) ** 2).sum(), (q * (i - mt) * (j - me)).sum()
    got = tg.rms_params(h, dt, dE)
    mon.check(len(got) == 5, 'five numbers')
    tol = 1e-13 * n * n
    mon.close(got[1], float(mt) * dt, 'mean time', atol=1e-12 * n * dt)
    mon.close(got[3], float(me - n / 2) * dE, 'mean energy', atol=1e-12 * n * dE)
    for g, v, d, name in ((got[2], vt, dt, 'rms time'), (got[4], ve, dE, 'rms energy')):
        if v > 1e-3:
            mon.close(g, float(np.sqrt(v)) * d, name, rtol=1e-7)
        else:
            # cancellation: a spread of zero may come out as rounding or not a number
            mon.check(np.isnan(g) or abs((g / d) ** 2 - float(v)) <= tol, name, got=g)
    det = vt * ve - c * c
    if det > 1e-6 * n ** 4:
        mon.close(got[0], float(np.pi * np.sqrt(det)) * dt * dE, 'rms emittance', rtol=1e-6)
        mon.ev('with_emittance')
    mon.equal(h, h0, 'image after the call')
    mon.state('rms', kind, n, round(float(mt), 2))


def contours(m, frame, times, npts):
    """Half height of each contour at each time (rows: levels)."""
    hw, K, p0 = constants(m, frame)
    grid = p0 + np.linspace(-np.pi, np.pi, 1000)
    U = lambda x: (np.cos(p0) - np.cos(x)) + (p0 - x) * np.sin(p0)
    u = U(grid)
    ph = (times - m.synch_part_x * (times[1] - times[0])) * hw + p0
    left = grid < p0
    out = []
    for lev in np.linspace(0, u.min(), npts):
        pl = np.interp(0, u[left] - lev, grid[left])
        out.append(np.sqrt(np.clip(K * (U(ph) - U(pl)), 0, None)))
    return np.array(out), hw, K, ph


def axes(rng, i, npts_t=None):
    nb = int(gen.pick(rng, [24, 40, 64]))
    m, info = machine(rng, i, nbins=nb, cover=(0.6, 0.98))
    frame = int(rng.integers(m.nprofiles))
    hw, K, p0 = constants(m, frame)
    times = np.arange(nb) * m.dtbin
    top = np.sqrt(2 * K) * rng.uniform(1.1, 1.6)
    dE = top / (nb / 2 - 2)
    return m, info, frame, times, (np.arange(nb) - nb // 2) * dE, dE


def run_density(case, rng, mon):
    from longitudinal_tomography.utils import tomographics as tg
    m, info, frame, times, ens, dE = axes(rng, case['i'])
    nb = m.nbins
    npts = int(gen.pick(rng, [5, 11, 30]))
    # keep the sampling points away from the ends of the contours
    H, hw, K, ph = contours(m, frame, times, npts)
    pos = H[H > 0]
    if pos.size and pos.min() < 1e-4 * np.sqrt(K):
        raise Skip('a contour ends on a sampling point')
    kind = gen.pick(rng, ['flat', 'hamiltonian', 'random'])
    h2 = np.abs(np.cos(ph) + 1)[:, None] * K * 0 + (1 + np.cos(ph))[:, None] * K + ens[None, :] ** 2
    if kind == 'flat':
        img = np.full((nb, nb), float(rng.uniform(0.1, 5)))
    elif kind == 'hamiltonian':
        img = np.clip(1 - h2 / (2 * K), 0, None) + 0.01
    else:
        img = rng.random((nb, nb))
    img0 = img.copy()
    img = gen.lay(rng, img)
    args = dict(n_points_amplitude=npts, idx_frame=frame)
    if rng.random() < 0.3:
        m.machine_ref_frame = frame
        args.pop('idx_frame')
    em, lo, lmin, lmax, su = tg.density_vs_emittance(m, img, times, ens, **args)
    wem, wlo, wmin, wmax, wsu = (np.zeros(npts) for _ in range(5))
    for k in range(npts):
        rows = np.where(H[k] > 0)[0]
        if not rows.size:
            continue
        tops, bots, tot = [], [], 0.0
        for i in rows:
            g = H[k, i]
            t, b = np.interp(g, ens, img[i]), np.interp(-g, ens, img[i])
            tops.append(t)
            bots.append(b)
            ins = (ens > -g) & (ens < g)
            xs = np.concatenate([[-g], ens[ins], [g]])
            ys = np.concatenate([[b], img[i][ins], [t]])
            tot += np.sum((ys[1:] + ys[:-1]) / 2 * np.diff(xs)) / dE
        wem[k] = 2 / hw * np.sum((H[k][1:] + H[k][:-1]) / 2) * (ph[1] - ph[0])
        wlo[k] = (np.mean(tops) + np.mean(bots)) / 2
        wmin[k], wmax[k] = min(tops + bots), max(tops + bots)
        wsu[k] = tot / img.sum()
    if wlo[0] == 0 and npts > 2 and wem[2] != wem[1]:
        s = (wlo[2] - wlo[1]) / (wem[2] - wem[1])
        wlo[0] = wmin[0] = wmax[0] = wlo[1] - s * wem[1]
    elif wlo[0] == 0:
        raise Skip('no particle near the centre')
    A = wem.max()
    mon.close(em, wem, 'areas', rtol=1e-6, atol=1e-6 * A)
    # rough physics: the area of the contour, whatever the sampling
    full = np.array([true_area(np.arccos(np.clip(1 - 2 * k / (npts - 1), -1, 1)), hw, K) for k in range(npts)])
    inside = np.abs(ph - np.pi).min() < 0.2 and ph[0] < np.pi - 2.0 and ph[-1] > np.pi + 2.0
    if inside:
        sel = full[:] > 0
        ok = np.arccos(np.clip(1 - 2 * np.arange(npts) / (npts - 1), -1, 1)) < min(np.pi - ph[0], ph[-1] - np.pi)
        sel &= ok
        mon.close(em[sel], full[sel], 'areas against the true contours', rtol=0.05, atol=0.03 * full.max())
    sc = img.max()
    mon.close(lo, wlo, 'density on the contours', rtol=1e-5, atol=1e-5 * sc)
    mon.close(lmin, wmin, 'lowest density on the contours', rtol=1e-5, atol=1e-5 * sc)
    mon.close(lmax, wmax, 'highest density on the contours', rtol=1e-5, atol=1e-5 * sc)
    mon.close(su, wsu, 'part of the beam inside the contours', rtol=1e-5, atol=1e-5)
    mon.check(np.all(np.diff(em) >= -1e-9 * A) and np.all(np.diff(su) >= -1e-9), 'growing')
    if kind == 'flat':
        mon.close(lo, np.full(npts, img[0, 0]), 'flat density', rtol=1e-6)
    b = tg.density_vs_emittance(m, img * 4, times, ens, **args)
    mon.close(b[1], 4 * lo, 'four times the density', rtol=1e-9, atol=1e-9 * sc)
    mon.close(b[4], su, 'same parts of four times the density', rtol=1e-9)
    mon.equal(img, img0, 'image after the call')
    mon.state('density', info['ring'], kind, nb, npts, frame)


def run_clip(case, rng, mon):
    from longitudinal_tomography.utils import tomographics as tg
    m, info, frame, times, ens, dE = axes(rng, case['i'])
    nb = m.nbins
    npts = int(gen.pick(rng, [20, 100]))
    npart = int(gen.pick(rng, [3, 20, 300, 1500]))
    x = rng.uniform(0, nb - 1, (npart, m.nprofiles))
    y = nb / 2 + rng.normal(0, nb / 6, (npart, m.nprofiles))
    if rng.random() < 0.5:
        x = np.floor(x) + 0.5
    w = rng.random(npart) + 0.01
    H, hw, K, ph = contours(m, frame, times, npts)
    areas = 2 / hw * np.sum((H[:, 1:] + H[:, :-1]) / 2, axis=1) * (ph[1] - ph[0])
    target = float(rng.uniform(0.02, 1.1)) * areas.max()
    k = int(np.argmax(areas >= target)) if (areas >= target).any() else npts - 1
    if np.min(np.abs(areas - target)) < 1e-6 * areas.max():
        raise Skip('target on a level')
    h = H[k] / dE
    mid = -ens[0] / dE
    xf, yf = x[:, frame], y[:, frame]
    out = np.zeros(npart, bool)
    edge = np.zeros(npart, bool)
    slices = []
    for i in range(nb - 1):
        here = (xf >= i) & (xf <= i + 1)
        o = here & (np.abs(yf - mid) >= h[i])
        edge |= here & (np.abs(np.abs(yf - mid) - h[i]) < 1e-7)
        out |= o
        slices.append(here & ~o)
        edge |= (np.abs(xf - i) < 1e-9) & (xf != i)
    if edge.any() or out.all():
        raise Skip('a particle on the contour, or none inside')
    w0, x0, y0 = w.copy(), x.copy(), y.copy()
    w, x, y = gen.lay(rng, w), gen.lay(rng, x), gen.lay(rng, y)
    args = dict(n_points_amplitude=npts, idx_frame=frame)
    if rng.random() < 0.3:
        m.machine_ref_frame = frame
        args.pop('idx_frame')
    nw, height, idx = tg.tomo_weight_clipping(m, times, ens, x, y, w, target, **args)
    mon.close(nw.sum(), w.sum(), 'total weight', rtol=1e-9)
    mon.equal(nw[out], np.zeros(out.sum()), 'weights outside of the contour')
    mon.close(nw[~out], w[~out] * w.sum() / w[~out].sum(), 'weights inside of the contour', rtol=1e-9)
    mon.close(height, H[k], 'height of the contour', rtol=1e-5, atol=1e-5 * np.sqrt(K))
    want = []
    for s in slices:
        ii = np.where(s)[0]
        if ii.size == 1:
            want.append(yf[ii[0]])
        elif ii.size:
            want += [yf[ii].min(), yf[ii].max()]
    idx = np.asarray(idx)
    mon.check(idx.size == 0 or (idx.min() >= 0 and idx.max() < npart), 'indices of the outermost particles')
    mon.equal(yf[idx.astype(int)], np.array(want), 'outermost particles of the slices')
    mon.equal(w, w0, 'weights after the call')
    mon.equal(x, x0, 'map after the call')
    mon.equal(y, y0, 'map after the call')
    mon.ev('clipped_particles', int(out.sum()))
    mon.state('clip', info['ring'], nb, npart, npts, frame, k)
