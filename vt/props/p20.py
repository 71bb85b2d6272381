"""P20: beam parameters of a phase-space image follow their definitions."""
import numpy as np
from vt import gen
from vt.mon import Skip

RULE = """Every case draws an image (smooth, sparse, single cell, flat, with
exactly representable values, square or not) with time and energy axes of many
scales and offsets, and compares the rms emittance, the fractional emittances
and the momentum spread of every public route (arrays, numbers, combined
dictionary) with their definitions computed here, together with relations
between calls: units, order of the cells, scaling of the density, growing
fractions, and an unchanged input.  Where the code is known to use another formula
(recorded findings) exactly that formula is accepted as well, nothing else.
Distinct cases differ in kind of image, shape, axes or fraction."""
ASSUMPTIONS = ['axes are uniform; images are non-negative and not empty']

QUICK = 4
KINDS = {
    'rms': ('plain', 400, 8000),
    'fraction': ('plain', 500, 10000),
    'dpp': ('plain', 300, 6000),
    'combined': ('plain', 300, 6000),
    'refused': ('plain', 100, 1500),
}


def image(rng, nt=None, ne=None):
    if nt is None and ne is None and rng.random() < 0.06:
        # fine images: many bins along one axis, or along both
        nt, ne = gen.pick(rng, [(601, 7), (5, 777), (1100, 3), (520, 530)])
    nt = nt or int(gen.pick(rng, [2, 3, 5, 8, 13, 31, 64]))
    ne = ne or int(gen.pick(rng, [2, 3, 5, 8, 13, 31, 64]))
    kind = gen.pick(rng, ['gauss', 'random', 'sparse', 'single', 'flat', 'exact'])
    if kind == 'gauss':
        t, e = np.arange(nt)[:, None], np.arange(ne)[None, :]
        h = np.exp(-((t - rng.uniform(0, nt)) / rng.uniform(0.5, nt)) ** 2 - ((e - rng.uniform(0, ne)) / rng.uniform(0.5, ne)) ** 2)
    elif kind == 'random':
        h = rng.random((nt, ne))
    elif kind == 'sparse':
        h = rng.random((nt, ne)) * (rng.random((nt, ne)) < 0.2)
        h[rng.integers(nt), rng.integers(ne)] += 1
    elif kind == 'single':
        h = np.zeros((nt, ne))
        h[rng.integers(nt), rng.integers(ne)] = rng.uniform(0.1, 10)
    elif kind == 'flat':
        h = np.full((nt, ne), 1.0)
    else:
        # counts with a power of two as total: every sum below is exact
        h = np.zeros(nt * ne)
        np.add.at(h, rng.integers(0, nt * ne, 256), 1.0)
        h = h.reshape(nt, ne)
    h = h * gen.pick(rng, [1.0, 1.0, 2.0 ** -8, 2.0 ** 20, 1 / 4096])
    dt = gen.pick(rng, [1e-9, 2.5e-9, 1.0, 3.7e-10])
    de = gen.pick(rng, [1e3, 2.34e5, 1.0, 17.0])
    t = (np.arange(nt) - gen.pick(rng, [0, nt / 2, 3.3, -7, 100])) * dt
    e = (np.arange(ne) - gen.pick(rng, [0, ne / 2, 1.7, -7, 100])) * de
    return kind, gen.lay(rng, h), gen.lay(rng, t), gen.lay(rng, e)


def true_std(p, b):
    p, b = np.asarray(p, np.longdouble), np.asarray(b, np.longdouble)
    mid = b + (b[1] - b[0]) / 2
    s = p.sum()
    m = (p * mid).sum() / s
    return float(np.sqrt((p * (mid - m) ** 2).sum() / s))


def recorded_std(p, b):
    """The formula of the finding: the terms of the mean are not summed."""
    mid = b + (b[1] - b[0]) / 2
    m = mid * p / p.sum()
    return float(np.sqrt(np.sum(p * (mid - m) ** 2) / p.sum()))


def near(a, b, scale=0.0, rtol=1e-9):
    return abs(a - b) <= rtol * abs(b) + scale


def std_ok(mon, got, want, rec, scale, msg):
    """got is the true value, or the one of the recorded finding."""
    mon.ev('checks')
    if near(got, want, scale):
        return
    if near(got, rec, scale):
        mon.known.add('stdmean')
        return
    mon.fail(msg, got=got, want=want, recorded=rec)


def cells(h, fraction):
    """Bounds on the smallest number of cells that hold the fraction."""
    c = np.cumsum(np.sort(h.ravel())[::-1].astype(np.longdouble))
    c /= c[-1]
    f = np.longdouble(fraction) / 100
    if f <= 0:
        return 0, 0
    lo = int(np.searchsorted(c, f - 1e-12)) + 1
    hi = int(np.searchsorted(c, min(f + 1e-12, c[-1]))) + 1
    return lo, min(hi, c.size)


def frac_ok(mon, got, h, t, e, fraction, msg):
    cell = (t[1] - t[0]) * (e[1] - e[0])
    n = got / cell
    mon.check(abs(n - round(n)) < 1e-6 * max(1, abs(n)), msg + ': whole number of cells', got=got, cell=cell)
    n = round(n)
    lo, hi = cells(h, fraction)
    mon.ev('checks')
    if lo <= n <= hi:
        if fraction > 0 and lo == hi:
            mon.ev('exact_fraction')
        return n
    if lo - 1 <= n <= hi - 1:
        mon.known.add('fracbin')
        return n
    mon.fail(msg, got=n, lo=lo, hi=hi, fraction=fraction)


def run_rms(case, rng, mon):
    from longitudinal_tomography.data import post_process as pp
    kind, h, t, e = image(rng)
    h0 = h.copy()
    tp, ep = h.sum(1), h.sum(0)
    got = pp.emittance_rms(h, t, e)
    tr = (true_std(tp, t), true_std(ep, e))
    rc = (recorded_std(tp, t), recorded_std(ep, e))
    sc = 1e-7 * (np.abs(t).max() + t[1] - t[0]) * (np.abs(e).max() + e[1] - e[0])
    std_ok(mon, got, np.pi * tr[0] * tr[1], np.pi * rc[0] * rc[1], sc, 'rms emittance of an image')
    mon.equal(h, h0, 'image after the call')
    # numbers
    a, b = float(rng.uniform(0, 1e-6)), float(rng.uniform(0, 1e8))
    mon.close(pp.emittance_rms(a, b), np.pi * a * b, 'rms emittance of two numbers', rtol=1e-13)
    mon.close(pp.emittance_rms(np.float64(a), b), np.pi * a * b, 'rms emittance of two numbers', rtol=1e-13)
    # scaling of density and units
    k = gen.pick(rng, [2.0, 0.25, 1000.0])
    mon.close(pp.emittance_rms(h * k, t, e), got, 'emittance of a denser image', rtol=1e-9, atol=sc * 1e-3)
    mon.close(pp.emittance_rms(h, t * k, e), got * k, 'emittance in another unit of time', rtol=1e-9, atol=sc * k * 1e-3)
    mon.close(pp.emittance_rms(h, t, e * k), got * k, 'emittance in another unit of energy', rtol=1e-9, atol=sc * k * 1e-3)
    mon.close(pp.emittance_rms(np.ascontiguousarray(h.T), e, t), got, 'emittance with exchanged axes', rtol=1e-9, atol=sc * 1e-3)
    mon.state('rms', kind, h.shape, t[0], e[0])


def run_fraction(case, rng, mon):
    from longitudinal_tomography.data import post_process as pp
    kind, h, t, e = image(rng)
    h0 = h.copy()
    cell = (t[1] - t[0]) * (e[1] - e[0])
    prev = -1
    fr = sorted(set([0, 100, 90, 50, 25, 99.9] + list(rng.uniform(0, 100, 5)) + [int(rng.integers(0, 101))]))
    for f in fr:
        n = frac_ok(mon, pp.emittance_fractional(h, t, e, fraction=f), h, t, e, f, f'emittance of {f}% of the beam')
        mon.check(n >= prev, 'emittance grows with the fraction', f=f, n=n, prev=prev)
        prev = n
        mon.state('fraction', kind, h.shape, round(float(f), 3))
    d = pp.emittance_fractional(h, t, e)
    mon.close(d, pp.emittance_fractional(h, t, e, fraction=90), 'default fraction', rtol=1e-12)
    mon.close(pp.emittance_90(h, t, e), d, '90% emittance', rtol=1e-12)
    p = rng.permutation(h.size)
    mon.close(pp.emittance_fractional(h.ravel()[p].reshape(h.shape), t, e, fraction=90), d, 'emittance after exchanging cells', rtol=1e-9, atol=1.01 * cell if kind != 'exact' else 0)
    mon.close(pp.emittance_fractional(h * 4.0, t, e, fraction=90), d, 'emittance of a denser image', rtol=1e-9, atol=0)
    mon.equal(h, h0, 'image after the call')


def dpp(std, energy, mass):
    """dp/p, written without cancellation."""
    s, E, m = (np.longdouble(x) for x in (std, energy, mass))
    p = np.sqrt(E * E - m * m)
    p2 = np.sqrt((E + s) * (E + s) - m * m)
    return float((2 * E * s + s * s) / (p2 + p) / p)


def draw_energy(rng):
    m = float(gen.pick(rng, [938272088.0, 193.7e9, 0.511e6, 1.0]))
    return m, m * (1 + 10 ** float(rng.uniform(-2, 3)))


def run_dpp(case, rng, mon):
    from longitudinal_tomography.data import post_process as pp
    m, E = draw_energy(rng)
    s = E * 10 ** float(rng.uniform(-6, -1))
    w = dpp(s, E, m)
    tol = 1e-13 * E / s * 30 * (E * E / (E * E - m * m)) + 1e-10
    mon.close(pp.rms_dpp(s, E, m), w, 'momentum spread of numbers', rtol=tol)
    mon.close(pp.rms_dpp(np.float64(s), E, m), w, 'momentum spread of numbers', rtol=tol)
    mon.close(pp.rms_dpp(0.0, E, m), 0.0, 'momentum spread without energy spread', atol=1e-13 * E * E / (E * E - m * m))
    mon.close(pp.rms_dpp(s / 2, E / 2, m / 2), w, 'momentum spread is a ratio', rtol=tol)
    kind, h, t, e = image(rng)
    ep = h.sum(0)
    e = e * (s / (abs(e).max() + e[1] - e[0]))
    got = pp.rms_dpp(ep, e, E, m)
    tr, rc = true_std(ep, e), recorded_std(ep, e)
    tol2 = 1e-13 * 30 * (E * E / (E * E - m * m)) + 1e-7 * w
    std_ok(mon, got, dpp(tr, E, m), dpp(rc, E, m), tol2, 'momentum spread of a projection')
    mon.state('dpp', kind, m, round(E / m, 3), round(s / E, 6))


def run_combined(case, rng, mon):
    from longitudinal_tomography.data import post_process as pp
    kind, h, t, e = image(rng)
    h0, t0, e0 = h.copy(), t.copy(), e.copy()
    m, E = draw_energy(rng)
    e = e * (1e-3 * E / (abs(e).max() + e[1] - e[0]))
    e0 = e.copy()
    r = pp.post_process(h, t, e, E, m)
    mon.check(set(r) == {'emittance_rms', 'emittance_90', 'rms_dp/p'}, 'entries', got=sorted(r))
    mon.close(r['emittance_rms'], pp.emittance_rms(h, t, e), 'combined rms emittance', rtol=1e-12)
    mon.close(r['emittance_90'], pp.emittance_90(h, t, e), 'combined 90% emittance', rtol=1e-12)
    mon.close(r['rms_dp/p'], pp.rms_dpp(h.sum(0), e, E, m), 'combined momentum spread', rtol=1e-9, atol=1e-13 * E * E / (E * E - m * m))
    mp = 938.27208e6
    Ep = mp * float(rng.uniform(1.01, 30))
    mon.close(pp.post_process(h, t, e, Ep)['rms_dp/p'], pp.post_process(h, t, e, Ep, mp)['rms_dp/p'], 'protons by default', rtol=1e-4, atol=1e-13)
    for a, b in ((h, h0), (t, t0), (e, e0)):
        mon.equal(a, b, 'input after the call')
    frac_ok(mon, r['emittance_90'], h, t, e, 90, 'combined 90% emittance')
    mon.state('combined', kind, h.shape, m, round(E / m, 3))


def run_refused(case, rng, mon):
    from longitudinal_tomography.data import post_process as pp
    kind, h, t, e = image(rng)
    for f in (-1, -1e-9, 100.001, 101, 1e9, -np.inf, np.inf):
        mon.raises(ValueError, lambda: pp.emittance_fractional(h, t, e, fraction=f), f'fraction {f}')
        mon.state('refused', kind, h.shape, f)
    mon.raises(Exception, lambda: pp.rms_dpp(h.sum(0), e[:-1], 2e9, 1e9), 'axis of another length')
    mon.raises(Exception, lambda: pp.emittance_rms(h, t, np.append(e, 0)), 'axis of another length')
