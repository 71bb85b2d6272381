"""P25: macroparticles drawn from an image follow its density."""
import numpy as np
from vt import gen

RULE = """Every case draws an image (not square, few filled cells, steep
densities, cells below the threshold), samples macroparticles with a recorded
random state and assigns every one back to its cell: the number is as asked
for, none lies outside of the axes or in a cell below the threshold, positions
inside the cells are uniform and independent, and the counts per cell agree
with the density within extreme statistical limits (fixed seeds: a run repeats
itself exactly).  Distinct cases differ in shape, filling, threshold, number."""
ASSUMPTIONS = ['statistical limits: 7 standard deviations for each quantity, fixed seeds']

QUICK = 4
KINDS = {
    'cells': ('plain', 150, 2500),
    'threshold': ('plain', 80, 1500),
    'exact': ('plain', 60, 800),
    'jitter': ('plain', 40, 600),
}


def image(rng, i):
    nt, ne = int(rng.integers(2, 40)), int(rng.integers(2, 40))
    t = (np.arange(nt) - rng.uniform(0, nt)) * 10.0 ** rng.uniform(-9, 0)
    e = (np.arange(ne) - rng.uniform(0, ne)) * 10.0 ** rng.uniform(0, 6)
    st = i % 4
    if st == 0:
        d = rng.random((nt, ne))
    elif st == 1:
        d = np.where(rng.random((nt, ne)) < 0.1, rng.random((nt, ne)), 0.0)
        d[int(rng.integers(nt)), int(rng.integers(ne))] = 1.0
    elif st == 2:
        d = np.exp(-0.5 * ((np.arange(nt)[:, None] - nt / 3) / (1 + nt / 10)) ** 2
                   - 0.5 * ((np.arange(ne)[None, :] - ne / 2) / (1 + ne / 6)) ** 2)
    else:
        d = np.zeros((nt, ne))
        d[int(rng.integers(nt)), int(rng.integers(ne))] = 3.0
    d = d * 10.0 ** rng.uniform(-5, 5)
    if i % 7 == 6:      # axes in whole numbers, one or both
        k = int(rng.integers(1, 4))
        if k & 1:
            t = np.arange(nt) * int(rng.integers(1, 5)) - int(rng.integers(nt))
        if k & 2:
            e = np.arange(ne) * int(rng.integers(1, 2000)) - int(rng.integers(ne))
    return gen.lay(rng, t), gen.lay(rng, e), gen.lay(rng, d), st


def sample(t, e, d, n, **k):
    from longitudinal_tomography.data import data_treatment as dt
    return dt.density_to_macro(t, e, d, n, **k)


def assign(mon, t, e, dt_, dE_):
    bt, be = t[1] - t[0], e[1] - e[0]
    a, b = (dt_ - t[0]) / bt, (dE_ - e[0]) / be
    i, j = np.round(a).astype(int), np.round(b).astype(int)
    mon.check(i.min() >= 0 and i.max() < len(t), 'time outside of the image', lo=int(i.min()), hi=int(i.max()))
    mon.check(j.min() >= 0 and j.max() < len(e), 'energy outside of the image', lo=int(j.min()), hi=int(j.max()))
    return i, j, a - i, b - j


def run_cells(case, rng, mon):
    t, e, d, st = image(rng, case['i'])
    n = int(gen.pick(rng, [1, 7, 500, 5000, 40000])) if case['i'] % 12 else 123457
    keep = t.copy(), e.copy(), d.copy()
    x, y = sample(t, e, d, float(n) if case['i'] % 3 == 0 else n)
    mon.equal(np.shape(x), (n,), 'number of particles')
    mon.equal(np.shape(y), (n,), 'number of particles')
    i, j, *_ = assign(mon, t, e, x, y)
    p = np.where(d / d.sum() < 1e-5, 0, d)
    p = p / p.sum()
    cnt = np.zeros(d.shape)
    np.add.at(cnt, (i, j), 1)
    mon.check(not cnt[p == 0].any(), 'particle in an empty cell or one below the threshold')
    sig = np.sqrt(n * p * (1 - p))
    mon.check(np.all(np.abs(cnt - n * p) <= 7 * sig + 8), 'counts of the cells', worst=float(np.max(np.abs(cnt - n * p) - 7 * sig)))
    chi = np.sum((cnt - n * p)[p * n > 5] ** 2 / (n * p)[p * n > 5])
    k = int((p * n > 5).sum())
    if k > 1:
        mon.check(chi <= k + 9 * np.sqrt(2 * k) + 40, 'distribution over the cells', chi2=chi, cells=k)
    if n > 1:
        mon.check(np.unique(np.asarray(x)).size > 0.99 * n and np.unique(np.asarray(y)).size > 0.99 * n, 'particles are drawn independently',
                  n=n, x=np.unique(np.asarray(x)).size, y=np.unique(np.asarray(y)).size)
    # projections: more particles per bin, sharper
    for ax, ind, ln in ((1, i, len(t)), (0, j, len(e))):
        pp = p.sum(axis=ax)
        c = np.bincount(ind, minlength=ln)
        mon.check(np.all(np.abs(c - n * pp) <= 7 * np.sqrt(n * pp * (1 - np.minimum(pp, 1))) + 8), 'counts of the projection')
    for a, b, nm in zip((t, e, d), keep, ('times', 'energies', 'density')):
        mon.equal(a, b, f'{nm} left alone')
    mon.ev('particles', n)
    mon.state('cells', d.shape, st, n)


def run_threshold(case, rng, mon):
    """Cells just above and just below the threshold."""
    nt, ne = int(rng.integers(2, 12)), int(rng.integers(2, 12))
    t, e = np.arange(nt) * 1.0, np.arange(ne) * 2.0
    thr = 10.0 ** rng.uniform(-3.5, -1.7)
    d = np.full((nt, ne), 0.0)
    flat = d.ravel()
    kinds = rng.integers(3, size=flat.size)
    kinds[0] = 2
    # relative to the sum
    lo, hi = (kinds == 0), (kinds == 1)
    hi &= np.cumsum(hi) * thr * 1.02 < 0.5
    lo &= np.cumsum(lo) * thr * 0.98 < 0.3
    flat[lo] = thr * 0.98
    flat[hi] = thr * 1.02
    flat[0] = 1 - flat[1:].sum()
    n = int(60 / thr)
    x, y = sample(gen.lay(rng, t), gen.lay(rng, e), gen.lay(rng, d * 10.0 ** rng.uniform(-3, 3)), n, threshold=thr)
    i, j, *_ = assign(mon, t, e, x, y)
    cnt = np.zeros(d.shape)
    np.add.at(cnt, (i, j), 1)
    c = cnt.ravel()
    mon.check(not c[lo].any(), 'particle in a cell below the threshold')
    mon.check(not c[flat == 0].any(), 'particle in an empty cell')
    mon.check(np.all(c[hi] > 0), 'no particle in a cell above the threshold', n=n)
    mon.ev('particles', n)
    mon.ev('cells_below', lo.sum())
    mon.ev('cells_above', hi.sum())
    mon.state('threshold', d.shape, int(lo.sum()), int(hi.sum()))


def run_exact(case, rng, mon):
    """Cells exactly at the threshold are kept: their share of the density is a
    power of two and so is the threshold."""
    nt, ne = int(rng.integers(2, 12)), int(rng.integers(2, 12))
    t, e = np.arange(nt) * 1.0, np.arange(ne) * 2.0
    d = np.zeros(nt * ne)
    m = int(2 ** rng.integers(1, 1 + int(np.log2(d.size))))
    cells = rng.permutation(d.size)[:m]
    if m > 2 and case['i'] % 2:
        # one cell with half of the density, 2**j at the threshold, one with the rest
        k = m // 2 + 1
        thr = 1.0 / m
        d[cells[:k]] = 1
        d[cells[0]] = m - (k - 1)
    else:
        k, thr = m, 1.0 / m
        d[cells] = 1
    cells = cells[:k]
    n = 80 * m
    d = (d * 2.0 ** int(rng.integers(-8, 8))).reshape(nt, ne)
    x, y = sample(gen.lay(rng, t), gen.lay(rng, e), gen.lay(rng, d), n, threshold=thr)
    i, j, *_ = assign(mon, t, e, x, y)
    cnt = np.zeros(d.shape)
    np.add.at(cnt, (i, j), 1)
    p = d / d.sum()
    mon.check(not cnt[p == 0].any(), 'particle in an empty cell')
    mon.check(np.all(cnt.ravel()[cells] > 0), 'no particle in a cell at the threshold', n=n, threshold=thr)
    mon.check(np.all(np.abs(cnt - n * p) <= 7 * np.sqrt(n * p) + 8), 'counts of the cells')
    mon.ev('particles', n)
    mon.state('exact', d.shape, m, k)


def run_jitter(case, rng, mon):
    t, e, d, st = image(rng, case['i'])
    n = 20000
    x, y = sample(t, e, d, n)
    i, j, a, b = assign(mon, t, e, x, y)
    for v, nm in ((a, 'time'), (b, 'energy')):
        mon.check(abs(v.mean()) < 7 * np.sqrt(1 / 12 / n), f'{nm} inside the cell is not centred', mean=v.mean())
        mon.check(abs(v.var() - 1 / 12) < 7 * np.sqrt(1 / 180 / n), f'{nm} does not fill the cell', var=v.var())
        h = np.bincount(np.clip(((v + 0.5) * 20).astype(int), 0, 19), minlength=20)
        mon.check(np.all(np.abs(h - n / 20) < 7 * np.sqrt(n / 20)), f'{nm} not uniform in the cell')
        mon.check(len(np.unique(v)) > 0.9 * n, f'{nm}: not every particle has its own place')
    mon.check(abs(np.mean(a * b)) < 7 / 12 / np.sqrt(n), 'places in time and energy are related')
    x2, y2 = sample(t, e, d, n)
    mon.check(not np.array_equal(x, x2), 'a second sample is a new one')
    mon.ev('particles', n)
    mon.state('jitter', d.shape, st)
