"""P12: the phase-space image conserves every weight in its own cell."""
import numpy as np
from vt import gen, refs

RULE = """Every case draws particles (cells, weights of mixed sign and size,
precision, memory layout of the coordinates), makes the image through each
public route and compares it cell by cell with an exact accumulation: total
weight conserved, projections equal to the weighted histograms, parts add up,
order irrelevant, axes centred on the synchronous particle, normalised image
non-negative with unit sum.  One coordinate is then put just outside of the
image at a random place: it must be refused and nothing else disturbed.
Distinct cases differ in sizes, route, precision, layout, kind of stray."""
ASSUMPTIONS = ['weights are finite']

QUICK = 3
KINDS = {
    'cells': ('plain', 500, 9000),
    'object': ('plain', 200, 4000),
    'image': ('plain', 200, 4000),
    'stray': ('plain', 300, 6000),
    'asan': ('asan', 60, 800),
}


def draw(rng, i):
    n = (gen.SIZES + [5000, 20000])[(i * 7 + int(rng.integers(3))) % (len(gen.SIZES) + 2)]
    nb = int(gen.pick(rng, [1, 2, 3, 7, 10, 64, 100, 151, 256]))
    st = i % 5
    if st == 0:
        x, y = rng.integers(nb, size=(2, n))
    elif st == 1:        # everything in few cells
        x, y = rng.integers(max(1, nb // 8), size=(2, n))
    elif st == 2:        # the corners
        x, y = rng.choice([0, nb - 1], (2, n))
    elif st == 3:        # a line
        x = rng.integers(nb, size=n)
        y = nb - 1 - x
    else:
        x = np.sort(rng.integers(nb, size=n))
        y = np.full(n, int(rng.integers(nb)))
    w = rng.random(n)
    if rng.random() < 0.3:
        w = w * 10.0 ** rng.uniform(-8, 8, n)
    if rng.random() < 0.3:
        w[rng.random(n) < 0.5] = 0
    return n, nb, x, y, w, st


def layout(rng, v):
    """The same values with another type or memory layout."""
    k = int(rng.integers(5))
    if k == 0:
        return v.astype(np.int32)
    if k == 1:
        return v.astype(np.int64)
    if k == 2:
        big = np.full((len(v), 3), -7, np.int32)
        big[:, 1] = v
        return big[:, 1]
    if k == 3:
        return np.asfortranarray(np.repeat(v.astype(np.int32)[:, None], 2, 1))[:, 0]
    return v.astype(np.int32)[::-1][::-1]


def call(x, y, w, nb):
    from longitudinal_tomography.utils import tomo_config as conf
    return conf.make_phase_space(x, y, w, nb)


def run_cells(case, rng, mon):
    from longitudinal_tomography.cpp_routines import libtomo
    n, nb, x, y, w, st = draw(rng, case['i'])
    if case['i'] % 4 == 1:
        w = w * rng.choice([-1, 1], n)
    single = case['i'] % 6 == 5
    ww = w.astype(np.float32) if single else w
    want = refs.phase_space(x, y, ww.astype(float), nb)
    scale = refs.phase_space(x, y, np.abs(ww.astype(float)), nb)
    f = call if case['i'] % 2 else libtomo.make_phase_space
    ax, ay = layout(rng, x), layout(rng, y)
    kx, ky, kw = ax.copy(), ay.copy(), ww.copy()
    img = f(ax, ay, ww, nb)
    eps = 1e-5 * np.sqrt(1 + n) if single else 1e-12
    mon.equal(np.shape(img), (nb, nb), 'shape of the image')
    mon.close(img, want, 'cells', rtol=0, atol=eps * max(scale.max(), 1e-300))
    mon.check(np.all(np.asarray(img)[scale == 0] == 0), 'a cell without particles is not empty')
    mon.close(np.sum(img, dtype=float), np.sum(ww, dtype=float), 'total weight', rtol=0, atol=eps * np.sum(np.abs(ww), dtype=float) + 1e-300)
    for a, b, nm in ((ax, kx, 'x'), (ay, ky, 'y'), (ww, kw, 'weights')):
        mon.equal(a, b, f'{nm} left alone')
    # order and parts
    p = rng.permutation(n)
    mon.close(f(x[p].astype(np.int32), y[p].astype(np.int32), ww[p], nb), want, 'another order', rtol=0, atol=eps * max(scale.max(), 1e-300))
    k = int(rng.integers(n + 1))
    parts = f(x[:k].astype(np.int32), y[:k].astype(np.int32), ww[:k], nb) + f(x[k:].astype(np.int32), y[k:].astype(np.int32), ww[k:], nb)
    mon.close(parts, want, 'sum of two parts', rtol=0, atol=eps * max(scale.max(), 1e-300))
    mon.ev('particles', n)
    mon.state('cells', n, nb, st, single, case['i'] % 2)


def run_asan(case, rng, mon):
    run_cells(case, rng, mon)
    run_stray(case, rng, mon)


def run_object(case, rng, mon):
    """Through the tomography object and the machine; axes."""
    from longitudinal_tomography.data import data_treatment as dt
    from longitudinal_tomography import exceptions as ex
    from longitudinal_tomography.tomography.tomography import Tomography
    kw, info = gen.machine_kwargs(rng, ring=case['i'], nprofiles=int(rng.integers(2, 9)), dturns=1)
    m = gen.make_machine(kw)
    n, nb = int(rng.integers(1, 3000)), m.nbins
    xp = rng.integers(nb, size=(n, m.nprofiles)).astype(np.int32)
    yp = rng.integers(nb, size=(n, m.nprofiles)).astype(np.int32)
    t = Tomography(np.ones((m.nprofiles, nb)), xp, yp)
    t.weight = rng.random(n)
    mon.raises(ex.InputError, lambda: dt.phase_space(t, m, 0), 'no energy bin known')
    m.dEbin = 10.0 ** rng.uniform(1, 6)
    for k in range(m.nprofiles):
        tr, er, d = dt.phase_space(t, m, k)
        mon.close(d, refs.phase_space(xp[:, k], yp[:, k], t.weight, nb), f'profile {k}', rtol=0, atol=1e-12 * n)
        mon.close(d.sum(axis=1), np.bincount(xp[:, k], t.weight, nb), f'projection on time, profile {k}', rtol=1e-10, atol=1e-12)
        mon.close(d.sum(axis=0), np.bincount(yp[:, k], t.weight, nb), f'projection on energy, profile {k}', rtol=1e-10, atol=1e-12)
        mon.close(tr, (np.arange(nb) - m.synch_part_x) * m.dtbin, 'time axis', rtol=1e-12, atol=1e-14 * nb * m.dtbin)
        mon.close(er, (np.arange(nb) - nb / 2.0) * m.dEbin, 'energy axis', rtol=1e-12, atol=1e-14 * nb * m.dEbin)
    if m.nprofiles:
        d0 = dt.phase_space(t, m)[2]
        mon.close(d0, refs.phase_space(xp[:, 0], yp[:, 0], t.weight, nb), 'default profile', rtol=0, atol=1e-12 * n)
        tr, er, d = dt.phase_space_from_coordinates(xp[:, 0], yp[:, 0], t.weight, nb, 3.25, 7.5, 2.0, 5.0)
        mon.close(tr, (np.arange(nb) - 3.25) * 2.0, 'given time axis', rtol=1e-12)
        mon.close(er, (np.arange(nb) - 7.5) * 5.0, 'given energy axis', rtol=1e-12)
        mon.close(d, d0, 'image of given coordinates', rtol=1e-12)
    mon.ev('images', m.nprofiles)
    mon.state('object', info['ring'], n, nb, m.nprofiles)


def run_image(case, rng, mon):
    from longitudinal_tomography.utils import tomo_output as to
    n, nb, x, y, w, st = draw(rng, case['i'])
    w[int(rng.integers(n))] += 0.5
    if case['i'] % 3 == 1:
        w = w - 0.2 * w.max()
    npr = int(rng.integers(1, 6))
    k = int(rng.integers(npr))
    xp = rng.integers(nb, size=(n, npr))
    yp = rng.integers(nb, size=(n, npr))
    xp[:, k], yp[:, k] = x, y
    if case['i'] % 2:
        xp, yp = xp + rng.uniform(0, 0.99, xp.shape), yp + rng.uniform(0, 0.99, yp.shape)
    want = np.clip(refs.phase_space(x, y, w, nb), 0, None)
    if want.sum() <= 1e-9 * np.abs(w).sum():
        want = None
        w = np.abs(w)
        want = refs.phase_space(x, y, w, nb)
    if case['i'] % 4 == 2:
        # particles beyond the image in energy are not in it
        m = int(rng.integers(1, 4))
        at = rng.integers(0, n + 1, m)
        bad = np.array([-1, nb, nb + 5, -40, 2 * nb, -nb - 1])[rng.integers(0, 6, m)].astype(yp.dtype)
        row = rng.integers(0, nb, (m, npr)).astype(yp.dtype)
        xp = np.insert(xp, at, row.astype(xp.dtype), axis=0)
        row[:, k] = bad
        yp = np.insert(yp, at, row, axis=0)
        w = np.insert(w, at, w.max() * rng.uniform(0.5, 2, m))
        mon.ev('beyond_in_energy', m)
    keep = xp.copy(), yp.copy(), w.copy()
    img = to.create_phase_space_image(xp, yp, w, nb, k)
    mon.close(img, want / want.sum(), 'normalised image', rtol=1e-9, atol=1e-11)
    mon.close(np.sum(img), 1.0, 'sum of the image', rtol=1e-9)
    mon.check(np.min(img) >= 0, 'negative cell')
    for a, b, nm in zip((xp, yp, w), keep, 'xyw'):
        mon.equal(a, b, f'{nm} left alone')
    mon.state('image', n, nb, st, npr, k)


def run_stray(case, rng, mon):
    from longitudinal_tomography.cpp_routines import libtomo
    n, nb, x, y, w, st = draw(rng, case['i'])
    n = min(n, 3000)
    x, y, w = x[:n].astype(np.int32), y[:n].astype(np.int32), w[:n]
    good = libtomo.make_phase_space(x, y, w, nb)
    at = [0, n - 1, int(rng.integers(n))][case['i'] % 3]
    val = [-1, nb, nb + 1, -nb, nb * nb, 2 ** 31 - 1, -2 ** 31, -2][(case['i'] // 3) % 8]
    which = case['i'] % 2
    bx, by = x.copy(), y.copy()
    (bx if which else by)[at] = val
    if case['i'] % 5 == 0 and nb > 1:
        # a stray that a flattened index would map onto a valid cell
        bx, by = x.copy(), y.copy()
        bx[at], by[at] = (1, -1) if which else (0, nb)
    mon.raises(IndexError, lambda: libtomo.make_phase_space(bx, by, w, nb), f'coordinate {val} of {nb}')
    if case['i'] % 4 == 0:
        from longitudinal_tomography.data import data_treatment as dt
        mon.raises(IndexError, lambda: dt.phase_space_from_coordinates(bx, by, w, nb, 0., 0., 1., 1.), f'coordinate {val} of {nb}')
    mon.equal(libtomo.make_phase_space(x, y, w, nb), good, 'image after a refusal')
    mon.state('stray', n, nb, at, val, which)
