"""P05: physical coordinates <-> image coordinates, and the filter of particles
that leave the image."""
import numpy as np
from vt import gen

RULE = """Every case draws a machine and a cloud with coordinates in, far out
of, and exactly at the borders of the image, non-finite ones included, and
checks the conversion to bins profile by profile against the documented
formula, that the filter keeps exactly the particles that are inside the image
in every profile (in order, unchanged, with the right number of lost ones), and
that the arrays handed to the tomography are the truncated, transposed
positions of exactly those.  Distinct cases differ in shape, fraction of lost
particles and kind of border values."""
ASSUMPTIONS = []

KINDS = {
    'convert': ('plain', 200, 4000),
    'filter': ('plain', 400, 8000),
    'ready': ('plain', 200, 4000),
    'large': ('plain', 16, 300),
    'tracked': ('plain', 60, 1000),
}


def run_convert(case, rng, mon):
    from longitudinal_tomography.tracking import particles as pts
    kw, info = gen.machine_kwargs(rng, ring=case['i'])
    m = gen.make_machine(kw)
    n = gen.SIZES[(case['i'] * 3) % 24]
    dphi = rng.uniform(-10, 10, (m.nprofiles, n))
    dE = rng.uniform(-1, 1, (m.nprofiles, n)) * 10.0 ** rng.uniform(2, 9)
    xo, de = rng.uniform(-500, 500), 10.0 ** rng.uniform(1, 7)
    a, b = gen.lay(rng, dphi.copy()), gen.lay(rng, dE.copy())
    x, y = pts.physical_to_coords(a, b, m, xo, de)
    mon.equal(np.shape(x), dphi.shape, 'shape of x')
    mon.equal(np.shape(y), dphi.shape, 'shape of y')
    for p in range(m.nprofiles):
        t = p * m.dturns
        wx = (dphi[p] + m.phi0[t]) / (m.h_num * m.omega_rev0[t] * m.dtbin) - xo
        mon.close(x[p], wx, f'x in profile {p}', rtol=1e-10, atol=1e-9 * (1 + np.max(np.abs(wx), initial=0)))
        wy = dE[p] / de + m.nbins / 2.0
        mon.close(y[p], wy, f'y in profile {p}', rtol=1e-10, atol=1e-9 * (1 + np.max(np.abs(wy), initial=0)))
    k = int(rng.integers(1, m.nprofiles + 1))
    xk, yk = pts.physical_to_coords(dphi[:k].copy(), dE[:k].copy(), m, xo, de)
    mon.equal(xk, np.asarray(x)[:k], 'x of the first profiles alone')
    mon.equal(yk, np.asarray(y)[:k], 'y of the first profiles alone')
    mon.equal(a, dphi, 'phases are left alone')
    mon.equal(b, dE, 'energies are left alone')
    mon.state('convert', info['ring'], m.nprofiles, m.dturns, n)


def cloud(rng, i):
    n = gen.SIZES[(i * 5) % 30]
    nprof = int(gen.pick(rng, [1, 2, 3, 10, 40]))
    nbins = int(gen.pick(rng, [1, 2, 10, 100, 1000]))
    style = i % 6
    x = rng.uniform(0, nbins, (nprof, n))
    x = np.minimum(x, np.nextafter(nbins, 0))
    if style == 1:      # borders
        b = np.array([0.0, -0.0, nbins, np.nextafter(nbins, 0), np.nextafter(0, -1), np.nextafter(nbins, nbins * 2), nbins - 1.0, -1e-9,
                      nbins - 0.5, 0.5])
        mk = rng.random(x.shape) < 0.2
        x[mk] = b[rng.integers(len(b), size=int(mk.sum()))]
    elif style == 2:    # few stray ones
        mk = rng.random(x.shape) < 0.3 / nprof
        x[mk] = rng.choice([-1, 1], int(mk.sum())) * rng.uniform(1, 1e6, int(mk.sum())) + nbins
    elif style == 3:    # non-finite
        mk = rng.random(x.shape) < 0.2 / nprof
        x[mk] = np.array([np.nan, np.inf, -np.inf])[rng.integers(3, size=int(mk.sum()))]
    elif style == 4:    # most are lost
        mk = rng.random(n) < 0.9
        x[int(rng.integers(nprof)), mk] = -3.0
    elif style == 5 and n > 1:   # all but one
        x[int(rng.integers(nprof)), 1:] = nbins + 2.0
    y = rng.uniform(0, nbins, (nprof, n))
    return n, nprof, nbins, style, x, y


def keepers(x, nbins):
    return np.array([all(0 <= v < nbins for v in x[:, k]) for k in range(x.shape[1])], bool)


def run_filter(case, rng, mon):
    from longitudinal_tomography.tracking import particles as pts
    from longitudinal_tomography import exceptions as ex
    n, nprof, nbins, style, x, y = cloud(rng, case['i'])
    keep = keepers(x, nbins)
    a, b = gen.lay(rng, x.copy()), gen.lay(rng, y.copy())
    mon.state('filter', n, nprof, nbins, style, int(keep.sum()))
    mon.ev('particles', n)
    mon.ev('lost', n - keep.sum())
    if not keep.any():
        mon.raises(ex.InvalidParticleError, lambda: pts.filter_lost(a, b, nbins), 'all particles lost')
        mon.raises(ex.InvalidParticleError, lambda: pts.ready_for_tomography(a, b, nbins), 'all particles lost')
        return
    gx, gy, lost = pts.filter_lost(a, b, nbins)
    mon.equal(gx, x[:, keep], 'x of the particles that stay')
    mon.equal(gy, y[:, keep], 'y of the particles that stay')
    mon.equal(int(lost), int(n - keep.sum()), 'number of lost particles')
    mon.equal(a, x, 'x is left alone')
    mon.equal(b, y, 'y is left alone')


def run_ready(case, rng, mon):
    from longitudinal_tomography.tracking import particles as pts
    n, nprof, nbins, style, x, y = cloud(rng, case['i'])
    keep = keepers(x, nbins)
    if not keep.any():
        x[:, 0] = 0
        keep = keepers(x, nbins)
    a, b = gen.lay(rng, x.copy()), gen.lay(rng, y.copy())
    gx, gy = pts.ready_for_tomography(a, b, nbins)
    mon.equal(gx, np.floor(x[:, keep]).T.astype(int), 'bins of the particles')
    mon.equal(gy, np.floor(y[:, keep]).T.astype(int), 'energy bins of the particles')
    mon.check(gx.dtype.kind == 'i' and gy.dtype.kind == 'i', 'bins are integers', dtype=str(gx.dtype))
    mon.equal(a, x, 'x is left alone')
    mon.state('ready', n, nprof, nbins, style)
    # what comes out is always accepted by the tomography
    from longitudinal_tomography.tomography.tomography import Tomography
    t = Tomography(np.ones((nprof, nbins)), gx, gy)
    mon.equal(t.xp, gx, 'positions in the tomography object')
    mon.equal(t.yp, gy, 'energies in the tomography object')
    # positions within the bins mean the same bins
    t = Tomography(np.ones((nprof, nbins)), x[:, keep].T, y[:, keep].T)
    mon.equal(t.xp, gx, 'bins of exact positions in the tomography object')
    mon.equal(t.yp, gy, 'bins of exact energies in the tomography object')


def run_large(case, rng, mon):
    """Many particles, many profiles, wide images, many lost."""
    from longitudinal_tomography.tracking import particles as pts
    n, nprof, nbins = [(65537, 3, 100), (200003, 2, 40), (3001, 300, 300), (33001, 20, 70000), (12007, 129, 64)][case['i'] % 5]
    x = rng.uniform(0, nbins, (nprof, n))
    y = rng.uniform(-5, nbins + 5, (nprof, n))
    share = gen.pick(rng, [0.0, 1e-4, 0.3, 0.95])
    lost = rng.random(n) < share
    lost[0] = False
    lost[-1] = rng.random() < 0.5
    for k in range(int(gen.pick(rng, [1, 1, 3]))):     # lost in one profile or in several
        x[rng.integers(nprof, size=lost.sum()), np.where(lost)[0]] = gen.pick(rng, [-1.0, nbins, nbins + 3.5, -1e-9, np.nan])
    a, b = x.copy(), y.copy()
    gx, gy, k = pts.filter_lost(a, b, nbins)
    mon.equal(gx, x[:, ~lost], 'x of the particles that stay (many)')
    mon.equal(gy, y[:, ~lost], 'y of the particles that stay (many)')
    mon.equal(int(k), int(lost.sum()), 'number of lost particles (many)')
    gx, gy = pts.ready_for_tomography(a, b, nbins)
    mon.equal(gx, np.floor(x[:, ~lost]).T.astype(int), 'bins of the particles (many)')
    mon.equal(gy, np.trunc(y[:, ~lost]).T.astype(int), 'energy bins of the particles (many)')
    mon.equal(a, x, 'x is left alone')
    mon.ev('particles', n)
    mon.ev('lost', lost.sum())
    mon.state('large', n, nprof, nbins, share)


def run_tracked(case, rng, mon):
    """Positions handed in as bins come back as the same bins."""
    from longitudinal_tomography.tracking import particles as pts
    from longitudinal_tomography.tracking.tracking import Tracking
    m, kw, info = gen.bucket_machine(rng, ring=case['i'], max_turns=300)
    tr = Tracking(m)
    rec = int(rng.integers(m.nprofiles - 1))
    xp, yp = tr.track(rec)
    P = tr.particles
    x, y = pts.physical_to_coords(xp, yp, m, P.xorigin, P.dEbin)
    # in the starting profile the particles sit at the centres of sub-cells
    for v, nm in ((x[rec], 'phase'), (y[rec], 'energy')):
        f = v * m.snpt - 0.5
        mon.close(f - np.round(f), np.zeros(f.shape), f'{nm} of the starting grid', rtol=0, atol=1e-5)
    keep = keepers(x, m.nbins)
    if not keep.any():
        return
    gx, gy = pts.ready_for_tomography(x, y, m.nbins)
    mon.equal(gx, np.floor(x[:, keep]).T.astype(int), 'bins of tracked particles')
    mon.state('tracked', info['ring'], x.shape, rec)
