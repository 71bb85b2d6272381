"""P11: reconstruction of several bunches."""
import numpy as np
from vt import gen, refs
from vt.mon import Skip
from vt.props.p09 import particles

RULE = """Every case draws several bunches (distances, cuts, particles that
leave the cuts or the waterfall in one profile only) and runs both
implementations of the multi-bunch reconstruction; weights per bunch and
combined, total and per-bunch discrepancies and recreated profiles are compared
with a sequential model.  One bunch must give the single-bunch result, equal
bunches equal weights, reordered bunches reordered results; where next to
nothing was measured the weights vanish exactly when the model's do.  Distinct cases
differ in shape, number of bunches, iteration number or relation."""
ASSUMPTIONS = ['no particle sits exactly on a cut in any profile (the two implementations treat the boundary bin differently)']

QUICK = 5
KINDS = {
    'model': ('plain', 300, 6000),
    'one': ('plain', 100, 2000),
    'order': ('plain', 100, 2000),
    'equal': ('plain', 60, 1000),
    'vanish': ('plain', 40, 600),
}


def cls():
    from longitudinal_tomography.tomography.tomography_multibunch import Tomography
    return Tomography


def draw(rng, i):
    nb = [1, 2, 3, 4, 6][i % 5]
    width = int(gen.pick(rng, [4, 8, 15, 25]))
    n = gen.SIZES[(i * 3 + int(rng.integers(4))) % 27]
    nprof = int(gen.pick(rng, [1, 2, 5, 12]))
    gap = int(rng.integers(3, 9))
    first = int(rng.integers(0, 4))
    centers, cl, cr = [], [], []
    pos = first
    for b in range(nb):
        centers.append(pos)
        cl.append(pos - 1)
        cr.append(pos + width + 1)
        pos += width + gap + int(rng.integers(0, 3))
    nbins = pos + int(rng.integers(0, 5))
    if cl[0] < 0:                  # keep the cut inside the waterfall
        centers = [c + 1 for c in centers]
        cl, cr, nbins = [c + 1 for c in cl], [c + 1 for c in cr], nbins + 1
    nbins = max(nbins, cr[-1] + 1)
    centers, cl, cr = (np.array(z, np.int32) for z in (centers, cl, cr))
    # positions 0..width-1 relative to the centre are inside the cuts
    xp = particles(rng, n, nprof, width, int(rng.integers(3)))
    stray = rng.random(n) < 0.25
    for k in np.flatnonzero(stray):
        q = rng.integers(nprof)
        v = int(rng.integers(0, nbins))
        # never exactly on a boundary of any bunch
        if all(v + c != a and v + c != b for c, a, b in zip(centers, cl, cr)):
            xp[k, q] = v
    wf = np.zeros((nprof, nbins))
    inside = [np.all((xp + c > a) & (xp + c < b), axis=1) for c, a, b in zip(centers, cl, cr)]
    for b in range(nb):
        if inside[b].any():
            wf += refs.project(xp[inside[b]] + centers[b], rng.random(int(inside[b].sum())) + 0.05, nprof, nbins) * rng.uniform(0.2, 2)
    if not any(z.any() for z in inside):
        raise Skip('no particle inside any cut')
    wf += rng.random(wf.shape) * 1e-3 * wf.max()
    if nb > 1 and i % 4 == 3:
        # an empty bunch among others
        b = 0 if i % 8 == 3 else int(rng.integers(nb))
        wf[:, cl[b]:cr[b] + 1] = 0
        if not wf.any(axis=1).all():
            raise Skip('an empty profile')
    niter = [0, 1, 3, 8, 20][int(rng.integers(5))]
    return nb, n, nprof, nbins, centers, cl, cr, xp, wf, niter


def verdict(mon, t, want, tol, what, nb):
    w, h, sp, rec = want
    mon.check(len(t.weight_split) == nb, 'one set of weights per bunch')
    for b in range(nb):
        mon.close(t.weight_split[b], w[b], f'{what}: weights of bunch {b}', rtol=0, atol=tol[0])
    mon.close(t.weight_combined, w.ravel(), f'{what}: combined weights', rtol=0, atol=tol[0])
    mon.close(t.diff, h, f'{what}: discrepancies', rtol=0, atol=tol[1])
    mon.close(t.diff_split, sp, f'{what}: discrepancies per bunch', rtol=0, atol=tol[2])
    mon.close(t.recreated, rec, f'{what}: recreated', rtol=0, atol=tol[3])


def run_model(case, rng, mon):
    nb, n, nprof, nbins, centers, cl, cr, xp, wf, niter = draw(rng, case['i'])
    T = cls()

    def real():
        t = T(gen.lay(rng, wf.copy()), gen.lay(rng, xp.copy()))
        t.run(centers, cl, cr, niter=niter)
        return t
    r = refs.both(mon, lambda: refs.conditioned_multi(xp, wf, centers, cl, cr, niter), real)
    mon.state('model', nb, n, nprof, nbins, niter)
    if r is None:
        return
    (want, tol), t = r
    verdict(mon, t, want, tol, f'nb={nb} n={n} nbins={nbins} niter={niter}', nb)
    mon.ev('bunches', nb)
    if case['i'] % 2:
        t = T(gen.lay(rng, wf.copy()), gen.lay(rng, xp.copy()))
        t.run_hybrid(list(centers), list(zip(cl, cr)), niter=niter)
        verdict(mon, t, want, tol, 'reference routine', nb)


def run_one(case, rng, mon):
    from longitudinal_tomography.tomography.tomography import Tomography as S
    from vt.props.p09 import draw as d9
    n, nprof, nbins, niter, xp, wf, st = d9(rng, case['i'])
    try:
        want, tol = refs.conditioned(xp, wf, niter)
    except refs.Vanished:
        raise Skip('vanishes')
    t = cls()(gen.lay(rng, wf.copy()), gen.lay(rng, xp.copy()))
    t.run(np.array([0]), np.array([0]), np.array([nbins]), niter=niter)
    s = S(gen.lay(rng, wf.copy()), gen.lay(rng, xp.copy()))
    s.run(niter=niter)
    mon.close(t.weight_combined, s.weight, 'one bunch: weights', rtol=0, atol=tol[0])
    mon.close(t.weight_split[0], s.weight, 'one bunch: weights', rtol=0, atol=tol[0])
    mon.close(t.diff, s.diff, 'one bunch: discrepancies', rtol=0, atol=tol[1])
    mon.close(t.diff_split, np.reshape(s.diff, (1, -1)), 'one bunch: its own discrepancies', rtol=0, atol=tol[1] + 1e-13)
    mon.close(t.recreated, s.recreated, 'one bunch: recreated', rtol=0, atol=tol[2])
    mon.state('one', n, nprof, nbins, niter, *st)


def run_order(case, rng, mon):
    nb, n, nprof, nbins, centers, cl, cr, xp, wf, niter = draw(rng, case['i'] * 5 + 1 + int(rng.integers(4)))
    try:
        want, tol = refs.conditioned_multi(xp, wf, centers, cl, cr, niter)
    except refs.Vanished:
        raise Skip('vanishes')
    T = cls()
    t = T(gen.lay(rng, wf.copy()), gen.lay(rng, xp.copy()))
    t.run(centers, cl, cr, niter=niter)
    p = rng.permutation(nb)
    u = T(gen.lay(rng, wf.copy()), gen.lay(rng, xp.copy()))
    u.run(centers[p], cl[p], cr[p], niter=niter)
    for k, b in enumerate(p):
        mon.close(u.weight_split[k], t.weight_split[b], 'reordered bunches: weights', rtol=0, atol=tol[0])
    mon.close(u.diff_split, np.asarray(t.diff_split)[p], 'reordered bunches: discrepancies', rtol=0, atol=tol[2])
    mon.close(u.diff, t.diff, 'reordered bunches: total discrepancy', rtol=0, atol=tol[1])
    w = np.array(t.weight_split)
    mon.check(np.all(w >= 0) and np.all(np.isfinite(w)), 'weights are finite and not negative')
    mon.close(np.asarray(t.recreated).sum(axis=1), np.ones(nprof), 'normalised', rtol=0, atol=1e-10)
    proj = np.zeros((nprof, nbins))
    for b in range(nb):
        sel = w[b] > 0
        if sel.any():
            proj += refs.project(xp[sel] + centers[b], w[b][sel], nprof, nbins)
    mon.close(t.recreated, refs.normalise(proj), 'recreated profiles are the projection of the weights', rtol=0, atol=1e-10)
    mon.state('order', nb, n, nprof, nbins, niter)


def run_equal(case, rng, mon):
    """Identical bunches are reconstructed identically, whatever their place."""
    nb = int(gen.pick(rng, [2, 3, 5]))
    width, nprof, n = int(gen.pick(rng, [8, 15])), int(gen.pick(rng, [1, 4, 10])), int(gen.pick(rng, [20, 100, 300]))
    xp = particles(rng, n, nprof, width - 2, int(rng.integers(2))) + 1
    one = refs.project(xp, rng.random(n) + 0.1, nprof, width)
    wf = np.concatenate([one] * nb, axis=1)
    c = np.arange(nb, dtype=np.int32) * width
    cl, cr = c.copy(), (c + width - 1).astype(np.int32)
    niter = int(gen.pick(rng, [1, 5, 15]))
    try:
        want, tol = refs.conditioned_multi(xp, wf, c, cl, cr, niter)
    except refs.Vanished:
        raise Skip('vanishes')
    t = cls()(gen.lay(rng, wf), gen.lay(rng, xp))
    t.run(c, cl, cr, niter=niter)
    for b in range(1, nb):
        mon.close(t.weight_split[b], t.weight_split[0], 'equal bunches', rtol=0, atol=tol[0])
        mon.close(t.diff_split[b], t.diff_split[0], 'equal bunches: discrepancy', rtol=0, atol=tol[2])
    mon.state('equal', nb, width, nprof, n, niter)


def run_vanish(case, rng, mon):
    """Particles where almost nothing was measured: the weights vanish at
    once, in an iteration, or stay."""
    nb = 1 + case['i'] % 3
    nprof, width = int(rng.integers(1, 5)), int(rng.integers(3, 8))
    n = int(rng.integers(1, 6))
    centers = np.arange(nb, dtype=np.int32) * (width + 4) + 2
    cl, cr = centers - 1, centers + width + 1
    nbins = int(cr[-1]) + 2
    xp = np.repeat(rng.integers(width - 1, size=(n, 1)), nprof, axis=1).astype(np.int32) * (1 if rng.random() < 0.5 else 0)
    wf = np.full((nprof, nbins), 1e-30)
    wf[:, cr[0] - 2] = 1.0             # where no particle is
    small = gen.pick(rng, [0.0, 1e-3, 0.05, 0.4, 2.0])
    for c in centers:
        for q in range(nprof):
            wf[q, xp[:, q] + c] = small * rng.uniform(0.5, 1)
    niter = int(gen.pick(rng, [1, 2, 5]))

    def real():
        t = cls()(wf.copy(), xp.copy())
        t.run(centers, cl, cr, niter=niter)
        return t
    r = refs.both(mon, lambda: refs.conditioned_multi(xp, wf, centers, cl, cr, niter), real)
    mon.state('vanish', nb, n, nprof, niter, small, r is None)
    if r is not None:
        verdict(mon, r[1], *r[0], 'particles where little was measured', nb)
