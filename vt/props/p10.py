"""P10: a finished reconstruction is consistent with itself and with the
symmetries of the problem."""
import numpy as np
from vt import gen, refs
from vt.mon import Skip
from vt.props.p09 import draw, particles

RULE = """Every case runs the reconstruction class on drawn particles and
profiles and relates what it reports: weights finite and not negative, the
recreated profiles equal to the normalised projection of the returned weights,
the last discrepancy equal to the rms of what is left, one discrepancy per
iteration.  Relation cases rerun it after a change that must not matter (scale
of single profiles, order of particles, profiles or bins, duplicated
particles, negative samples, fewer iterations, another call in between) and
compare.  Distinct cases differ in shape, style or relation."""
ASSUMPTIONS = ['relations are compared where the iteration does not amplify rounding (measured on the model)']

QUICK = 5
KINDS = {
    'report': ('plain', 400, 8000),
    'relation': ('plain', 400, 8000),
    'tiny': ('plain', 60, 1000),
    'converge': ('plain', 40, 800),
}


def tomo(wf, xp, niter, hybrid=False):
    from longitudinal_tomography.tomography.tomography import Tomography
    rng = np.random.default_rng([xp.size, niter, hybrid])
    t = Tomography(gen.lay(rng, wf.copy()), gen.lay(rng, xp.copy()))
    if hybrid:
        t.weight = t.run_hybrid(niter=niter)
    else:
        t.run(niter=niter)
    return t


def run_report(case, rng, mon):
    n, nprof, nbins, niter, xp, wf, st = draw(rng, case['i'])
    hyb = case['i'] % 10 == 9 and n < 300
    try:
        want, tol = refs.conditioned(xp, wf, niter)
    except refs.Vanished:
        raise Skip('vanishes')
    t = tomo(wf, xp, niter, hyb)
    w = np.asarray(t.weight)
    mon.check(w.shape == (n,), 'one weight per particle', shape=str(w.shape))
    mon.check(np.all(np.isfinite(w)) and np.all(w >= 0), 'weights are finite and not negative', w=w)
    mon.check(w.sum() > 0, 'some weight is left')
    norm = refs.normalise(np.clip(wf, 0, None))
    proj = refs.normalise(refs.project(xp, w, nprof, nbins))
    mon.close(t.recreated, proj, 'recreated profiles are the projection of the weights', rtol=0, atol=1e-10)
    mon.close(np.asarray(t.recreated).sum(axis=1), np.ones(nprof), 'recreated profiles are normalised', rtol=0, atol=1e-10)
    mon.check(np.shape(t.diff) == (niter + 1,), 'one discrepancy per iteration and the final one', shape=str(np.shape(t.diff)))
    mon.close(t.diff[-1], np.sqrt(np.mean((norm - proj) ** 2)), 'final discrepancy', rtol=1e-8, atol=1e-13)
    mon.check(np.all(np.isfinite(t.diff)) and np.all(np.asarray(t.diff) >= 0), 'discrepancies are finite', d=t.diff)
    mon.state('report', n, nprof, nbins, niter, hyb, *st)


RELATIONS = ['scale', 'parts', 'profs', 'bins', 'dup', 'neg', 'prefix', 'between', 'hybrid', 'image_scale']


def run_relation(case, rng, mon):
    n, nprof, nbins, niter, xp, wf, st = draw(rng, case['i'] // 3)
    if n > 1500:
        n, xp = 1500, xp[:1500]
    rel = RELATIONS[case['i'] % len(RELATIONS)]
    try:
        want, tol = refs.conditioned(xp, wf, niter)
    except refs.Vanished:
        raise Skip('vanishes')
    t = tomo(wf, xp, niter)
    w, d, r = t.weight.copy(), np.copy(t.diff), np.copy(t.recreated)
    tw, td, tr = tol

    def cmp(u, ww, dd, rr):
        mon.close(u.weight, ww, f'{rel}: weights', rtol=0, atol=tw)
        mon.close(u.diff, dd, f'{rel}: discrepancies', rtol=0, atol=td)
        mon.close(u.recreated, rr, f'{rel}: recreated', rtol=0, atol=tr)
    if rel == 'scale':
        cmp(tomo(wf * 10.0 ** rng.uniform(-8, 8, (nprof, 1)), xp, niter), w, d, r)
    elif rel == 'image_scale':
        cmp(tomo(wf * 10.0 ** rng.uniform(-12, 12), xp, niter), w, d, r)
    elif rel == 'parts':
        p = rng.permutation(n)
        cmp(tomo(wf, xp[p], niter), w[p], d, r)
    elif rel == 'profs':
        p = rng.permutation(nprof)
        cmp(tomo(wf[p], xp[:, p], niter), w, d, r[p])
    elif rel == 'bins':
        p = rng.permutation(nbins)
        inv = np.argsort(p)
        cmp(tomo(wf[:, p], inv[xp].astype(np.int32), niter), w, d, r[:, p])
    elif rel == 'dup':
        k = int(rng.integers(2, 4))
        # bins without particles count as one particle: keep them out
        if np.any(refs.counts(xp, nprof, nbins) == 0):
            raise Skip('bins without particles')
        cmp(tomo(wf, np.concatenate([xp] * k), niter), np.concatenate([w] * k), d, r)
    elif rel == 'neg':
        c = np.clip(wf, 0, None)
        cmp(tomo(np.where(c > 0, c, -rng.random(c.shape)), xp, niter), w, d, r)
    elif rel == 'prefix':
        more = tomo(wf, xp, niter) if niter == 0 else None
        k = int(rng.integers(0, niter + 1))
        u = tomo(wf, xp, k)
        mon.close(np.asarray(u.diff), d[:k + 1], 'fewer iterations give the start of the history', rtol=0, atol=td)
    elif rel == 'between':
        from longitudinal_tomography.tomography.tomography import Tomography
        other = particles(rng, 77, nprof, nbins, 0)
        try:
            t2 = Tomography(wf.copy() + 1.0, other)
            t2.run(niter=2)
        except RuntimeError:
            pass
        t.run(niter=niter)
        cmp(t, w, d, r)
        # other particles of the same number, given to the same object
        xp2 = particles(rng, n, nprof, nbins, int(rng.integers(3)))
        try:
            (w2, d2, r2), tol2 = refs.conditioned(xp2, wf, niter)
        except refs.Vanished:
            raise Skip('vanishes')
        t.xp = gen.lay(rng, xp2)
        t.run(niter=niter)
        mon.close(t.weight, w2, 'weights of other particles', rtol=0, atol=tol2[0])
        mon.close(t.diff, d2, 'discrepancies of other particles', rtol=0, atol=tol2[1])
        mon.close(t.recreated, r2, 'recreated profiles of other particles', rtol=0, atol=tol2[2])
        t.xp = xp
        t.run(niter=niter)
        cmp(t, w, d, r)
    else:
        cmp(tomo(wf, xp, niter, hybrid=True), w, d, r)
    mon.ev('relation_' + rel)
    mon.state(rel, n, nprof, nbins, niter, *st)


def run_tiny(case, rng, mon):
    """Measurements over many orders of magnitude: the smallest weights are
    not negative either."""
    n, nprof, nbins = int(gen.pick(rng, [3, 20, 200])), int(rng.integers(1, 6)), int(gen.pick(rng, [4, 9, 30]))
    niter = int(gen.pick(rng, [1, 2, 5, 30]))
    xp = particles(rng, n, nprof, nbins, int(rng.integers(3)))
    wf = 10.0 ** rng.uniform(-20, -6, (nprof, nbins))
    wf[:, :max(1, nbins // 4)] = rng.random((nprof, max(1, nbins // 4))) + 0.1
    xp[0] = int(rng.integers(max(1, nbins // 4)))      # one stays where the measurement is
    wf = wf[:, rng.permutation(nbins)] if case['i'] % 2 else wf
    try:
        t = tomo(wf, xp, niter, case['i'] % 5 == 4)
    except RuntimeError as e:
        raise Skip(str(e)[:30])
    w = np.asarray(t.weight)
    mon.check(np.all(np.isfinite(w)) and np.all(w >= 0), 'no weight is negative, however small', w=w.min())
    proj = refs.normalise(refs.project(xp, w, nprof, nbins))
    mon.close(t.recreated, proj, 'recreated profiles are the projection of the weights', rtol=0, atol=1e-10)
    mon.ev('weights_zero', int((w == 0).sum()))
    mon.state('tiny', n, nprof, nbins, niter)


def run_converge(case, rng, mon):
    """Profiles of a distribution the particles can represent are explained
    better and better: the discrepancy falls to a small part of its start."""
    n, nprof, nbins = int(gen.pick(rng, [400, 1500])), int(gen.pick(rng, [12, 30])), int(gen.pick(rng, [20, 40]))
    ang = rng.uniform(0, 2 * np.pi, n)
    rad = nbins * 0.45 * np.sqrt(rng.random(n))
    rot = np.linspace(0, np.pi, nprof, endpoint=False)
    xp = np.clip(nbins / 2 + rad[:, None] * np.cos(ang[:, None] + rot[None, :]), 0, nbins - 1).astype(np.int32)
    w0 = np.exp(-(rad / (nbins * 0.2)) ** 2) * (1 + 0.5 * np.cos(ang))
    wf = refs.project(xp, w0, nprof, nbins)
    t = tomo(wf, xp, 30)
    mon.check(t.diff[-1] < 0.2 * t.diff[0], 'the discrepancy does not fall', first=t.diff[0], last=t.diff[-1])
    c = np.corrcoef(t.weight, w0)[0, 1]
    mon.check(c > 0.8, 'the reconstruction does not resemble the source', correlation=c)
    mon.ev('reconstructions_judged')
    mon.state('converge', n, nprof, nbins, case['seed'])
