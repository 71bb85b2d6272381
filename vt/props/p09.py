"""P09: the reconstruction is the documented iterative algorithm."""
import numpy as np
from vt import gen, refs

RULE = """Every case draws particle positions (random, tracked through a
machine, clustered so that most bins are empty, all in one bin), profiles of
very different shapes and scales including negative noise, and a number of
iterations, and runs every implementation of the single-bunch reconstruction:
the class, its reference routine, the native entry point and the
backwards-compatible wrapper, in both precisions.  All weights, the whole
discrepancy history and the recreated profiles are compared with a sequential
model; where the model says no weight survives, the documented error must be
raised.  Tolerances come from perturbing the model.  Distinct cases differ in
shape, iteration number, style of particles or profiles."""
ASSUMPTIONS = ['iterations that amplify a relative perturbation of 1e-12 beyond 2e-6 of the largest weight are left out (counted as outside the domain)']

QUICK = 4
KINDS = {
    'run': ('plain', 300, 8000),
    'hybrid': ('plain', 80, 2000),
    'tracked': ('plain', 40, 800),
    'single': ('plain', 80, 2000),
    'large': ('plain', 8, 60),
}


def particles(rng, n, nprof, nbins, style):
    if style == 0:
        xp = rng.integers(nbins, size=(n, nprof))
    elif style == 1:          # smooth trajectories
        c = rng.normal(nbins / 2, nbins / 5, (n, 1))
        a = rng.normal(0, nbins / 6, (n, 1))
        xp = c + a * np.sin(np.arange(nprof)[None, :] * 0.4 + rng.uniform(0, 6, (n, 1)))
    elif style == 2:          # few bins occupied
        occ = rng.choice(nbins, size=max(1, nbins // 5), replace=False)
        xp = occ[rng.integers(len(occ), size=(n, nprof))]
    elif style == 3:          # everything in one bin
        xp = np.full((n, nprof), int(rng.integers(nbins)))
    elif style == 5:          # no two particles share a bin
        n = min(n, nbins)
        xp = np.array([rng.permutation(nbins)[:n] for _ in range(nprof)]).T
    else:                     # edges
        xp = rng.choice([0, nbins - 1, nbins // 2], size=(n, nprof))
    return np.ascontiguousarray(np.clip(xp, 0, nbins - 1), np.int32)


def draw(rng, i):
    n = gen.SIZES[(i * 7 + int(rng.integers(5))) % len(gen.SIZES)]
    nprof = int(gen.pick(rng, [1, 2, 3, 5, 10, 31, 64]))
    nbins = int(gen.pick(rng, [1, 2, 5, 16, 50, 101]))
    if n * nprof > 60000:
        nprof = 5
    niter = [0, 1, 2, 3, 5, 10, 20, 33][i % 8]
    style = int(rng.integers(6))
    xp = particles(rng, n, nprof, nbins, style)
    n = len(xp)
    ws = int(rng.integers(8))
    if ws >= 6:       # profiles that the particles can explain
        wf = refs.project(xp, rng.random(n) ** 2 + 0.05, nprof, nbins) * 10.0 ** rng.uniform(-3, 6)
    else:
        wf = gen.waterfall(rng, nprof, nbins, ws)
    if np.any(np.clip(wf, 0, None).sum(axis=1) <= 0):
        wf[:, 0] = 1
    return n, nprof, nbins, niter, xp, wf, (style, ws)


def verdict(mon, got, want, tol, what):
    for g, w, t, nm in zip(got, want, tol, ('weights', 'discrepancy history', 'recreated profiles')):
        mon.close(g, w, f'{what}: {nm}', rtol=0, atol=t)
        mon.ev('values_compared', np.size(w))


def run_run(case, rng, mon):
    from longitudinal_tomography.tomography.tomography import Tomography
    from longitudinal_tomography.cpp_routines import libtomo, tomolib_wrappers as tw
    n, nprof, nbins, niter, xp, wf, st = draw(rng, case['i'])
    keep = {}

    def real():
        t = keep['t'] = Tomography(gen.lay(rng, wf.copy()), gen.lay(rng, xp.copy()))
        r = t.run(niter=niter)
        mon.equal(r, t.weight, 'the weights are returned and kept')
        return t.weight, t.diff, t.recreated
    r = refs.both(mon, lambda: refs.conditioned(xp, wf, niter), real)
    mon.state('run', n, nprof, nbins, niter, *st)
    if r is None:
        return
    (want, tol), got = r
    verdict(mon, got, want, tol, f'run n={n} nprof={nprof} nbins={nbins} niter={niter}')
    mon.ev('iterations', niter)
    norm = refs.normalise(np.clip(wf, 0, None))
    mon.close(keep['t'].waterfall, norm, 'normalised waterfall', rtol=1e-12, atol=1e-300)
    if case['i'] % 3 == 0:
        verdict(mon, libtomo.reconstruct(xp, norm, niter, nbins, n, nprof, False), want, tol, 'native')
        verdict(mon, tw.reconstruct(xp, norm, niter, nbins, n, nprof, False), want, tol, 'wrapper')
    # a second run of the same object starts afresh
    if case['i'] % 4 == 1:
        t = keep['t']
        t.run(niter=niter)
        verdict(mon, (t.weight, t.diff, t.recreated), want, tol, 'second run of the same object')


def run_hybrid(case, rng, mon):
    from longitudinal_tomography.tomography.tomography import Tomography
    n, nprof, nbins, niter, xp, wf, st = draw(rng, case['i'])
    if n > 600:
        n, xp = 600, xp[:600]
        wf = np.clip(wf, 0, None)
    try:
        want, tol = refs.conditioned(xp, wf, niter)
    except refs.Vanished:
        return
    t = Tomography(gen.lay(rng, wf.copy()), gen.lay(rng, xp.copy()))
    w = t.run_hybrid(niter=niter)
    verdict(mon, (w, t.diff, t.recreated), want, tol, 'reference routine')
    mon.state('hybrid', n, nprof, nbins, niter, *st)


def run_tracked(case, rng, mon):
    """Positions from the tracker, profiles from a hidden distribution."""
    from longitudinal_tomography.tomography.tomography import Tomography
    from longitudinal_tomography.tracking.tracking import Tracking
    from longitudinal_tomography.tracking import particles as pts
    m, kw, info = gen.bucket_machine(rng, ring=case['i'], nprofiles=int(gen.pick(rng, [5, 12, 25])),
                                     nbins=int(gen.pick(rng, [24, 40])), dturns=int(gen.pick(rng, [1, 4, 9])))
    tr = Tracking(m)
    rec = int(rng.integers(m.nprofiles - 1))
    xp, yp = tr.track(rec)
    xp, yp = pts.physical_to_coords(xp, yp, m, tr.particles.xorigin, tr.particles.dEbin)
    xp, yp = pts.ready_for_tomography(xp, yp, m.nbins)
    r = np.hypot(xp[:, rec] - m.synch_part_x, yp[:, rec] - m.synch_part_y)
    wf = refs.project(xp, np.exp(-(r / (0.2 * m.nbins)) ** 2), m.nprofiles, m.nbins)
    niter = int(gen.pick(rng, [1, 5, 20, 40]))
    t = Tomography(wf, xp, yp)
    out = refs.both(mon, lambda: refs.conditioned(xp, wf, niter), lambda: (t.run(niter=niter), t.diff, t.recreated))
    if out:
        (want, tol), got = out
        verdict(mon, got, want, tol, 'tracked particles')
    mon.state('tracked', info['ring'], xp.shape, niter, rec)


def run_single(case, rng, mon):
    from longitudinal_tomography.cpp_routines import libtomo
    n, nprof, nbins, niter, xp, wf, st = draw(rng, case['i'] * 8 + int(rng.integers(5)))
    wf = refs.normalise(np.clip(wf, 0, None)).astype(np.float32)
    r = refs.both(mon, lambda: refs.conditioned(xp, wf, niter, eps=1e-6, factor=20.0, floor=2e-5),
                  lambda: libtomo.reconstruct(xp, wf, niter, nbins, n, nprof))
    mon.state('single', n, nprof, nbins, niter, *st)
    if r:
        (want, tol), got = r
        mon.check(all(np.asarray(g).dtype == np.float32 for g in got), 'single precision in, single precision out')
        s = 1 + np.sqrt(n) * 1e-2
        verdict(mon, got, want, [tol[0] * s, tol[1] * s + 1e-5, tol[2] * s + 1e-5], 'single precision')


def run_large(case, rng, mon):
    """Many particles, many iterations or many bins."""
    from longitudinal_tomography.cpp_routines import libtomo
    n, nprof, nbins, niter = [(70000, 3, 20, 3), (300, 300, 30, 5), (500, 4, 3000, 4), (150, 6, 20, 300),
                              (33000, 2, 70000, 1), (5000, 30, 100, 20)][case['i'] % 6]
    if case['i'] % 12 == 7:          # very many particles in one bin
        n, nprof, nbins = 140000, 2, 3
    n += int(rng.integers(9))        # no round numbers
    nprof += int(rng.integers(2)) if nprof > 3 else 0
    xp = particles(rng, n, nprof, nbins, 0 if nbins == 3 else 1)
    wf = refs.normalise(refs.project(xp, rng.random(n) + 0.1, nprof, nbins))
    r = refs.both(mon, lambda: refs.conditioned(xp, wf, niter),
                  lambda: libtomo.reconstruct(xp, wf, niter, nbins, n, nprof))
    if r:
        (want, tol), got = r
        verdict(mon, got, want, tol, f'large {n, nprof, nbins, niter}')
    mon.state('large', n, nprof, nbins, niter)
