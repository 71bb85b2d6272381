"""P18: the precision setting decides the type of the results, not their
values beyond rounding, and leaves no trace."""
import numpy as np
from vt import gen, refs
from vt.mon import Skip

RULE = """Every case runs the same tracking, reconstruction or whole chain in
both precisions (and in sequences of switches) on inputs exact in single
precision and compares with the double precision model within a tolerance that
the model's own response to single precision rounding sets; types are compared
exactly, and results in double precision before and after an excursion must be
the same.  Distinct cases differ in route, shape, rf configuration or switching
sequence."""
ASSUMPTIONS = ['particles stay inside the bucket, where single precision rounding is not amplified exponentially',
               'CPU only: no GPU is present']

QUICK = 3
KINDS = {
    'track': ('plain', 200, 4000),
    'tomo': ('plain', 250, 5000),
    'native': ('plain', 150, 3000),
    'switch': ('plain', 150, 3000),
    'chain': ('plain', 40, 600),
}
F = np.float32


def single():
    import longitudinal_tomography as lt
    lt.set_single_precision()


def double():
    import longitudinal_tomography as lt
    lt.set_double_precision()


def guarded(fn):
    def go(case, rng, mon):
        try:
            fn(case, rng, mon)
        finally:
            double()
    return go


def inside(rng, i, **kw):
    kw.setdefault('max_turns', 500)
    kw.setdefault('smax', 0.4)
    kw.setdefault('maxphase', 6.0)
    k, info = gen.machine_kwargs(rng, ring=i, **kw)
    return gen.make_machine(k), k, info


def perturbed(m, d, e, p12, rec, amp):
    """The model and the response to roundings of every coefficient."""
    nt = m.dturns * (m.nprofiles - 1)
    c = [m.vrf1_at_turn * m.q, m.vrf2_at_turn * m.q, m.phi0, m.deltaE0, m.drift_coef]
    a = refs.track(d, e, *c, p12, m.h_ratio, m.dturns, rec, nt)
    k = np.arange(nt + 1)
    tx = ty = 0.0
    for f in (1.0, 2.3):
        b = refs.track(d * (1 + amp * np.sin(f * np.arange(len(d)))), e * (1 - amp),
                       *[x * (1 + amp * np.cos(f * k + j)) for j, x in enumerate(c)], p12, m.h_ratio, m.dturns, rec, nt)
        tx = max(tx, np.max(np.abs(a[0] - b[0])))
        ty = max(ty, np.max(np.abs(a[1] - b[1])))
    return a, tx, ty


@guarded
def run_track(case, rng, mon):
    from longitudinal_tomography.tracking.tracking import Tracking
    m, kw, info = inside(rng, case['i'])
    if case['i'] % 3 == 0:
        m.phi12 = kw['phi12'] + 0.3 * rng.uniform(-1, 1, len(m.phi0))
    n = int(rng.integers(1, 200))
    d, e = gen.distribution(rng, m, info, n, spread=0.5)
    d, e = d.astype(F).astype(float), e.astype(F).astype(float)
    rec = int(rng.integers(m.nprofiles - 1))
    want, tx, ty = perturbed(m, d, e, m.phi12, rec, 1e-6)
    sx, sy = 1 + np.max(np.abs(want[0])), np.max(np.abs(want[1])) + 1e-30
    if tx > 0.02 * sx or ty > 0.02 * sy:
        raise Skip('rounding is amplified')
    tr = Tracking(m)
    single()
    xp, yp = tr.track(rec, init_distr=(d, e))
    mon.check(xp.dtype == F and yp.dtype == F, 'type in single precision', got=str((xp.dtype, yp.dtype)))
    mon.check(tr.particles.coordinates_dphi_denergy[0].dtype == F, 'type of the particles')
    turns = m.dturns * (m.nprofiles - 1)
    grow = 20 + turns ** 0.5
    mon.close(xp, want[0], 'phase in single precision', rtol=0, atol=grow * (tx + 2e-7 * sx))
    mon.close(yp, want[1], 'energy in single precision', rtol=0, atol=grow * (ty + 2e-7 * sy))
    mon.state('track', info['ring'], m.nprofiles, m.dturns, rec, n, np.ndim(m.phi12))
    double()
    xd, yd = tr.track(rec, init_distr=(d, e))
    mon.check(xd.dtype == np.float64 and yd.dtype == np.float64, 'type in double precision')
    mon.close(xd / sx, want[0] / sx, 'phase after single precision', rtol=0, atol=1e-9)
    mon.close(yd / sy, want[1] / sy, 'energy after single precision', rtol=0, atol=1e-9)
    xd, yd = tr.track(rec, init_distr=(d.astype(F), e.astype(F)))
    mon.check(xd.dtype == np.float64 and yd.dtype == np.float64, 'type in double precision, particles given in single precision')
    mon.close(xd / sx, want[0] / sx, 'phase of particles given in single precision', rtol=0, atol=1e-9)
    mon.close(yd / sy, want[1] / sy, 'energy of particles given in single precision', rtol=0, atol=1e-9)
    mon.ev('coordinates_compared', 6 * xp.size)


def _tomo_case(rng):
    n, nprof, nb = int(rng.integers(5, 400)), int(rng.integers(2, 20)), int(rng.integers(2, 60))
    xp = np.clip(rng.normal(nb / 2, nb / 6, (n, nprof)), 0, nb - 1).astype(np.int32)
    wf = (refs.project(xp, rng.random(n), nprof, nb) + 0.02).astype(F).astype(float)
    niter = int(rng.integers(1, 8))
    return xp, wf, niter


def band(f, *args):
    """The model's result, and tolerances from roundings of single precision."""
    try:
        a = f(*args)
        b = f(*args, jitter=2e-7)
    except refs.Vanished:
        raise Skip('nothing is left')
    tol = [2e-5 * np.max(np.abs(u)) + 100 * np.max(np.abs(u - v), initial=0) for u, v in zip(a, b)]
    # discrepancies are differences of numbers of the size of a profile's bins
    tol[1:] = [x + 1e-5 * np.max(a[-1]) for x in tol[1:]]
    if tol[0] > 0.05 * a[0].max():
        raise Skip('the iteration amplifies rounding')
    return a, tol


@guarded
def run_tomo(case, rng, mon):
    from longitudinal_tomography.tomography.tomography import Tomography
    from longitudinal_tomography.tomography import tomography_multibunch as mb
    xp, wf, niter = _tomo_case(rng)
    nb = wf.shape[1]
    if case['i'] % 3 == 2:
        from vt.props.p11 import draw
        _, _, _, nb, c, cl, cr, xp, wf, niter = draw(rng, case['i'])
        it = np.int32 if case['i'] % 2 else np.int64
        c, cl, cr = c.astype(it), cl.astype(it), cr.astype(it)
        wf, niter = wf.astype(F).astype(float), min(niter, 6)
        want, tol = band(refs.reconstruct_multi, xp, wf, c, cl, cr, niter)

        def make():
            return mb.Tomography(wf, xp)

        def go(t):
            t.run(c, cl, cr, niter=niter)
            return np.array(t.weight_split), t.diff, t.diff_split, t.recreated
    else:
        want, tol = band(refs.reconstruct, xp, wf, niter)

        def make():
            return Tomography(wf, xp)

        def go(t):
            w = t.run(niter=niter)
            return w, t.diff, t.recreated
    td = make()
    before = go(td)
    single()
    t = make()
    mon.check(t.waterfall.dtype == F, 'type of the profiles in single precision')
    mon.check(t.xp.dtype == np.int32, 'type of the coordinates')
    mon.equal(t.xp, xp, 'coordinates in single precision')
    got = go(t)
    # (a native call with converted integers may be resolved to double)
    if case['i'] % 3 != 2 or case['i'] % 2:
        mon.check(np.asarray(got[0]).dtype == F, 'type of the weights in single precision', got=str(got[0].dtype))
        mon.check(np.asarray(t.recreated).dtype == F, 'type of the recreated profiles')
    for k, (g, w, x) in enumerate(zip(got, want, tol)):
        mon.close(g, w, f'result {k} in single precision', rtol=0, atol=x)
    # made in double precision, run in single precision
    again = go(td)
    for g, w in zip(again, before):
        s = np.max(np.abs(w)) or 1.0
        mon.close(np.asarray(g) / s, np.asarray(w) / s, 'object made in double precision', rtol=0,
                  atol=1e-7 if np.asarray(g).dtype == np.float64 else max(1e-4, 2 * tol[0] / want[0].max()))
    double()
    after = go(make())
    wf = wf.astype(F)           # the same values
    t = make()
    mon.check(t.waterfall.dtype == np.float64, 'type of the profiles in double precision', got=str(t.waterfall.dtype))
    for g, w in zip(go(t) + after, before + before):
        s = np.max(np.abs(w)) or 1.0
        mon.check(np.asarray(g).dtype == np.float64, 'type in double precision')
        mon.close(np.asarray(g) / s, np.asarray(w) / s, 'double precision before and after', rtol=0, atol=1e-7)
    mon.state('tomo', case['i'] % 3, xp.shape, nb, niter)


@guarded
def run_native(case, rng, mon):
    """Native routines that take either type."""
    from longitudinal_tomography.cpp_routines import libtomo
    xp, wf, niter = _tomo_case(rng)
    n, nprof = xp.shape
    nb = wf.shape[1]
    w = rng.random(n).astype(F)
    yp = rng.integers(nb, size=n).astype(np.int32)
    a = libtomo.make_phase_space(xp[:, 0].copy(), yp, w, nb)
    b = libtomo.make_phase_space(xp[:, 0].copy(), yp, w.astype(float), nb)
    want = refs.phase_space(xp[:, 0], yp, w.astype(float), nb)
    mon.check(np.asarray(a).dtype == F, 'image of single precision weights', got=str(np.asarray(a).dtype))
    mon.check(np.asarray(b).dtype == np.float64, 'image of double precision weights')
    mon.close(np.asarray(a), want, 'image in single precision', rtol=1e-5, atol=1e-6)
    mon.close(np.asarray(b), want, 'image in double precision', rtol=1e-12, atol=1e-12)
    cnt = refs.counts(xp, nprof, nb)
    for dt in (F, np.float64):
        parts = np.zeros(nprof * nb, dt)
        r = libtomo.count_particles_in_bins(parts, xp.flatten(), nprof, n, nb)
        mon.equal(np.asarray(r, float).reshape(nprof, nb), cnt, 'particle count')
    wn = refs.normalise(wf)
    res, tol = band(refs.reconstruct, xp, wf, niter)
    for dt in (F, np.float64):
        r = libtomo.reconstruct(xp, wn.astype(dt), niter, nb, n, nprof, False)
        for k, (g, x, t) in enumerate(zip(r, res, tol)):
            mon.check(k == 1 or np.asarray(g).dtype == dt, 'type of the native result')
            mon.close(np.asarray(g).reshape(x.shape), x, f'native result {k}', rtol=0, atol=t)
    mon.state('native', xp.shape, nb, niter)


@guarded
def run_switch(case, rng, mon):
    """Any sequence of switches ends in what the last one says."""
    import longitudinal_tomography as lt
    from longitudinal_tomography.utils import tomo_config as conf
    from longitudinal_tomography.tracking.tracking import Tracking
    from longitudinal_tomography.tomography.tomography import Tomography
    m, kw, info = inside(rng, case['i'], nprofiles=3, dturns=2, nbins=20)
    d, e = gen.distribution(rng, m, info, 10, spread=0.4)
    xp, wf, niter = _tomo_case(rng)
    band(refs.reconstruct, xp, wf, 2)
    first = Tracking(m).track(1, init_distr=(d, e))
    wfirst = Tomography(wf, xp).run(niter=2)
    cur = np.float64
    trace = ''
    for _ in range(int(rng.integers(2, 12))):
        op = int(rng.integers(6))
        trace += str(op)
        if op == 0:
            lt.set_single_precision()
            cur = F
        elif op == 1:
            lt.set_double_precision()
            cur = np.float64
        elif op == 2:
            lt.use_cpu()
        elif op == 3:
            (conf.AppConfig.set_single_precision if cur is np.float64 else conf.AppConfig.set_double_precision)()
            cur = F if cur is np.float64 else np.float64
        elif op == 4:
            g = Tracking(m).track(1, init_distr=(d, e))
            s = [np.max(np.abs(x)) for x in first]
            mon.check(g[0].dtype == cur and g[1].dtype == cur, 'type of the coordinates', got=str(g[0].dtype), want=str(cur))
            for x, y, k in zip(g, first, s):
                mon.close(x / k, y / k, 'coordinates', rtol=0, atol=1e-12 if cur is np.float64 else 1e-3)
        else:
            w = Tomography(wf, xp).run(niter=2)
            mon.check(w.dtype == cur, 'type of the weights', got=str(w.dtype), want=str(cur))
            mon.close(w / wfirst.max(), wfirst / wfirst.max(), 'weights', rtol=0, atol=1e-9 if cur is np.float64 else 0.1)
        mon.check(conf.AppConfig.get_precision() == cur, 'the setting itself')
        mon.check(not conf.AppConfig.is_gpu_enabled(), 'no GPU was asked for')
        a = conf.cast(rng.random((2, 3)))
        mon.check(isinstance(a, np.ndarray) and a.dtype == cur, 'cast', got=str(a.dtype))
        ints = conf.cast([1, 2, 3])
        mon.check(ints.dtype == cur and ints.tolist() == [1, 2, 3], 'cast of numbers')
        mon.ev('operations')
    # casting makes a copy
    src = rng.random(4).astype(cur)
    c = conf.cast(src)
    keep = src.copy()
    c[:] = 0
    mon.equal(src, keep, 'cast copies')
    mon.state('switch', trace)


@guarded
def run_chain(case, rng, mon):
    """Machine to phase space image in both precisions."""
    from longitudinal_tomography.tracking.tracking import Tracking
    from longitudinal_tomography.tracking import particles as pts
    from longitudinal_tomography.tomography.tomography import Tomography
    from longitudinal_tomography.data import data_treatment as dtreat
    m, kw, info = gen.bucket_machine(rng, nprofiles=int(rng.integers(4, 12)), nbins=int(rng.integers(20, 40)),
                                     dturns=int(gen.pick(rng, [1, 3, 8])), max_turns=200, maxphase=4.0, vdot=False)
    m.snpt = 2
    rec = int(rng.integers(m.nprofiles - 1))
    x = np.arange(m.nbins)
    wf = np.array([np.clip(1 - ((x - m.synch_part_x) / (m.nbins / 3.5)) ** 2, 0, None) for _ in range(m.nprofiles)]) + 1e-3

    def chain():
        tr = Tracking(m)
        a, b = tr.track(rec)
        cx, cy = pts.physical_to_coords(a, b, m, tr.particles.xorigin, tr.particles.dEbin)
        cx, cy = pts.ready_for_tomography(cx, cy, m.nbins)
        t = Tomography(wf, cx, cy)
        t.run(niter=4)
        im = dtreat.phase_space(t, m, rec)[2]
        return a, b, t, np.asarray(im, float)
    a1, b1, t1, i1 = chain()
    single()
    a2, b2, t2, i2 = chain()
    mon.check(a2.dtype == F and t2.weight.dtype == F, 'types in single precision')
    mon.check(a2.shape == a1.shape, 'number of particles', got=str(a2.shape), want=str(a1.shape))
    mon.close(a2, a1, 'phases', rtol=0, atol=2e-2)
    mon.close(b2 / np.max(np.abs(b1)), b1 / np.max(np.abs(b1)), 'energies', rtol=0, atol=2e-2)
    # a few particles may fall on the other side of a bin's edge or of the image's
    mon.check(abs(t2.nparts - t1.nparts) <= 3 + 0.02 * t1.nparts, 'particles kept', got=t2.nparts, want=t1.nparts)
    mon.check(np.abs(i2 - i1).sum() <= 0.25 * np.abs(i1).sum(), 'image', got=float(np.abs(i2 - i1).sum()), want=float(np.abs(i1).sum()))
    mon.close(np.abs(np.asarray(t2.recreated, float) - t1.recreated).sum(axis=1), np.zeros(m.nprofiles), 'recreated profiles',
              atol=0.1)
    double()
    a3, b3, t3, i3 = chain()
    mon.equal(a3, a1, 'phases after single precision')
    mon.close(t3.weight / t1.weight.max(), t1.weight / t1.weight.max(), 'weights after single precision', rtol=0, atol=1e-7)
    mon.state('chain', info['ring'], m.nbins, m.nprofiles, rec)
