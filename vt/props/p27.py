"""P27: the GPU route gives what the CPU route gives."""
import numpy as np
from vt import gen, refs
from vt.mon import Skip
from vt.props.p18 import band, inside, perturbed

RULE = """The repository compiles its own kernels (through its own routine) for
an emulated device: every thread of a block is a thread of the host, device
arrays cannot be mixed with host arrays, kernel arguments travel with the sizes
CuPy gives them, memory that was not written holds rubbish, and the kernels run
under AddressSanitizer and UndefinedBehaviorSanitizer or ThreadSanitizer.  Cases
switch to the device in either order with the precision, track, reconstruct and
make images with particle, profile and bin numbers around multiples of the
block size and of the reduction, in both precisions, and compare with the
models that decide the CPU route; sequences of switches between device, CPU and
precision end in what the last ones say; missing kernels are compiled when the
device is taken into use, in a copy of the package and with a compiler that
records its calls, is missing or fails.  Distinct cases differ in route, shape,
rf configuration, precision, block size or sequence of switches."""
ASSUMPTIONS = ['the device is emulated (no GPU is present): CuPy and nvcc are stand-ins of this framework (vt/gpu), which pass the GPU tests of the repository',
               'no self-fields (not offered on the GPU); progress callbacks are not sent by the GPU routines']
F = np.float32

QUICK = 1
KINDS = {
    'track': ('gpu', 90, 1500, {'block': 32}),
    'track64': ('gpu', 40, 600, {'block': 64}),
    'tomo': ('gpu', 90, 1500, {'block': 32}),
    'tomo5': ('gpu', 30, 500, {'block': 5}),
    'image': ('gpu', 60, 800, {'block': 32}),
    'chain': ('gpu', 16, 200, {'block': 32}),
    'switch': ('gpu', 40, 600, {'block': 16}),
    'vector': ('gpu', 60, 800, {'block': 32}),
    'dead': ('gpu', 16, 200, {'block': 32}),
    'compile': ('gpu', 9, 9, {'block': 32}),
    'race': ('gpurace', 40, 500, {'block': 32}),
}


def gpu(on=True):
    from longitudinal_tomography.utils import tomo_config as conf
    (conf.AppConfig.use_gpu if on else conf.AppConfig.use_cpu)()


def precision(single):
    from longitudinal_tomography.utils import tomo_config as conf
    (conf.AppConfig.set_single_precision if single else conf.AppConfig.set_double_precision)()


def guarded(fn):
    def go(case, rng, mon):
        import cupy
        before = cupy.RawKernel.launches, cupy.RawKernel.threads
        try:
            fn(case, rng, mon)
        finally:
            gpu(False)
            precision(False)
        mon.ev('kernel_launches', cupy.RawKernel.launches - before[0])
        mon.ev('device_threads', cupy.RawKernel.threads - before[1])
    return go


def enter(rng, single):
    """On the device with the precision, in either order."""
    k = int(rng.integers(3))
    if k == 0:
        precision(single)
        gpu()
    elif k == 1:
        gpu()
        precision(single)
    else:
        gpu()
        gpu(False)
        precision(single)
        gpu()
    return k


def here(mon, a, what, single=None):
    """A device array, brought home."""
    import cupy
    mon.check(isinstance(a, cupy.ndarray), f'{what}: not on the device', got=str(type(a)))
    if single is not None:
        mon.check(a.dtype == (F if single else np.float64), f'{what}: type', got=str(a.dtype))
    return a.get()


SIZES = [1, 2, 3, 5, 15, 16, 17, 31, 32, 33, 63, 64, 65, 95, 96, 97, 128, 160, 161]


@guarded
def run_track(case, rng, mon):
    from longitudinal_tomography.tracking.tracking import Tracking
    m, kw, info = inside(rng, case['i'], max_turns=150)
    arr = case['i'] % 3 == 0
    if arr:
        m.phi12 = kw['phi12'] + 0.3 * rng.uniform(-1, 1, len(m.phi0))
    if case['i'] % 5 == 1 and m.h_ratio == int(m.h_ratio):
        m.h_ratio = int(m.h_ratio)
    n = SIZES[case['i'] % len(SIZES)]
    d, e = gen.distribution(rng, m, info, n, spread=0.5)
    d, e = d.astype(F).astype(float), e.astype(F).astype(float)
    rec = int(rng.integers(m.nprofiles - 1))
    single = bool(rng.integers(2))
    want, tx, ty = perturbed(m, d, e, m.phi12, rec, 1e-6)
    sx, sy = 1 + np.max(np.abs(want[0])), np.max(np.abs(want[1])) + 1e-30
    if tx > 0.02 * sx or ty > 0.02 * sy:
        raise Skip('rounding is amplified')
    how = enter(rng, single)
    import cupy
    src = (cupy.array(d), cupy.array(e)) if case['i'] % 2 else (d.copy(), e.copy())
    tr = Tracking(m)
    for again in range(1 + case['i'] % 2):
        xp, yp = tr.track(rec, init_distr=src)
        x, y = here(mon, xp, 'phases', single), here(mon, yp, 'energies', single)
        if single:
            grow = 20 + (m.dturns * (m.nprofiles - 1)) ** 0.5
            mon.close(x, want[0], 'phase on the device, single precision', rtol=0, atol=grow * (tx + 2e-7 * sx))
            mon.close(y, want[1], 'energy on the device, single precision', rtol=0, atol=grow * (ty + 2e-7 * sy))
        else:
            mon.close(x / sx, want[0] / sx, 'phase on the device', rtol=0, atol=1e-9)
            mon.close(y / sy, want[1] / sy, 'energy on the device', rtol=0, atol=1e-9)
    for a, b in zip(src, (d, e)):
        mon.equal(cupy.asnumpy(a), b, 'initial distribution left alone')
    mon.ev('coordinates_compared', 2 * x.size)
    mon.state('track', info['ring'], m.nprofiles, m.dturns, rec, n, arr, single, how, m.vrf2 > 0)


run_track64 = run_track


def draw(rng, i):
    n = SIZES[i % len(SIZES)]
    nprof = int(gen.pick(rng, [1, 2, 3, 7, 16, 31, 32, 33, 64, 65, 100]))
    nb = int(gen.pick(rng, [1, 2, 3, 8, 16, 31, 32, 33, 64, 65]))
    if i % 6 == 5:       # more profiles than one pass of the reduction takes
        nprof, n, nb = int(gen.pick(rng, [511, 512, 513, 700, 1024, 1025])), int(gen.pick(rng, [3, 20])), int(gen.pick(rng, [2, 8]))
    niter = int(gen.pick(rng, [0, 1, 2, 4]))
    xp = np.clip(rng.normal(nb / 2, nb / 5, (n, nprof)), 0, nb - 1).astype(np.int32)
    wf = (refs.project(xp, 0.2 + rng.random(n), nprof, nb) + 0.02).astype(F).astype(float)
    if i % 4 == 1:
        wf -= 0.1 * wf.max()
        wf[:, nb // 2] += wf.max()
        wf = wf.astype(F).astype(float)
    return n, nprof, nb, niter, xp, wf


@guarded
def run_tomo(case, rng, mon):
    from longitudinal_tomography.tomography.tomography import Tomography
    n, nprof, nb, niter, xp, wf = draw(rng, case['i'])
    single = bool(rng.integers(2))
    try:
        if single:
            want, tol = band(refs.reconstruct, xp, wf, niter)
        else:
            want, tol = refs.conditioned(xp, wf, niter)
    except refs.Vanished:
        raise Skip('vanishes')
    how = enter(rng, single)
    import cupy
    given = cupy.array(xp) if case['i'] % 2 else xp.copy()
    w0 = cupy.array(wf) if case['i'] % 3 == 0 else wf.copy()
    t = Tomography(w0, given)
    mon.equal(here(mon, t.xp, 'coordinates'), xp, 'coordinates on the device')
    mon.check(t.xp.dtype == np.int32, 'type of the coordinates', got=str(t.xp.dtype))
    for again in range(1 + case['i'] % 2):
        w = t.run(niter=niter)
        mon.close(here(mon, w, 'weights', single), want[0], 'weights on the device', rtol=0, atol=tol[0])
        mon.close(here(mon, t.weight, 'weights', single), want[0], 'kept weights', rtol=0, atol=tol[0])
        mon.check(np.shape(t.diff) == (niter + 1,), 'one discrepancy per iteration and the final one')
        mon.close(cupy.asnumpy(t.diff), want[1], 'discrepancies on the device', rtol=0, atol=tol[1])
        mon.close(here(mon, t.recreated, 'recreated profiles', single).reshape(nprof, nb), want[2], 'recreated profiles on the device',
                  rtol=0, atol=tol[2])
    mon.equal(cupy.asnumpy(given), xp, 'coordinates left alone')
    mon.equal(cupy.asnumpy(w0), wf, 'waterfall left alone')
    mon.ev('weights_compared', n)
    mon.state('tomo', n, nprof, nb, niter, single, how)


run_tomo5 = run_tomo


@guarded
def run_dead(case, rng, mon):
    """No weight survives: refused as on the CPU, and the object still works."""
    from longitudinal_tomography.tomography.tomography import Tomography
    n, nprof, nb = SIZES[case['i'] % len(SIZES)], int(gen.pick(rng, [1, 2, 7, 33])), int(gen.pick(rng, [2, 8, 33]))
    xp = rng.integers(0, nb // 2, size=(n, nprof)).astype(np.int32)
    wf = np.zeros((nprof, nb))
    wf[:, nb // 2:] = 0.1 + rng.random((nprof, nb - nb // 2))
    single = bool(rng.integers(2))
    niter = int(rng.integers(0, 4))
    mon.raises(RuntimeError, lambda: Tomography(wf, xp).run(niter=niter), 'no weight left, CPU')
    how = enter(rng, single)
    t = Tomography(wf, xp)
    mon.raises(RuntimeError, lambda: t.run(niter=niter), 'no weight left, device')
    import cupy
    good = (refs.project(xp, 0.2 + rng.random(n), nprof, nb) + 0.05).astype(F).astype(float)
    want, tol = band(refs.reconstruct, xp, good, 1)
    w = Tomography(good, cupy.array(xp)).run(niter=1)
    mon.close(here(mon, w, 'weights', single), want[0], 'weights after a refusal', rtol=0, atol=tol[0])
    mon.state('dead', n, nprof, nb, niter, single, how)


@guarded
def run_image(case, rng, mon):
    from longitudinal_tomography.utils import tomo_config as conf
    from longitudinal_tomography.tracking import particles as pts
    from longitudinal_tomography import exceptions as ex
    import cupy
    n, nb = SIZES[case['i'] % len(SIZES)], int(gen.pick(rng, [1, 2, 7, 32, 33, 100]))
    x, y = rng.integers(nb, size=(2, n)).astype(np.int32)
    if case['i'] % 3 == 0:
        x, y = x // 4, y // 4
    w = rng.random(n).astype(F).astype(float)
    single = bool(rng.integers(2))
    how = enter(rng, single)
    want = refs.phase_space(x, y, w, nb)
    got = conf.make_phase_space(cupy.array(x), cupy.array(y), conf.cast(w), nb)
    mon.check(isinstance(got, np.ndarray), 'the image comes home', got=str(type(got)))
    mon.close(got, want, 'image', rtol=1e-5 if single else 1e-12, atol=1e-5 if single else 1e-12)
    # physical coordinates to bins, and particles that left the image
    m, kw, info = inside(rng, case['i'], max_turns=100)
    dphi, dE = rng.uniform(-2, 2, (m.nprofiles, n)), rng.uniform(-1, 1, (m.nprofiles, n)) * 1e5
    xo, deb = float(rng.uniform(-5, 5)), 10.0 ** rng.uniform(2, 4)
    cx, cy = pts.physical_to_coords(conf.cast(dphi), conf.cast(dE), m, xo, deb)
    t = np.arange(m.nprofiles) * m.dturns
    wx = (dphi + m.phi0[t][:, None]) / (m.h_num * m.omega_rev0[t][:, None] * m.dtbin) - xo
    wy = dE / deb + m.synch_part_y
    tol = 3e-6 if single else 1e-12
    mon.close(here(mon, cx, 'bins'), wx, 'bins of the phases', rtol=0, atol=tol * (1 + np.abs(wx).max() + abs(xo)) * 10)
    mon.close(here(mon, cy, 'bins'), wy, 'bins of the energies', rtol=0, atol=tol * (1 + np.abs(wy).max()))
    b = rng.uniform(-2, nb + 2, (3, n)) if case['i'] % 2 else rng.uniform(0, nb, (3, n))
    b[:, rng.random(n) < 0.5] = 0.25
    b = b.astype(F).astype(float)
    ok = np.all((b >= 0) & (b < nb), axis=0)
    yb = (b + 100).astype(F).astype(float)
    args = conf.cast(b), conf.cast(yb), nb
    if not ok.any():
        mon.raises(ex.InvalidParticleError, lambda: pts.ready_for_tomography(*args), 'no particle left')
    else:
        fx, fy, lost = pts.filter_lost(*args)
        mon.check(int(lost) == int((~ok).sum()), 'number of lost particles', got=int(lost), want=int((~ok).sum()))
        mon.equal(here(mon, fx, 'kept'), b[:, ok], 'kept particles')
        gx, gy = pts.ready_for_tomography(*args)
        mon.equal(here(mon, gx, 'kept'), b[:, ok].astype(np.int32).T, 'kept bins')
        mon.equal(here(mon, gy, 'kept'), yb[:, ok].astype(np.int32).T, 'kept energy bins')
        mon.check(gx.dtype == np.int32, 'type of the bins')
    mon.state('image', n, nb, single, how, bool(ok.all()))


@guarded
def run_chain(case, rng, mon):
    """Machine to phase space image on either device."""
    from longitudinal_tomography.tracking.tracking import Tracking
    from longitudinal_tomography.tracking import particles as pts
    from longitudinal_tomography.tomography.tomography import Tomography
    from longitudinal_tomography.data import data_treatment as dtreat
    import cupy
    m, kw, info = gen.bucket_machine(rng, nprofiles=int(rng.integers(3, 6)), nbins=int(rng.integers(12, 20)),
                                     dturns=int(gen.pick(rng, [1, 3, 8])), max_turns=100, maxphase=4.0, vdot=False)
    m.snpt = 2
    rec = int(rng.integers(m.nprofiles - 1))
    x = np.arange(m.nbins)
    wf = np.array([np.clip(1 - ((x - m.synch_part_x) / (m.nbins / 3.5)) ** 2, 0, None) for _ in range(m.nprofiles)]) + 1e-3

    def chain(dev):
        tr = Tracking(m)
        a, b = tr.track(rec)
        cx, cy = pts.physical_to_coords(a, b, m, tr.particles.xorigin, tr.particles.dEbin)
        # particles on the edge of a bin may fall on either side
        if dev:
            cx = conf_round(cx)
        else:
            cx = np.asarray(cx) + 1e-6
        px, py = pts.ready_for_tomography(cx, cy, m.nbins)
        t = Tomography(wf, px, py)
        t.run(niter=2)
        im = dtreat.phase_space(t, m, rec)
        return [cupy.asnumpy(v) for v in (a, b, px, py, t.weight, t.diff, t.recreated)] + [np.asarray(v, float) for v in im]

    def conf_round(v):
        return v + 1e-6
    want = chain(False)
    enter(rng, False)
    got = chain(True)
    gpu(False)
    sx, sy = 1 + np.abs(want[0]).max(), np.abs(want[1]).max()
    mon.close(got[0] / sx, want[0] / sx, 'phases', rtol=0, atol=1e-9)
    mon.close(got[1] / sy, want[1] / sy, 'energies', rtol=0, atol=1e-9)
    if np.array_equal(got[2], want[2]) and np.array_equal(got[3], want[3]):
        for k, nm in ((4, 'weights'), (5, 'discrepancies'), (6, 'recreated profiles'), (7, 'times'), (8, 'energies'), (9, 'image')):
            s = np.abs(want[k]).max() or 1.0
            mon.close(got[k].reshape(want[k].shape) / s, want[k] / s, f'{nm} of the chain', rtol=0, atol=1e-6)
        mon.ev('chains_compared')
    else:
        mon.check(abs(got[2].shape[0] - want[2].shape[0]) <= 3 and got[3].shape == got[2].shape, 'particles kept')
        mon.ev('chains_with_another_bin')
    mon.state('chain', info['ring'], m.nbins, m.nprofiles, rec)


@guarded
def run_switch(case, rng, mon):
    """Any sequence of switches ends in what the last ones say."""
    from longitudinal_tomography.utils import tomo_config as conf
    from longitudinal_tomography.tracking.tracking import Tracking
    from longitudinal_tomography.tomography.tomography import Tomography
    import cupy
    import longitudinal_tomography as lt

    def gpu(on=True):        # both public ways to choose
        A = lt if rng.integers(2) else conf.AppConfig
        (A.use_gpu if on else A.use_cpu)()

    def precision(single):
        A = lt if rng.integers(2) else conf.AppConfig
        (A.set_single_precision if single else A.set_double_precision)()

    m, kw, info = inside(rng, case['i'], nprofiles=3, dturns=2, nbins=20, dual=True)
    d, e = gen.distribution(rng, m, info, 7, spread=0.4)
    want, tx, ty = perturbed(m, d, e, m.phi12, 1, 1e-6)
    n, nprof, nb, niter, xp, wf = 12, 4, 6, 2, None, None
    xp = rng.integers(nb, size=(n, nprof)).astype(np.int32)
    wf = (refs.project(xp, 0.2 + rng.random(n), nprof, nb) + 0.1).astype(F).astype(float)
    wt, tol = band(refs.reconstruct, xp, wf, niter)
    dev = single = False
    trace = ''
    for _ in range(int(rng.integers(3, 10))):
        op = int(rng.integers(6))
        trace += str(op)
        if op == 0:
            precision(True)
            single = True
        elif op == 1:
            precision(False)
            single = False
        elif op == 2:
            gpu(False)
            dev = False
        elif op == 3:
            gpu()
            dev = True
        A = conf.AppConfig
        mon.check(A.is_gpu_enabled() == dev, 'the device in use')
        mon.check(A.get_precision() == (F if single else np.float64), 'the precision in use')
        mon.check(conf.device == ('GPU' if dev else 'CPU'), 'name of the device', got=str(conf.device))
        c = conf.cast(rng.random(3))
        mon.check(isinstance(c, cupy.ndarray if dev else np.ndarray) and c.dtype == (F if single else np.float64), 'cast', got=str(type(c)))
        if op >= 4 or trace[-2:-1] in '0123':
            a, b = Tracking(m).track(1, init_distr=(d, e))
            mon.check(isinstance(a, cupy.ndarray) == dev, 'where the coordinates are')
            mon.check(a.dtype == (F if single else np.float64), 'type of the coordinates', got=str(a.dtype))
            for g, q, s in zip((a, b), want, (tx, ty)):
                k = 1 + np.abs(q).max() if q is want[0] else np.abs(q).max()
                mon.close(cupy.asnumpy(g) / k, q / k, 'coordinates', rtol=0, atol=(30 * (s / k + 2e-7)) if single else 1e-9)
            t = Tomography(wf, xp)
            w = t.run(niter=niter)
            mon.check(isinstance(w, cupy.ndarray) == dev, 'where the weights are')
            mon.close(cupy.asnumpy(w), wt[0], 'weights', rtol=0, atol=tol[0])
            mon.ev('operations')
    mon.state('switch', trace)


@guarded
def run_vector(case, rng, mon):
    """The routines written with array operations of the device."""
    import cupy
    gpu()
    from longitudinal_tomography.python_routines import kick_and_drift_cupy as kd, reconstruct_cupy as rc
    if case['i'] % 2:
        m, kw, info = inside(rng, case['i'], max_turns=60)
        n = int(rng.integers(1, 60))
        d, e = gen.distribution(rng, m, info, n, spread=0.5)
        rec = int(rng.integers(m.nprofiles - 1))
        nt = m.dturns * (m.nprofiles - 1)
        p12 = kw['phi12'] + (0.3 * rng.uniform(-1, 1, nt + 1) if case['i'] % 3 else 0.0)
        c = [m.vrf1_at_turn * m.q, m.vrf2_at_turn * m.q, m.phi0, m.deltaE0, m.drift_coef]
        want = refs.track(d, e, *c, p12, m.h_ratio, m.dturns, rec, nt)
        xp, yp = cupy.zeros((m.nprofiles, n)), cupy.zeros((m.nprofiles, n))
        kd.kick_and_drift_cupy(xp, yp, cupy.array(e), cupy.array(d), *c, cupy.array(p12) if np.ndim(p12) else float(p12), m.h_ratio,
                               m.dturns, rec, 0, nt, n, False, None)
        sx, sy = 1 + np.abs(want[0]).max(), np.abs(want[1]).max() + 1e-30
        mon.close(here(mon, xp, 'phases') / sx, want[0] / sx, 'phases by array operations', rtol=0, atol=1e-9)
        mon.close(here(mon, yp, 'energies') / sy, want[1] / sy, 'energies by array operations', rtol=0, atol=1e-9)
        # single kicks and drifts, and the two in one
        t, ph = int(rng.integers(1, nt + 1)), float(np.broadcast_to(p12, nt + 1)[0])
        v1, v2, f0, dE0, dc = (float(a[t]) for a in c[:4] + [np.append(c[4], c[4][-1])])
        kick = lambda x: v1 * np.sin(x + f0) + v2 * np.sin(m.h_ratio * (x + f0 - ph)) - dE0
        ka = (v1, v2, f0, ph, m.h_ratio, n, dE0)
        one = [('drift_up', (dc, n), lambda: d - dc * e, None), ('drift_down', (dc, n), lambda: d + dc * e, None),
               ('kick_up', ka, None, lambda: e + kick(d)), ('kick_down', ka, None, lambda: e - kick(d))]
        for name, args, wd, we in one:
            gd, ge = cupy.array(d), cupy.array(e)
            r = getattr(kd, name)(gd, ge, *args)
            mon.close(here(mon, r, name) / (sx if wd else sy), (wd or we)() / (sx if wd else sy), name, rtol=0, atol=1e-10)
            mon.close(cupy.asnumpy(gd) / sx, (wd() if wd else d) / sx, f'phases after {name}', rtol=0, atol=1e-10)
            mon.close(cupy.asnumpy(ge) / sy, (we() if we else e) / sy, f'energies after {name}', rtol=0, atol=1e-10)
        up = kd.kick_drift_up_simultaneously(cupy.array(d), cupy.array(e), dc, *ka)
        d1 = d - dc * e
        mon.close(cupy.asnumpy(up[0]) / sx, d1 / sx, 'one turn up: phases', rtol=0, atol=1e-10)
        mon.close(cupy.asnumpy(up[1]) / sy, (e + kick(d1)) / sy, 'one turn up: energies', rtol=0, atol=1e-10)
        dn = kd.kick_drift_down_simultaneously(*up, dc, *ka)
        mon.close(cupy.asnumpy(dn[0]) / sx, d / sx, 'and down again: phases', rtol=0, atol=1e-9)
        mon.close(cupy.asnumpy(dn[1]) / sy, e / sy, 'and down again: energies', rtol=0, atol=1e-9)
        mon.state('vector track', info['ring'], m.nprofiles, m.dturns, rec, n, np.ndim(p12))
    else:
        n, nprof, nb, niter, xp, wf = draw(rng, case['i'])
        try:
            want, tol = refs.conditioned(xp, wf, niter)
        except refs.Vanished:
            raise Skip('vanishes')
        wn = refs.normalise(np.clip(wf, 0, None))
        w, diff, r = rc.reconstruct_cupy(cupy.array(xp), cupy.array(wn), niter, nb, n, nprof)
        mon.close(here(mon, w, 'weights'), want[0], 'weights by array operations', rtol=0, atol=tol[0])
        mon.close(cupy.asnumpy(diff), want[1], 'discrepancies by array operations', rtol=0, atol=tol[1])
        mon.close(here(mon, r, 'recreated').reshape(nprof, nb), want[2], 'recreated profiles by array operations', rtol=0, atol=tol[2])
        mon.state('vector tomo', n, nprof, nb, niter)


COMPILE = r"""
import json, os, sys
from vt import env
env.install(sys.argv[1])
import builtins
from longitudinal_tomography.utils import tomo_config as conf
from longitudinal_tomography import cuda_kernels, exceptions
how, log = sys.argv[2], sys.argv[3]
here = os.path.dirname(cuda_kernels.__file__)
calls = lambda: open(log).read().count('\n') if os.path.exists(log) else 0
out = dict(before=sorted(f for f in os.listdir(here) if f.endswith('.cubin')), checked=bool(cuda_kernels.check_compiled_kernels()))
A = conf.AppConfig
def use():
    try:
        A.use_gpu()
        return 'gpu'
    except exceptions.CudaCompilationException:
        return 'CudaCompilationException'
out['use'] = use()
out['enabled'] = bool(A.is_gpu_enabled())
out['calls'] = calls()
if out['use'] == 'gpu':
    A.compile_kernels()
    A.set_single_precision(); A.set_double_precision(); A.use_cpu(); A.use_gpu()
    out['again'] = calls()
    A.compile_kernels(force=True)
    out['forced'] = calls()
    from longitudinal_tomography.data import data_treatment as dt
    import cupy
else:
    out['repeated'] = use()
    from longitudinal_tomography.tomography.tomography import Tomography
    import numpy as np
    t = Tomography(np.ones((2, 4)) + np.eye(2, 4), np.array([[0, 1], [1, 2], [2, 3], [3, 0]]))
    t.run(2)
    out['cpu'] = bool(np.all(np.isfinite(t.weight)))
    os.environ['CUDA_PATH'] = sys.argv[4]
    out['repaired'] = use()
out['after'] = sorted(f for f in os.listdir(here) if f.endswith('.cubin'))
print('RESULT ' + json.dumps(out), flush=True)
os._exit(0)
"""


def run_compile(case, rng, mon):
    """A copy of the package whose kernels are complete, partly there or missing."""
    import json
    import os
    import shutil
    import subprocess
    import sys
    tree = os.path.join(os.path.dirname(case['so']), 'tree')
    d = os.path.join(case['scratch'], f"compile{case['i']}")
    shutil.copytree(tree, os.path.join(d, 'tree'))
    ker, src = (os.path.join(t, 'longitudinal_tomography', 'cuda_kernels') for t in (os.path.join(d, 'tree'), tree))
    names = sorted(f for f in os.listdir(src) if f.endswith('.cubin'))
    mon.check(len(names) == 4, 'compiled kernels', got=names)
    log = os.path.join(d, 'log')
    good, bad, none = (os.path.join(d, k) for k in ('good', 'bad', 'none'))
    for k, body in ((good, 'o=; for a; do [ "$p" = -o ] && o="$a"; p="$a"; done; cp "%s/$(basename "$o")" "$o"' % src), (bad, 'exit 1')):
        os.makedirs(os.path.join(k, 'bin'))
        f = os.path.join(k, 'bin', 'nvcc')
        with open(f, 'w') as o:
            o.write('#!/bin/sh\necho "$@" >> "%s"\n%s\n' % (log, body))
        os.chmod(f, 0o755)
    how = ['all', 'none', 'fail', 'absent', 'path', 'part', 'part', 'part', 'part'][case['i'] % 9]
    drop = {'all': [], 'part': [names[(case['i'] % 9 - 5) % 4]]}.get(how, names)
    for f in drop:
        os.unlink(os.path.join(ker, f))
    e = dict(os.environ, VT_REPO=os.path.join(d, 'tree'), CUDA_PATH={'fail': bad, 'absent': none, 'path': ''}.get(how, good))
    if how == 'path':
        e['PATH'] = os.path.join(good, 'bin') + ':' + e.get('PATH', '')
    p = subprocess.run([sys.executable, '-c', COMPILE, case['so'], how, log, good], env=e, cwd=d, text=True, errors='replace',
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
    line = [s for s in p.stdout.splitlines() if s.startswith('RESULT ')]
    mon.check(len(line) == 1, f'{how}: ends', got=p.stdout[-300:])
    r = json.loads(line[0][7:])
    mon.check(r['before'] == sorted(set(names) - set(drop)) and r['checked'] == (not drop), f'{how}: kernels found', got=r)
    mon.check(r['after'] == names, f'{how}: kernels afterwards', got=r)
    if how in ('fail', 'absent'):
        mon.check(r['use'] == r['repeated'] == 'CudaCompilationException', f'{how}: refused', got=r)
        mon.check(not r['enabled'] and r['cpu'], f'{how}: the CPU stays in use', got=r)
        mon.check(r['repaired'] == 'gpu', f'{how}: works with a compiler', got=r)
    else:
        mon.check(r['use'] == 'gpu' and r['enabled'], f'{how}: device in use', got=r)
        mon.check(r['calls'] == r['again'] and (r['calls'] > 0) == bool(drop), f'{how}: compiled when needed', got=r)
        mon.check(r['forced'] > r['again'], f'{how}: compiled when forced', got=r)
    shutil.rmtree(d)
    mon.state('compile', how, drop)


def run_race(case, rng, mon):
    if case['i'] % 3 == 0:
        run_track(case, rng, mon)
    else:
        run_tomo(case, rng, mon)
