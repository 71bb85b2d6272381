"""P01: the native library neither leaves its buffers nor depends on memory it
did not initialise, on any valid input or documented failure."""
import ctypes
import gc
import sys
import numpy as np
from vt import gen, refs

RULE = """The library is built with AddressSanitizer, UndefinedBehaviorSanitizer
and libstdc++ assertions; fresh memory is filled with 0x7f, so a value that was
never written shows up in the comparison with the models.  Cases call every
entry point with buffers of exactly the documented size, over a lattice of
particle, profile and bin numbers around size thresholds, in both precisions,
with every bin at the edges of the image occupied, and through the documented
failures (rejected coordinates, vanishing phase space, raising callbacks).  A
case is non-trivial if the library ran on at least one particle; distinct cases
differ in entry point, shape or outcome.  Repeated failing and succeeding calls
watch the allocator's books (bytes and objects handed out and not given back)
of an uninstrumented build for leaks."""
ASSUMPTIONS = ['the declared sizes match the buffers passed (the native entry points trust their caller)',
               'turn-by-turn arrays cover turns 0..nturns, as Machine provides them']

KINDS = {
    'track': ('asan', 240, 2500),
    'reconstruct': ('asan', 300, 2500),
    'pieces': ('asan', 160, 1500),
    'multi': ('asan', 200, 1500),
    'phase_space': ('asan', 120, 1500),
    'pipeline': ('asan', 48, 500),
    'failures': ('asan', 64, 600),
    'leak': ('plain', 20, 120),
}


def run_track(case, rng, mon):
    from longitudinal_tomography.cpp_routines import libtomo
    from vt.props import p03
    i = case['i']
    if i % 4 == 0:
        p03.run_single(case, rng, mon)
    elif i % 4 == 1:
        p03.run_wrappers(case, rng, mon)
    elif i % 4 == 2:
        p03.run_steps(dict(case, seed=case['seed'] % 29), rng, mon)
    p03.run_raw(case, rng, mon)
    mon.ev('native_calls')


def edges_xp(rng, n, nprof, nbins):
    xp = rng.integers(nbins, size=(n, nprof)).astype(np.int32)
    xp[rng.integers(n), :] = nbins - 1
    xp[rng.integers(n), :] = 0
    return xp


def run_reconstruct(case, rng, mon):
    from longitudinal_tomography.cpp_routines import libtomo
    n = gen.SIZES[(case['i'] * 3 + case['seed']) % len(gen.SIZES)]
    nprof = int(gen.pick(rng, [1, 2, 3, 5, 8, 17, 33]))
    nbins = int(gen.pick(rng, [1, 2, 3, 7, 16, 33, 64, 129]))
    niter = int(gen.pick(rng, [0, 1, 2, 5, 9]))
    if n * nprof > 20000:
        nprof = 3
    wf = gen.waterfall(rng, nprof, nbins, 1) + 1e-3
    wf /= wf.sum(axis=1, keepdims=True)
    xp = edges_xp(rng, n, nprof, nbins)
    single = case['i'] % 3 == 2
    dt, tol = (np.float32, 2e-3) if single else (np.float64, 1e-7)
    r = refs.both(mon, lambda: refs.reconstruct(xp, wf, niter),
                  lambda: libtomo.reconstruct(xp, wf.astype(dt), niter, nbins, n, nprof))
    if r is None:
        return mon.state('vanished', n, nprof, nbins, niter)
    (w, h, rec), (gw, gh, gr) = r
    mon.state('rec', n, nprof, nbins, niter, single)
    mon.ev('native_calls')
    s = max(w.max(), 1e-300)
    mon.close(gw / s, w / s, 'weights', rtol=0, atol=tol)
    mon.close(gh, h, 'discrepancy', rtol=tol, atol=tol)
    mon.close(gr, rec, 'recreated', rtol=0, atol=tol)


def run_pieces(case, rng, mon):
    """The building blocks used by the hybrid routines, and the wrappers."""
    from longitudinal_tomography.cpp_routines import libtomo, tomolib_wrappers as tw
    n = gen.SIZES[(case['i'] * 3 + case['seed']) % len(gen.SIZES)]
    nprof = int(gen.pick(rng, [1, 2, 3, 8]))
    nbins = int(gen.pick(rng, [1, 2, 3, 16, 65]))
    xp = edges_xp(rng, n, nprof, nbins)
    flat = (xp + nbins * np.arange(nprof)[None, :]).astype(np.int32)
    wf = rng.random((nprof, nbins))
    w = rng.random(n)
    mon.state('pieces', n, nprof, nbins)
    for lib in (libtomo, tw):
        r = lib.project(np.zeros((nprof, nbins)), flat, w.copy(), n, nprof, nbins)
        mon.close(r, refs.project(xp, w, nprof, nbins), 'projection', rtol=1e-10, atol=1e-12)
        b = lib.back_project(w.copy(), flat, wf.flatten(), n, nprof)
        mon.close(b, w + refs.back(xp, wf), 'back projection', rtol=1e-10, atol=1e-12)
        mon.ev('native_calls', 2)
    for dt in (np.float64, np.float32):
        c = libtomo.count_particles_in_bins(np.zeros((nprof, nbins), dt), xp, nprof, n, nbins)
        mon.close(np.reshape(c, (nprof, nbins)), refs.counts(xp, nprof, nbins), 'particle count', rtol=0, atol=0)
        cen = np.array([0, 1, -1, nbins, -nbins, 3], np.int32)[:int(rng.integers(1, 7))]
        c = libtomo.count_particles_in_bins_multi(np.zeros((nprof, nbins), dt), xp, cen, nprof, n, nbins, len(cen))
        want = np.zeros((nprof, nbins))
        for k in cen:
            for p in range(nprof):
                s = xp[:, p] + k
                want[p] += np.bincount(s[(s >= 0) & (s < nbins)], minlength=nbins)
        mon.close(np.reshape(c, (nprof, nbins)), want, 'particle count of several bunches', rtol=0, atol=0)
        mon.ev('native_calls', 2)


def run_multi(case, rng, mon):
    from longitudinal_tomography.cpp_routines import libtomo
    n = gen.SIZES[(case['i'] * 5 + case['seed']) % 30]
    nprof = int(gen.pick(rng, [1, 2, 3, 6]))
    w0 = int(gen.pick(rng, [3, 5, 8, 20]))
    nb = int(gen.pick(rng, [1, 2, 3, 4]))
    pad = int(rng.integers(0, 4))
    nbins = nb * (w0 + 2 + pad)
    niter = int(gen.pick(rng, [0, 1, 3, 6]))
    # bunch b occupies its own window; some particles leave the waterfall
    xp = rng.integers(0, w0, size=(n, nprof)).astype(np.int32)
    stray = rng.random(n) < 0.2
    xp[stray] = rng.integers(0, nbins, size=(int(stray.sum()), nprof))
    xp[0] = 1
    centers = np.array([b * (w0 + 2 + pad) for b in range(nb)], np.int32)
    cl = np.array([max(c - 1, -1) for c in centers], np.int32)
    cl = np.maximum(cl, 0)
    cr = np.minimum(centers + w0 + 1, nbins - 1).astype(np.int32)
    wf = rng.random((nprof, nbins)) + 1e-2
    wf /= wf.sum(axis=1, keepdims=True)
    dt = np.float32 if case['i'] % 3 == 2 else np.float64
    try:
        w, h, split, rec = libtomo.reconstruct_multi(xp, wf.astype(dt), cl, cr, centers, niter, nbins, n, nprof, nb)
    except RuntimeError:
        mon.ev('vanished')
        return mon.state('multi vanished', n, nprof, nbins, nb)
    mon.state('multi', n, nprof, nbins, nb, niter, str(dt))
    mon.ev('native_calls')
    mon.check(np.all(np.isfinite(w)) and np.all(w >= 0) and np.max(w) < 1e20, 'weights are finite and not negative', w=w)
    mon.check(np.all(np.isfinite(h)) and np.all(np.abs(h) <= 2), 'discrepancies are finite', h=h)
    mon.check(np.all(np.isfinite(split)) and np.all(np.abs(split) <= 2), 'discrepancies per bunch are finite', h=split)
    mon.close(np.reshape(rec, (nprof, nbins)).sum(axis=1), np.ones(nprof), 'recreated profiles are normalised',
              rtol=0, atol=1e-4 if dt == np.float32 else 1e-9)


def run_phase_space(case, rng, mon):
    from longitudinal_tomography.cpp_routines import libtomo
    n = ([0] + gen.SIZES)[(case['i'] + case['seed']) % (len(gen.SIZES) + 1)]
    nbins = int(gen.pick(rng, [1, 2, 3, 17, 64, 200]))
    x = rng.integers(nbins, size=n).astype(np.int32)
    y = rng.integers(nbins, size=n).astype(np.int32)
    if n:
        x[-1] = y[-1] = nbins - 1
        x[0] = y[0] = 0
    dt = np.float32 if case['i'] % 2 else np.float64
    w = rng.random(n)
    mon.state('ps', n, nbins, str(dt))
    ps = libtomo.make_phase_space(x, y, w.astype(dt), nbins)
    mon.close(ps, refs.phase_space(x, y, w, nbins), 'image', rtol=1e-4, atol=1e-6)
    mon.ev('native_calls')
    if n:
        for bad in (-1, nbins, nbins + 1, -nbins, nbins * nbins, 2 ** 31 - 1, -2 ** 31):
            for axis in (0, 1):
                c = [x.copy(), y.copy()]
                c[axis][int(rng.integers(n))] = bad
                mon.raises(IndexError, lambda: libtomo.make_phase_space(c[0], c[1], w.astype(dt), nbins),
                           f'coordinate {bad} on axis {axis} of an image with {nbins} bins')
                mon.ev('native_calls')


def run_pipeline(case, rng, mon):
    """A whole reconstruction through the public classes."""
    from longitudinal_tomography.tracking.tracking import Tracking
    from longitudinal_tomography.tracking import particles as pts
    from longitudinal_tomography.tomography.tomography import Tomography
    from longitudinal_tomography.data.data_treatment import phase_space
    from longitudinal_tomography import exceptions as ex
    m, kw, info = gen.bucket_machine(rng, ring=case['i'], nbins=int(gen.pick(rng, [20, 33, 50])),
                                     nprofiles=int(gen.pick(rng, [2, 5, 12])), dturns=int(gen.pick(rng, [1, 2, 6])))
    tr = Tracking(m)
    rec = int(rng.integers(m.nprofiles - 1))
    xp, yp = tr.track(rec)
    xp, yp = pts.physical_to_coords(xp, yp, m, tr.particles.xorigin, tr.particles.dEbin)
    try:
        xp, yp = pts.ready_for_tomography(xp, yp, m.nbins)
    except ex.InvalidParticleError:
        mon.ev('all_lost')
        return
    wf = gen.waterfall(rng, m.nprofiles, m.nbins, 0)
    t = Tomography(wf, xp, yp)
    t.run(niter=3)
    w1 = t.weight.copy()
    t.run_hybrid(niter=3)
    mon.check(np.all(np.isfinite(w1)) and np.max(w1) < 1e20, 'weights are finite')
    if np.all((t.yp >= 0) & (t.yp < m.nbins)):
        phase_space(t, m, rec)
    mon.state('pipeline', info['ring'], m.nprofiles, m.dturns, rec, xp.shape[0])
    mon.ev('native_calls', 4)
    # the history of a reconstruction: results stay valid after their source is gone
    keep = t.diff
    del t, tr
    gc.collect()
    mon.check(np.all(np.isfinite(keep)), 'results outlive the objects')


class Stop(Exception):
    pass


def run_failures(case, rng, mon):
    """Failures in the middle of native routines."""
    from longitudinal_tomography.cpp_routines import libtomo
    n, nprof, nbins = int(gen.pick(rng, [3, 9, 130])), int(gen.pick(rng, [2, 5])), 12
    xp = edges_xp(rng, n, nprof, nbins)
    xp[0] = 4
    # a waterfall these particles can explain: it does not vanish on the way
    wf = refs.project(xp, 1 + rng.random(n), nprof, nbins)
    wf /= wf.sum(axis=1, keepdims=True)
    dt = np.float32 if case['i'] % 2 else np.float64
    wf = wf.astype(dt)
    at = int(rng.integers(1, 5))

    def cb(p, t):
        if p >= at:
            raise Stop(p)
    k = case['i'] % 4
    mon.state('fail', k, n, nprof, str(dt), at)
    if k == 0:
        mon.raises(Stop, lambda: libtomo.reconstruct(xp, wf, 5, nbins, n, nprof, False, cb), 'raising callback')
    elif k == 1:
        mon.raises(Stop, lambda: libtomo.reconstruct_multi(
            xp, wf, np.array([0]), np.array([nbins]), np.array([0]), 5, nbins, n, nprof, 1, False, cb), 'raising callback')
    elif k == 2:
        z = np.zeros_like(wf)
        mon.raises(RuntimeError, lambda: libtomo.reconstruct(xp, z, 5, nbins, n, nprof, False), 'empty waterfall')
        mon.raises(RuntimeError, lambda: libtomo.reconstruct_multi(
            xp, wf, np.array([5]), np.array([5]), np.array([0]), 3, nbins, n, nprof, 1, False), 'no particle selected')
    else:
        nt = 2 * (nprof - 1)
        a = [rng.random(nt + 1).astype(dt) for _ in range(5)]
        x = np.zeros((nprof, n), dt)
        y = np.zeros((nprof, n), dt)
        mon.raises(Stop, lambda: libtomo.kick_and_drift(
            x, y, rng.random(n).astype(dt), rng.random(n).astype(dt), *a, 0.3, 2.0, 2, nprof // 2, 0, nt, n, False,
            lambda p, t: cb(p + 4, t)), 'raising callback')
    mon.ev('native_calls')
    # the library is usable afterwards
    r = refs.both(mon, lambda: refs.reconstruct(xp, wf, 2)[0],
                  lambda: libtomo.reconstruct(xp, wf.astype(np.float64), 2, nbins, n, nprof)[0])
    if r:
        mon.close(r[1], r[0], 'weights after a failure', rtol=1e-6, atol=1e-6)


class Mallinfo2(ctypes.Structure):
    _fields_ = [(k, ctypes.c_size_t) for k in ('arena', 'ordblks', 'smblks', 'hblks', 'hblkhd', 'usmblks', 'fsmblks', 'uordblks', 'fordblks',
                                               'keepcost')]


def in_use():
    """Bytes the C allocator has handed out and not got back."""
    f = ctypes.CDLL(None).mallinfo2
    f.restype = Mallinfo2
    m = f()
    return m.uordblks + m.hblkhd


def run_leak(case, rng, mon):
    """Books of the allocator over many calls: every buffer the native code
    asks for has been given back when the results are gone."""
    from longitudinal_tomography.cpp_routines import libtomo
    k = case['i'] % 10
    n, nprof, nbins = int(gen.pick(rng, [40, 700, 5000])), int(gen.pick(rng, [2, 9])), 50
    nb = int(gen.pick(rng, [1, 4]))
    dt = np.float32 if rng.random() < 0.3 else np.float64
    # positions relative to the start of a bunch, inside of its cuts
    xp = rng.integers(1, nbins - 1, size=(n, nprof)).astype(np.int32)
    wf = np.tile(refs.project(xp, 1 + rng.random(n), nprof, nbins), (1, nb)) + 0.1
    wf = np.ascontiguousarray(wf / wf.sum(axis=1, keepdims=True)).astype(dt)
    lo, hi = np.arange(nb) * nbins, (np.arange(nb) + 1) * nbins

    def raiser(p, t):
        raise Stop()

    def guard(g, *exc):
        def f():
            try:
                g()
            except exc:
                pass
        return f
    nt = int(gen.pick(rng, [1, 30]))
    tab = [np.zeros(nt * (nprof - 1) + 1, dt) for _ in range(5)]
    x0, y0 = rng.random(n).astype(dt), rng.random(n).astype(dt)

    def track(cb=None):
        a = (np.zeros((nprof, n), dt), np.zeros((nprof, n), dt), x0, y0, *tab, 0.1, 2.0, nt, 0, 0, nt * (nprof - 1), n, False)
        libtomo.kick_and_drift(*a, *(() if cb is None else (cb,)))
    w1 = np.ascontiguousarray(wf[:, :nbins] * nb)
    one = lambda *c: libtomo.reconstruct(xp, w1, 2, nbins, n, nprof, False, *c)
    many = lambda *c: libtomo.reconstruct_multi(xp, wf, lo, hi, lo, 2, nbins * nb, n, nprof, nb, False, *c)
    zero = np.zeros_like(wf)
    f = [guard(lambda: one(raiser), Stop), one, guard(lambda: many(raiser), Stop), many,
         lambda: libtomo.make_phase_space(xp[:, 0].copy(), xp[:, 0].copy(), x0, nbins * nb),
         guard(lambda: libtomo.make_phase_space(xp[:, 0].copy(), xp[:, 0] + nbins * nb, x0, nbins * nb), IndexError),
         track, guard(lambda: track(raiser), Stop),
         guard(lambda: libtomo.reconstruct(xp, zero, 2, nbins * nb, n, nprof, False), RuntimeError),
         guard(lambda: libtomo.reconstruct_multi(xp, zero, lo, hi, lo, 2, nbins * nb, n, nprof, nb, False), RuntimeError)][k]
    libtomo.set_num_threads(1)
    for _ in range(30):
        f()
    N, seen = 100, []
    # A leak is left over by every round; what the interpreter sets aside for
    # itself stops growing, though on a busy machine not in the first rounds.
    for turn in range(16):
        gc.collect()
        a0, b0 = in_use(), sys.getallocatedblocks()
        for _ in range(N):
            f()
        gc.collect()
        seen.append((in_use() - a0, sys.getallocatedblocks() - b0))
        if turn >= 3 and min(z[0] for z in seen) < 12 * N and min(z[1] for z in seen) < 0.5 * N:
            break
    grown, objs = (min(z) for z in zip(*seen))
    mon.state('leak', k, n, nprof, nb)
    mon.ev('repeated_calls', N * len(seen))
    mon.check(grown < 12 * N, f'{grown} bytes not given back after {N} calls (route {k})', n=n, nprof=nprof, bunches=nb)
    mon.check(objs < 0.5 * N, f'{objs} Python objects left after {N} calls (route {k})')
    mon.note = f'route {k}: {grown} bytes over {N} calls'
