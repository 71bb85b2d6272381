"""P02: parallel execution is free of data races and the number of threads
does not change the results."""
import ctypes
import threading
import numpy as np
from vt import gen, refs

RULE = """Race cases run every parallel routine under ThreadSanitizer with the
happens-before edges of the OpenMP runtime made visible, on shapes for which
several threads share cache lines, profiles and bins; any report with a frame
in the library is a violation.  Thread cases run the same computation with 1,
2, 3, 4, 7, 8 and 16 threads (more threads than particles included), repeatedly
and from several Python threads at once, and compare all results.  Counted are
the parallel regions entered; distinct cases differ in routine, shape or
thread numbers."""
ASSUMPTIONS = ['ThreadSanitizer sees races between accesses that both happen in the executed regions; the schedule is the static one of the OpenMP runtime']

KINDS = {
    'race': ('tsan', 400, 4000, {'omp': 4, 'procs': 4}),
    'racebig': ('tsan', 54, 540, {'omp': 4, 'procs': 4}),
    'threads': ('plain', 240, 4000, {'omp': 2}),
    'repeat': ('plain', 60, 600, {'omp': 8, 'procs': 2}),
    'pythreads': ('plain', 16, 300, {'omp': 3, 'procs': 4}),
}


def regions():
    try:
        return ctypes.CDLL(None).gomp_hb_regions()
    except AttributeError:
        return None


def jobs(rng, i, small=True, sizes=None):
    """Returns (name, function returning arrays, relative tolerance)."""
    from longitudinal_tomography.cpp_routines import libtomo
    n = int(gen.pick(rng, gen.SIZES[3:26] if small else gen.SIZES[8:]))
    nprof = int(gen.pick(rng, [2, 3, 5, 8, 13]))
    nbins = int(gen.pick(rng, [3, 8, 17, 64, 100]))
    if sizes:
        n, nprof, nbins = sizes
    xp = rng.integers(nbins, size=(n, nprof)).astype(np.int32)
    w0 = 0.2 + rng.random(n)
    wf = refs.normalise(refs.project(xp, w0, nprof, nbins) + 1e-3)
    niter = int(gen.pick(rng, [1, 2, 4])) if not sizes else 1
    dt = np.float32 if i % 7 == 6 else np.float64
    k = i % 9
    shape = (n, nprof, nbins, str(dt))
    if k == 0:
        def f():
            return libtomo.reconstruct(xp, wf.astype(dt), niter, nbins, n, nprof)
        name = 'reconstruct'
    elif k == 1:
        nb = int(gen.pick(rng, [1, 2, 3]))
        cen = np.arange(nb, dtype=np.int32) * nbins
        wide = refs.normalise(np.concatenate([wf] * nb, axis=1))

        def f():
            return libtomo.reconstruct_multi(xp, wide.astype(dt), cen, (cen + nbins).astype(np.int32), cen, niter,
                                             nbins * nb, n, nprof, nb)
        name = 'reconstruct_multi'
        shape += (nb,)
    elif k == 2:
        flat = (xp + nbins * np.arange(nprof)[None, :]).astype(np.int32)

        def f():
            return (libtomo.back_project(w0.copy(), flat, wf.flatten(), n, nprof),
                    libtomo.project(np.zeros((nprof, nbins)), flat, w0.copy(), n, nprof, nbins))
        name = 'project'
    elif k == 3:
        cen = np.array([0, 2, -1, 5][:int(rng.integers(1, 5))], np.int32)

        def f():
            return (libtomo.count_particles_in_bins(np.zeros((nprof, nbins), dt), xp, nprof, n, nbins),
                    libtomo.count_particles_in_bins_multi(np.zeros((nprof, nbins), dt), xp, cen, nprof, n, nbins, len(cen)))
        name = 'count'
    elif k == 4:
        y = rng.integers(nbins, size=n).astype(np.int32)

        def f():
            return (libtomo.make_phase_space(xp[:, 0].copy(), y, w0.astype(dt), nbins),)
        name = 'image'
    elif k == 8:
        a, b = rng.uniform(-3, 3, n).astype(dt), rng.uniform(-1, 1, n).astype(dt)
        from vt.props.p03 import single_steps

        def f():
            return single_steps(a, b, n, dt)
        name = 'steps'
    else:
        from vt.props.p03 import arrays
        dturns = int(gen.pick(rng, [1, 2, 5]))
        nt = dturns * (nprof - 1)
        a = arrays(rng, nt, 2.0, 3.0)
        rec = int(rng.integers(nprof - 1))
        dphi, dE = rng.uniform(-3, 3, n).astype(dt), (rng.uniform(-1, 1, n) * a[6] / a[7]).astype(dt)
        p12 = 0.4 if k == 5 else a[5].astype(dt)

        def f():
            x, y = np.zeros((nprof, n), dt), np.zeros((nprof, n), dt)
            libtomo.kick_and_drift(x, y, dE.copy(), dphi.copy(), *[z.astype(dt) for z in a[:5]], p12, 2.0, dturns, rec, 0,
                                   nt, n, False)
            return x, y
        name = 'track'
        shape += (dturns, rec, k)
    return name, shape, f, (1e-3 if dt == np.float32 else 1e-8)


def same(mon, got, want, tol, what):
    mon.check(len(got) == len(want), 'number of results')
    for a, b in zip(got, want):
        s = max(np.max(np.abs(b), initial=0), 1e-300)
        mon.close(np.asarray(a) / s, np.asarray(b) / s, what, rtol=0, atol=tol)


def run_racebig(case, rng, mon):
    """Sizes at which an implementation may switch to another path."""
    i = case['i']
    how = (i // 9) % 3
    sizes = [(int(rng.integers(200000, 400000)), 2, 40),
             (int(rng.integers(20000, 70000)), 3, 64),
             (int(rng.integers(20, 60)), 150, 700)][how]
    run_race(case, rng, mon, sizes)


def run_race(case, rng, mon, sizes=None):
    from longitudinal_tomography.cpp_routines import libtomo
    name, shape, f, tol = jobs(rng, case['i'], sizes=sizes)
    r0 = regions()
    libtomo.set_num_threads(4)
    one = f()
    libtomo.set_num_threads(int(gen.pick(rng, [2, 3, 4, 8])))
    two = f()
    r1 = regions()
    if r0 is not None:
        mon.ev('parallel_regions', r1 - r0)
    same(mon, two, one, tol, name)
    mon.ev('race_' + name)
    mon.state('race', name, *shape)


def run_threads(case, rng, mon):
    from longitudinal_tomography.cpp_routines import libtomo
    name, shape, f, tol = jobs(rng, case['i'], small=False)
    libtomo.set_num_threads(1)
    want = f()
    for k in (2, 3, 4, 7, 8, 16):
        libtomo.set_num_threads(k)
        same(mon, f(), want, tol, f'{name} with {k} threads')
        mon.ev('thread_numbers')
    libtomo.set_num_threads(2)
    mon.state('threads', name, *shape)


def run_repeat(case, rng, mon):
    """The same computation again and again with all cores contended."""
    from longitudinal_tomography.cpp_routines import libtomo
    libtomo.set_num_threads(8)
    name, shape, f, tol = jobs(rng, [0, 1, 3, 5, 2][case['i'] % 5], small=False)
    want = f()
    for _ in range(15):
        same(mon, f(), want, tol, name + ' repeated')
        mon.ev('repetitions')
    mon.state('repeat', name, *shape)


def run_pythreads(case, rng, mon):
    """Several Python threads inside the library at once; callbacks let the
    interpreter switch in the middle of a computation."""
    from longitudinal_tomography.cpp_routines import libtomo
    n, nprof, nbins = 60, 6, 20
    xp = [rng.integers(nbins, size=(n, nprof)).astype(np.int32) for _ in range(4)]
    wf = [refs.normalise(refs.project(x, 0.2 + rng.random(n), nprof, nbins)) for x in xp]
    from vt.props.p03 import arrays
    nt = nprof - 1
    a = arrays(rng, nt, 2.0, 2.0)
    start = [(rng.uniform(-3, 3, n), rng.uniform(-1, 1, n) * a[6] / a[7]) for _ in range(4)]
    switches = []

    def job(k, cb=None):
        w = libtomo.reconstruct(xp[k], wf[k], 6, nbins, n, nprof, False, cb)
        x, y = np.zeros((nprof, n)), np.zeros((nprof, n))
        libtomo.kick_and_drift(x, y, start[k][1].copy(), start[k][0].copy(), *a[:5], 0.2, 2.0, 1, 2, 0, nt, n, False, cb)
        return (*w, x, y)
    want = [job(k) for k in range(4)]
    got, errs = {}, []
    bar = threading.Barrier(4)

    def go(k):
        def cb(p, t):
            switches.append(k)
            import time
            time.sleep(0.0003)
        try:
            bar.wait()
            got[k] = job(k, cb)
        except Exception as e:           # noqa
            errs.append(repr(e))
    ths = [threading.Thread(target=go, args=(k,)) for k in range(4)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    mon.check(not errs, 'a thread failed', errors=str(errs))
    for k in range(4):
        same(mon, got[k], want[k], 1e-9, f'thread {k}')
    mon.ev('interleavings', sum(1 for p, q in zip(switches, switches[1:]) if p != q))
    mon.state('pythreads', str(switches))
