"""P16: progress reports: complete, in order, and their errors are not lost."""
import functools
import gc
import threading
import weakref
import numpy as np
from vt import gen, refs

RULE = """Every case runs tracking or reconstruction (class, native entry
points, shortcuts, one and several bunches, both precisions) with a recording
callback and checks the recorded trace: one report per turn, or per iteration
plus the final one, in order, with the right total, in the caller's thread;
results must be those of a run without callback.  Then the callback
raises at each position of the trace in turn (every kind of exception): the
same exception must come out, nothing may be reported after it, inputs must be
intact and the next run must give the same results.  Callbacks that use the
library themselves must not disturb the run they report on.  Distinct cases
differ in routine, shape, position and kind of exception."""
ASSUMPTIONS = []

QUICK = 2
KINDS = {
    'track': ('plain', 100, 2000),
    'reconstruct': ('plain', 150, 3000),
    'raise': ('plain', 200, 4000),
    'reenter': ('plain', 60, 1000),
    'keepalive': ('plain', 30, 300),
    'asan': ('asan', 40, 400),
}


class Mine(Exception):
    pass


class Trace:
    """Records (progress, total) and the thread; may raise at one position."""

    def __init__(self, at=None, exc=None, do=None):
        self.log, self.at, self.exc, self.do, self.threads = [], at, exc, do, set()

    def __call__(self, progress, total):
        self.log.append((int(progress), int(total)))
        self.threads.add(threading.get_ident())
        if self.do:
            self.do(progress, total)
        if self.at is not None and len(self.log) == self.at:
            raise self.exc
        return 'ignored'

    def method(self, p, t):
        return self(p, t)


class Empty:
    """A callable object that counts as false."""

    def __init__(self, tr):
        self.tr = tr

    def __call__(self, progress, total):
        return self.tr(progress, total)

    def __len__(self):
        return 0


def forms(tr, i):
    return [tr, tr.method, lambda p, t: tr(p, t), functools.partial(Trace.__call__, tr), Empty(tr)][i % 5]


def job(rng, i):
    """Returns name, shape, expected trace, run(callback) -> arrays, inputs."""
    from longitudinal_tomography.cpp_routines import libtomo
    k = i % 7
    if k in (0, 1, 2):
        nprof, dturns = int(rng.integers(2, 8)), int(gen.pick(rng, [1, 2, 3, 7]))
        if i % 11 == 7:              # a long record
            nprof, dturns = int(gen.pick(rng, [3, 40, 300])), int(gen.pick(rng, [3, 20]))
        n = int(gen.pick(rng, [1, 3, 20, 130]))
        nt = dturns * (nprof - 1)
        rec = int(rng.integers(nprof - 1))
        want = [(j + 1, nt) for j in range(nt)]
        if k == 0:
            from longitudinal_tomography.tracking.tracking import Tracking
            kw, info = gen.machine_kwargs(rng, nprofiles=nprof, dturns=dturns, nbins=40)
            m = gen.make_machine(kw)
            m.values_at_turns()
            d = gen.distribution(rng, m, info, n)

            def run(cb):
                a = {} if cb is None else {'callback': cb}
                return Tracking(m).track(rec, init_distr=d, **a)
            return 'Tracking.track', (nprof, dturns, rec, n), want, run, d
        from vt.props.p03 import arrays
        a = arrays(rng, nt, 2.0, 2.0)
        dt = np.float32 if k == 2 else np.float64
        a32 = [z.astype(dt) for z in a[:6]]
        dphi, dE = rng.uniform(-3, 3, n).astype(dt), (rng.uniform(-1, 1, n) * a[6] / a[7]).astype(dt)
        p12 = 0.3 if i % 2 else a32[5]

        def run(cb):
            x, y = np.zeros((nprof, n), dt), np.zeros((nprof, n), dt)
            libtomo.kick_and_drift(x, y, dE.copy(), dphi.copy(), *a32[:5], p12, 2.0, dturns, rec, 0, nt, n, False, cb)
            return x, y
        return f'kick_and_drift {dt.__name__} {np.ndim(p12)}', (nprof, dturns, rec, n), want, run, (*a32, dphi, dE)
    n, nprof, nb = int(rng.integers(8, 150)), int(rng.integers(1, 6)), int(rng.integers(3, 15))
    niter = int(gen.pick(rng, [1, 2, 3, 7, 20])) if i % 11 != 5 else int(gen.pick(rng, [130, 257, 300]))
    xp = rng.integers(nb, size=(n, nprof)).astype(np.int32)
    wf = refs.normalise(refs.project(xp, 0.1 + rng.random(n), nprof, nb))
    want = [(j + 1, niter) for j in range(niter)] + [(niter, niter)]
    if k == 3:
        from longitudinal_tomography.tomography.tomography import Tomography

        def run(cb):
            t = Tomography(wf, xp)
            t.run(niter=niter, callback=cb)
            return t.weight, t.diff, t.recreated
        return 'Tomography.run', (n, nprof, nb, niter), want, run, (xp, wf)
    if k == 4:
        dt = np.float32 if i % 2 else np.float64
        w = wf.astype(dt)

        def run(cb):
            return libtomo.reconstruct(xp, w, niter, nb, n, nprof, False, cb)
        return f'reconstruct {dt.__name__}', (n, nprof, nb, niter), want, run, (xp, w)
    if k == 5:
        nbun = int(rng.integers(1, 4))
        cen = (np.arange(nbun) * nb).astype(np.int32)
        w = refs.normalise(np.concatenate([wf] * nbun, axis=1))

        def run(cb):
            return libtomo.reconstruct_multi(xp, w, cen, (cen + nb).astype(np.int32), cen, niter, nb * nbun, n, nprof, nbun,
                                             False, cb)
        return 'reconstruct_multi', (n, nprof, nb, niter, nbun), want, run, (xp, w)
    from longitudinal_tomography import shortcuts

    def run(cb):
        t = shortcuts.tomogram(wf, xp, None, niter, cb)
        return t.weight, t.diff, t.recreated
    return 'tomogram', (n, nprof, nb, niter), want, run, (xp, wf)


def compare(mon, got, want, what):
    mon.check(len(got) == len(want), what)
    for a, b in zip(got, want):
        a, b = np.asarray(a), np.asarray(b)
        mon.check(a.dtype == b.dtype, what + ': type')
        s = np.max(np.abs(b), initial=0) or 1.0
        mon.close(a / s, b / s, what, rtol=0, atol=1e-4 if b.dtype == np.float32 else 1e-9)


def trace_ok(mon, tr, want, name):
    mon.ev('reports', len(tr.log))
    mon.check(tr.log == want, f'{name}: reports', got=str(tr.log[:5] + tr.log[-3:]), n=len(tr.log), want=str(want[:5] + want[-3:]),
              n_want=len(want))
    mon.check(tr.threads <= {threading.get_ident()}, f'{name}: reports come from the calling thread')


def one(case, rng, mon, k):
    name, shape, want, run, inp = job(rng, k)
    keep = [np.array(a) for a in inp]
    base = run(None)
    tr = Trace()
    got = run(forms(tr, case['i']))
    trace_ok(mon, tr, want, name)
    compare(mon, got, base, f'{name}: a callback changes the result')
    for a, b in zip(inp, keep):
        mon.equal(np.asarray(a), b, f'{name}: inputs')
    mon.state(name, *shape)


def run_track(case, rng, mon):
    one(case, rng, mon, case['i'] % 3 + 7 * (case['i'] % 2))
    if case['i'] % 5 == 0:
        from longitudinal_tomography import shortcuts
        m, kw, info = gen.bucket_machine(rng, nprofiles=int(rng.integers(2, 8)), nbins=20)
        m.snpt = 1
        rec = int(rng.integers(m.nprofiles - 1))
        m.filmstart, m.filmstop = rec, m.nprofiles - 1
        m.values_at_turns()
        tr = Trace()
        nt = m.dturns * (m.nprofiles - 1)
        a = shortcuts.track(m, rec, tr)
        trace_ok(mon, tr, [(j + 1, nt) for j in range(nt)], 'shortcuts.track')
        tr = Trace()
        b = shortcuts.track(m, callback=tr) if rec == m.filmstart else a
        trace_ok(mon, tr, [(j + 1, nt) for j in range(nt)], 'shortcuts.track')
        compare(mon, b, a, 'shortcuts.track starts at the first film')


def run_reconstruct(case, rng, mon):
    one(case, rng, mon, 3 + case['i'] % 4 + 7 * (case['i'] // 4 % 2))


def run_raise(case, rng, mon):
    i = case['i']
    name, shape, want, run, inp = job(rng, i)
    keep = [np.array(a) for a in inp]
    base = run(None)
    at = [1, len(want), int(rng.integers(1, len(want) + 1))]
    excs = [Mine('stop'), ValueError('v'), KeyboardInterrupt(), RuntimeError('All of phase space got reduced to zeroes'),
            StopIteration(), SystemExit(3), IndexError('i'), MemoryError(), TypeError('t')]
    for j, pos in enumerate(sorted(set(at))):
        exc = excs[(i + j) % len(excs)]
        tr = Trace(pos, exc)
        try:
            run(forms(tr, i + j))
            out = None
        except BaseException as e:                 # noqa
            out = e
        mon.check(out is exc, f'{name}: exception of the callback', got=repr(out), want=repr(exc))
        trace_ok(mon, tr, want[:pos], name)
        for a, b in zip(inp, keep):
            mon.equal(np.asarray(a), b, f'{name}: inputs after a failed run')
        compare(mon, run(None), base, f'{name}: run after a failed run')
        mon.ev('raised')
        mon.state('raise', name, pos, type(exc).__name__)


run_asan = run_raise


def run_reenter(case, rng, mon):
    """The callback runs the library itself, the same routine included."""
    i = case['i']
    name, shape, want, run, inp = job(rng, i)
    n2, s2, w2, run2, inp2 = job(rng, int(rng.integers(7)))
    base, base2 = run(None), run2(None)
    inner = []

    def do(p, t):
        if len(inner) < 4:
            inner.append(run2(None))
            if len(inner) == 1:
                inner.append(run(None))
    tr = Trace(do=do)
    got = run(tr)
    trace_ok(mon, tr, want, f'{name} with {n2} inside')
    compare(mon, got, base, f'{name} with {n2} inside')
    for k, r in enumerate(inner):
        compare(mon, r, base if k == 1 else base2, f'{n2} inside of {name}')
    mon.ev('nested_runs', len(inner))
    mon.state('reenter', name, n2, *shape)


def run_keepalive(case, rng, mon):
    """A callback is released after the run, also after a failed one."""
    i = case['i']
    name, shape, want, run, inp = job(rng, i)
    tr = Trace(None if i % 2 else 1, Mine('x'))
    try:
        run(tr)
    except Mine:
        pass
    tr.exc = None
    ref = weakref.ref(tr)
    del tr
    gc.collect()
    mon.check(ref() is None, f'{name}: the callback is kept after the run')
    mon.state('keepalive', name, i % 2)
