"""P17: no call changes its caller's data, depends on the layout of it, or on
what happened before."""
import copy
import numpy as np
from vt import gen, refs
from vt.mon import Skip

RULE = """Layout cases call the public functions with the same values as
ordinary arrays, read-only arrays, Fortran-ordered arrays, strided and reversed
views, and arrays of another integer or float type where the values are exact;
results must agree and the buffers behind the arguments must be byte for byte
what they were.  History cases keep tracker, tomography, machine and particle
objects alive and drive them through random sequences of operations (other
starting profiles, other iteration numbers, other particles, precision
switches, thread numbers, operations that are refused or interrupted), and after
each operation compare with the same operation on fresh objects.  Alias cases
overwrite the caller's arrays after an object was given them, and rerun objects
whose earlier results are kept: neither may change.  Distinct
cases differ in function and layout, or in the sequence of operations."""
ASSUMPTIONS = ['documented updates of the machine (bin width and synchronous position after rebinning, number of bins, energy bin) are not counted as changes']

QUICK = 2
KINDS = {
    'layout': ('plain', 1100, 6000),
    'history': ('plain', 500, 3000),
    'order': ('plain', 250, 2000),
    'machine': ('plain', 240, 1500),
    'alias': ('plain', 240, 1500),
    'again': ('plain', 120, 1500),
}


def layouts(a, rng):
    """Name and an array with the same values in another memory layout."""
    a = np.asarray(a)
    yield 'plain', a.copy()
    r = a.copy()
    r.setflags(write=False)
    yield 'read-only', r
    if a.ndim > 1:
        yield 'fortran', np.asfortranarray(a)
        t = np.ascontiguousarray(a.T).T
        t.setflags(write=False)
        yield 'transposed read-only', t
    big = np.full(tuple(2 * s + 1 for s in a.shape), 77 if a.dtype.kind in 'iu' else np.nan, a.dtype)
    v = big[tuple(slice(1, None, 2) for _ in a.shape)]
    v[...] = a
    yield 'strided', v
    b = a[tuple(slice(None, None, -1) for _ in a.shape)].copy()
    yield 'reversed', b[tuple(slice(None, None, -1) for _ in a.shape)]
    if a.dtype.kind == 'i':
        yield 'int64', a.astype(np.int64)
        yield 'int16', a.astype(np.int16)
    elif np.array_equal(a, a.astype(np.float32).astype(float)):
        yield 'float32', a.astype(np.float32)
        if np.array_equal(a, np.round(a)):
            for ty in (np.int64, np.int32, np.int16, np.uint16):
                if np.array_equal(a, a.astype(ty).astype(float)):
                    yield ty.__name__, a.astype(ty)


def exact(x):
    """Values that are exact in single precision."""
    return np.asarray(x, np.float32).astype(float)


def flat(r):
    if isinstance(r, (tuple, list)):
        out = []
        for x in r:
            out += flat(x)
        return out
    return [np.asarray(r, float)]


def compare(mon, got, want, what, tol=1e-9):
    g, w = flat(got), flat(want)
    mon.check(len(g) == len(w), what + ': number of results')
    for a, b in zip(g, w):
        s = np.max(np.abs(b[np.isfinite(b)]), initial=0) or 1.0
        mon.check(a.shape == b.shape, what + ': shape', got=str(a.shape), want=str(b.shape))
        mon.check(np.array_equal(np.isnan(a), np.isnan(b)), what)
        mon.close(np.nan_to_num(a) / s, np.nan_to_num(b) / s, what, rtol=0, atol=tol)


def stable(xp, wf, niter):
    """The reconstruction of these neither vanishes nor amplifies rounding."""
    try:
        (w, h, r), tol = refs.conditioned(xp, wf, niter)
        return tol[0] <= 1e-8 * w.max()
    except (refs.Vanished, Skip):
        return False


def outcome(call, *args):
    """The result, or the name of the refusal."""
    try:
        return 'result', call(*args)
    except Exception as e:
        return type(e).__name__, ()


def same(mon, got, want, what, **k):
    mon.check(got[0] == want[0], what + ': outcome', got=got[0], want=want[0])
    compare(mon, got[1], want[1], what, **k)


def base_of(a):
    while isinstance(getattr(a, 'base', None), np.ndarray):
        a = a.base
    return a


def functions(rng, i):
    """(name, arguments, call, names of layouts it does not promise)."""
    from longitudinal_tomography.data import data_treatment as dtreat, pre_process as pre, post_process as post
    from longitudinal_tomography.data.profiles import Profiles
    from longitudinal_tomography.tracking import particles as pts
    from longitudinal_tomography.tracking.tracking import Tracking
    from longitudinal_tomography.tomography.tomography import Tomography
    from longitudinal_tomography.tomography import tomography_multibunch as mb
    from longitudinal_tomography.utils import tomo_output as out, tomo_input as tin, tomographics as tg
    from longitudinal_tomography.compat import fortran as ftn
    from longitudinal_tomography import shortcuts
    n, nprof, nb = int(rng.integers(5, 80)), int(rng.integers(2, 8)), int(rng.integers(25, 50))
    while True:
        xp = rng.integers(nb, size=(n, nprof)).astype(np.int32)
        w = exact(rng.random(n) + 0.1)
        wf = exact(refs.project(xp, w, nprof, nb) + 0.01)
        if stable(xp, wf, 3):
            break
    yp = rng.integers(nb, size=(n, nprof)).astype(np.int32)
    im = exact(rng.random((nb, nb)))
    t, e = exact((np.arange(nb) - nb / 2) * 0.25), exact((np.arange(nb) - nb / 2) * 512.0)
    noint = {'int16'}

    def m_():
        r = np.random.default_rng(i)
        kw, info = gen.machine_kwargs(r, nprofiles=nprof, nbins=nb, dturns=2, accel=False)
        m = gen.make_machine(kw, pickup_sensitivity=0.3)
        m.values_at_turns()
        return m, info
    k = i % 24
    if k == 22:
        from longitudinal_tomography.utils import physics as ph
        a, b = exact(rng.uniform(-7, 7, n)), exact(rng.uniform(-1, 1, n) * 1e4)
        return 'voltage functions', (a, b), lambda a, b: (
            ph.rf_voltage(a, 2e3, b, 0.25, 2.0, 0.5, 25.0, 8.0, 1), ph.drf_voltage(a, b, 500.0, 2.0, 0.25),
            ph.rfvolt_rf1(a, 2e3, 0.25, 25.0, 8.0, -1), ph.drfvolt_rf1(a, b), ph.vrft(b, 0.5, 3.0)), ('float32', 'int16', 'uint16')
    if k == 23:
        from longitudinal_tomography.utils import physics as ph
        v = exact(1e3 + rng.random(n))
        return 'bunch phase functions', (v, exact(rng.uniform(0, 500, n)), exact(rng.uniform(-0.3, 0.3, n))), lambda a, b, c: (
            ph.phase_low(0.5, 1.5, a, b, c, 2.0, 0.25, n // 2), ph.dphase_low(0.5, 1.5, a, b, 2.0, c, n // 2)), ('float32', 'int16', 'uint16')
    if k == 0:
        return 'Tomography.run', (wf, xp), lambda a, b: (lambda q: (q.run(niter=3), q.diff, q.recreated, q.xp))(Tomography(a, b)), ()
    if k == 1:
        return 'Tomography.run_hybrid', (wf, xp), lambda a, b: (lambda q: (q.run_hybrid(niter=2), q.diff))(Tomography(a, b)), ()
    if k == 2:
        cen, cl, cr = np.array([0], np.int32), np.array([-1], np.int32), np.array([nb], np.int32)
        return 'multi-bunch run', (wf, xp), lambda a, b: (lambda q: (q.run(cen, cl, cr, niter=2), q.weight_combined, q.diff, q.recreated)[1:])(mb.Tomography(a, b)), ()
    if k == 3:
        return 'rebin', (wf,), lambda a: pre.rebin(a, 4, 1e-9, 12.0), ()
    if k == 4:
        mid, wid = rng.uniform(0.3, 0.7) * nb, nb / 9
        up = 100 * np.exp(-(np.arange(nb) - mid) ** 2 / wid ** 2) + np.zeros((nprof, 1))
        return 'get_cuts', (up,), lambda a: (pre.get_cuts(a, None, 2), pre.get_cuts(a)), ()
    if k == 5:
        return 'cut_waterfall', (wf,), lambda a: pre.cut_waterfall(a, 3, nb - 2).copy(), ()
    if k == 6:
        return 'filter_profiles', (wf, xp, yp), lambda a, b, c: pre.filter_profiles(a, b, c), ()
    if k == 7:
        return 'create_phase_space_image', (xp, yp, w), lambda a, b, c: out.create_phase_space_image(a, b, c, nb, 1), ()
    if k == 8:
        return 'phase_space_from_coordinates', (xp[:, 0].copy(), yp[:, 0].copy(), w), \
            lambda a, b, c: dtreat.phase_space_from_coordinates(a, b, c, nb, 3.0, 4.0, 1e-9, 1e3), ()
    if k == 9:
        x, y = exact(rng.uniform(-3, nb + 3, (nprof, n))), exact(rng.uniform(0, nb, (nprof, n)))
        x[:, 0] = 1.5
        return 'ready_for_tomography', (x, y), lambda a, b: pts.ready_for_tomography(a, b, nb), ()
    if k == 10:
        x, y = exact(rng.uniform(-3, nb + 3, (nprof, n))), exact(rng.uniform(0, nb, (nprof, n)))
        x[:, 0] = 1.5
        return 'filter_lost', (x, y), lambda a, b: pts.filter_lost(a, b, nb), ()
    if k == 11:
        m, info = m_()
        a, b = exact(rng.uniform(-1, 1, (nprof, n))), exact(rng.uniform(-1, 1, (nprof, n)) * 1e5)
        return 'physical_to_coords', (a, b), lambda a, b: pts.physical_to_coords(a, b, m, 2.5, 1e3), ('float32',)
    if k in (12, 13):
        m, info = m_()
        d, E = gen.distribution(rng, m, info, n)
        d, E = exact(d), exact(E)
        if k == 12:
            return 'Tracking.track', (d, E), lambda a, b: Tracking(m).track(1 if nprof > 2 else 0, init_distr=(a, b)), ()
        return 'Profiles', (wf,), lambda a: (lambda q: (q.calc_profilecharge(), q.waterfall, q.profile_charge)[1:])(
            Profiles(copy.deepcopy(m), 1e-9, a)), ()
    if k == 14:
        m, info = m_()

        def rawto(a):
            mm = copy.deepcopy(m)
            q = tin.raw_data_to_profiles(a, mm, 3, mm.dtbin)
            return q.waterfall, mm.dtbin, mm.synch_part_x
        return 'raw_data_to_profiles', (wf,), rawto, ('float32',)
    if k == 15:
        return 'emittance', (im, t, e), lambda a, b, c: (post.emittance_rms(a, b, c), post.emittance_90(a, b, c)), ('float32',)
    if k == 16:
        return 'post_process', (im, t, e), lambda a, b, c: tuple(post.post_process(a, b, c, 2e9).values()), ('float32',)
    if k == 17:
        return 'calc_baseline', (wf,), lambda a: (ftn.calc_baseline(a, 1, 0.25), dtreat.calc_baseline_ftn(a, 1, 0.25)), ('float32',)
    if k == 18:
        def dens(a, b, c):
            np.random.seed(5)
            return dtreat.density_to_macro(b, c, a, 50)
        return 'density_to_macro', (im, t, e), dens, ('float32',)
    if k == 19:
        from longitudinal_tomography.utils.tomo_input import Frames
        raw = exact(rng.normal(0, 1, (nprof + 1) * (nb + 3)))
        fr = Frames(framecount=nprof + 1, framelength=nb + 3, skip_frames=1, skip_bins_start=1, skip_bins_end=2, rebin=1, dtbin=1e-9)
        return 'to_waterfall', (raw,), lambda a: fr.to_waterfall(a), ()
    if k == 20:
        return 'rms_params', (im,), lambda a: tg.rms_params(a, 1.0, 2.0), ('float32',)
    return 'tomogram', (wf, xp, yp), lambda a, b, c: (lambda q: (q.weight, q.diff, q.recreated))(shortcuts.tomogram(a, b, c, 2)), ()


def run_layout(case, rng, mon):
    i = case['i']
    st = rng.bit_generator.state
    name, args, call, no = functions(rng, i)
    if i // 24 % 4 == 3:
        # whole numbers, so that integers mean the same
        args = tuple(np.round(a * (64.0 if np.max(np.abs(a)) < 64 else 1.0)) if a.dtype.kind == 'f' else a for a in args)
        mon.ev('whole_numbers')
    want = outcome(call, *[a.copy() for a in args])
    mon.ev('refused' if want[0] != 'result' else 'accepted')
    for which in range(len(args)):
        for lay, arr in layouts(args[which], rng):
            if lay in no:
                continue
            use = [a.copy() for a in args]
            use[which] = arr
            buf = [base_of(a) for a in use]
            keep = [a.tobytes() for a in buf]
            sizes = [(a.shape, a.strides, a.dtype) for a in use]
            got = outcome(call, *use)
            same(mon, got, want, f'{name} with argument {which} {lay}', tol=1e-9 if lay != 'float32' else 1e-6)
            for a, kbytes, u, s in zip(buf, keep, use, sizes):
                mon.check(a.tobytes() == kbytes, f'{name} changed the data of its caller ({lay})')
                mon.check((u.shape, u.strides, u.dtype) == s, f'{name} changed the form of an argument ({lay})')
            mon.ev('calls')
            mon.state(name, which, lay, [a.shape for a in args].__str__())
    same(mon, outcome(call, *[a.copy() for a in args]), want, f'{name} called again')


# ------------------------------------------------------------- histories
class World:
    """Long-lived objects, and the same operation on fresh ones."""

    def __init__(self, rng):
        self.kw, self.info = gen.machine_kwargs(rng, nprofiles=int(rng.integers(3, 9)), nbins=int(rng.integers(20, 40)),
                                                dturns=int(gen.pick(rng, [1, 2, 5])), ref=False)
        self.m = self.fresh_machine()
        from longitudinal_tomography.tracking.tracking import Tracking
        from longitudinal_tomography.tomography.tomography import Tomography
        self.tracker = Tracking(self.m)
        self.nprof, self.nb = self.kw['nprofiles'], self.kw['nbins']
        self.clouds = [gen.distribution(rng, self.m, self.info, int(n)) for n in rng.integers(1, 60, 3)]
        while True:
            self.xps = [rng.integers(self.nb, size=(int(n), self.nprof)).astype(np.int32) for n in rng.integers(20, 80, 3)]
            self.wf = refs.normalise(refs.project(self.xps[0], 0.1 + rng.random(len(self.xps[0])), self.nprof, self.nb) + 0.5)
            if all(stable(x, self.wf, k) for x in self.xps for k in range(1, 6)):
                break
        self.tomo = Tomography(self.wf, self.xps[0])
        self.cur = 0
        self.single = False
        self.keep = copy.deepcopy((self.clouds, self.xps, self.wf))

    def fresh_machine(self):
        m = gen.make_machine(self.kw)
        m.values_at_turns()
        return m


def op_track(w, rng, mon):
    from longitudinal_tomography.tracking.tracking import Tracking
    rec, c = int(rng.integers(w.nprof - 1)), int(rng.integers(3))
    got = w.tracker.track(rec, init_distr=w.clouds[c])
    want = Tracking(w.fresh_machine()).track(rec, init_distr=copy.deepcopy(w.clouds[c]))
    compare(mon, got, want, 'tracking after a history', tol=1e-4 if w.single else 1e-9)
    mon.check(np.asarray(got[0]).dtype == np.asarray(want[0]).dtype, 'type of the coordinates')
    for a, b in zip(w.tracker.particles.coordinates_dphi_denergy, w.clouds[c]):
        mon.close(np.asarray(a, float), np.asarray(b, float), 'the particle object keeps the initial distribution', rtol=1e-6 if w.single else 0, atol=0)
    return f'track{rec}/{c}'


def op_run(w, rng, mon):
    from longitudinal_tomography.tomography.tomography import Tomography
    ni = int(rng.integers(1, 6))
    if w.single:
        return 'none'
    got = w.tomo.run(niter=ni)
    f = Tomography(w.wf.copy(), w.xps[w.cur].copy())
    want = f.run(niter=ni)
    compare(mon, (got, w.tomo.weight, w.tomo.diff, w.tomo.recreated), (want, f.weight, f.diff, f.recreated),
            'reconstruction after a history', tol=1e-7)
    return f'run{ni}'


def op_hybrid(w, rng, mon):
    from longitudinal_tomography.tomography.tomography import Tomography
    if w.single:
        return 'none'
    ni = int(rng.integers(1, 3))
    got = w.tomo.run_hybrid(niter=ni)
    f = Tomography(w.wf.copy(), w.xps[w.cur].copy())
    compare(mon, (got, w.tomo.diff), (f.run_hybrid(niter=ni), f.diff), 'hybrid reconstruction after a history', tol=1e-7)
    return f'hybrid{ni}'


def op_setxp(w, rng, mon):
    k = int(rng.integers(3))
    w.tomo.xp = w.xps[k]
    w.cur = k
    mon.equal(np.asarray(w.tomo.xp), w.xps[k], 'coordinates that were set')
    mon.check(w.tomo.nparts == len(w.xps[k]), 'number of particles')
    return f'xp{k}'


def op_bad_xp(w, rng, mon):
    from longitudinal_tomography import exceptions as ex
    bad = w.xps[0].copy()
    bad[0, 0] = w.nb

    def go():
        w.tomo.xp = bad
    mon.raises(ex.XPOutOfImageWidthError, go, 'coordinates out of the image')

    def go2():
        w.tomo.xp = w.xps[0][:, :-1]
    mon.raises(ex.CoordinateImportError, go2, 'coordinates of too few profiles')
    mon.equal(np.asarray(w.tomo.xp), w.xps[w.cur], 'a refused assignment changes nothing')
    mon.check(w.tomo.nparts == len(w.xps[w.cur]), 'a refused assignment changes nothing')
    return 'badxp'


def op_bad_track(w, rng, mon):
    mon.raises(Exception, lambda: w.tracker.track(w.nprof + 3, init_distr=w.clouds[0]), 'profile out of range')
    mon.raises(Exception, lambda: w.tracker.track(0, init_distr=(np.zeros(3), np.zeros(4))), 'unequal coordinates')
    return 'badtrack'


def op_interrupt(w, rng, mon):
    class Stop(Exception):
        pass

    def cb(p, t):
        if p == 1:
            raise Stop
    mon.raises(Stop, lambda: w.tracker.track(0, init_distr=w.clouds[1], callback=cb), 'interrupted tracking')
    if not w.single:
        mon.raises(Stop, lambda: w.tomo.run(niter=3, callback=cb), 'interrupted reconstruction')
    return 'interrupt'


def op_precision(w, rng, mon):
    from longitudinal_tomography.utils.tomo_config import AppConfig
    (AppConfig.set_double_precision if w.single else AppConfig.set_single_precision)()
    w.single = not w.single
    return 'single' if w.single else 'double'


def op_threads(w, rng, mon):
    from longitudinal_tomography.cpp_routines import libtomo
    k = int(rng.integers(1, 5))
    libtomo.set_num_threads(k)
    return f'threads{k}'


def op_values(w, rng, mon):
    w.m.values_at_turns()
    f = w.fresh_machine()
    for a in ('e0', 'phi0', 'drift_coef', 'deltaE0', 'vrf1_at_turn', 'vrf2_at_turn', 'omega_rev0', 'beta0', 'eta0', 'time_at_turn'):
        mon.close(getattr(w.m, a), getattr(f, a), f'machine.{a} after a history', rtol=1e-12, atol=1e-300)
    return 'values'


OPS = [op_track, op_track, op_track, op_run, op_run, op_setxp, op_hybrid, op_bad_xp, op_bad_track, op_interrupt, op_precision,
       op_threads, op_values]


def run_history(case, rng, mon):
    from longitudinal_tomography.utils.tomo_config import AppConfig
    from longitudinal_tomography.cpp_routines import libtomo
    w = World(rng)
    trace = []
    try:
        for _ in range(int(rng.integers(5, 16))):
            op = OPS[int(rng.integers(len(OPS)))]
            if w.single and op in (op_setxp, op_bad_xp):
                continue
            trace.append(op(w, rng, mon))
            mon.ev('operations')
            for a, b in zip(flat([list(w.clouds), w.xps, w.wf]), flat([list(w.keep[0]), w.keep[1], w.keep[2]])):
                mon.equal(a, b, f'caller data after {trace[-1]}')
    finally:
        AppConfig.set_double_precision()
        libtomo.set_num_threads(2)
    mon.state('history', *trace)


def run_order(case, rng, mon):
    """Two independent computations give the same in either order and
    interleaved with others of another size."""
    calls = []
    for k in rng.choice(24, 4, replace=False):
        name, args, call, no = functions(rng, int(k) + 24 * (case['i'] % 50))
        calls.append((name, args, call))
    first = [outcome(c, *[a.copy() for a in args]) for _, args, c in calls]
    for k in rng.permutation(len(calls)):
        name, args, c = calls[k]
        same(mon, outcome(c, *[a.copy() for a in args]), first[k], f'{name} in another order')
    mon.ev('calls', 8)
    mon.state('order', *[c[0] for c in calls])


def run_machine(case, rng, mon):
    """What only reads the machine leaves it as it is."""
    from longitudinal_tomography.tracking.tracking import Tracking
    from longitudinal_tomography.tracking import particles as pts
    from longitudinal_tomography import shortcuts
    from longitudinal_tomography.data import pre_process as pre
    m, kw, info = gen.bucket_machine(rng, nprofiles=int(rng.integers(2, 8)), nbins=20)
    m.snpt = 1
    m.values_at_turns()
    before = {k: np.array(v) if isinstance(v, np.ndarray) else v for k, v in vars(m).items()}
    d = gen.distribution(rng, m, info, 20)
    how = case['i'] % 3
    allowed = set()
    if how == 0:
        Tracking(m).track(0, init_distr=d)
        tr, pa = Tracking(m), pts.Particles()
        rec = int(rng.integers(m.nprofiles - 1))
        tr.track(rec)
        allowed = {'dEbin', '_dEbin'}
        pa.homogeneous_distribution(m, rec)
        for a, b in zip(tr.particles.coordinates_dphi_denergy, pa.coordinates_dphi_denergy):
            mon.equal(np.asarray(a), np.asarray(b), 'the particle object keeps the automatic distribution')
    elif how == 1:
        allowed = {'dEbin', '_dEbin'}
        shortcuts.track(m, int(rng.integers(m.nprofiles - 1)))
    else:
        pts.physical_to_coords(np.zeros((m.nprofiles, 3)), np.zeros((m.nprofiles, 3)), m, 1.0, 2.0)
        x = np.arange(m.nbins)
        w = np.clip(1 - ((x - m.nbins / 2) / (m.nbins / 3)) ** 2, 0, None)
        try:
            pre.fit_synch_part_x(np.array([w] * m.nprofiles), m)
        except Exception:
            pass
    after = vars(m)
    mon.check(set(after) - allowed == set(before) - allowed, 'attributes', got=str(set(after) ^ set(before)))
    for k, v in before.items():
        if k in allowed:
            continue
        if isinstance(v, np.ndarray):
            mon.equal(np.asarray(after[k]), v, f'machine.{k}')
        else:
            mon.check(after[k] is v or after[k] == v, f'machine.{k}', got=after[k], want=v)
    mon.state('machine', how, info['ring'], m.nprofiles)


def run_alias(case, rng, mon):
    """What an object was given stays as given when the caller uses its array
    for something else."""
    from longitudinal_tomography.utils.tomo_input import Frames
    from longitudinal_tomography.data.profiles import Profiles
    from longitudinal_tomography.tomography.tomography import Tomography
    from longitudinal_tomography.tomography.tomography_multibunch import Tomography as Multi
    k = case['i'] % 7
    mine = []

    def give(a, dtype=None):
        a = np.array(a, dtype)
        if rng.random() < 0.4:
            a = gen.lay(rng, a)
        mine.append(a)
        return a

    def reuse():
        for a in mine:
            if not a.flags.writeable:
                a = a.base if isinstance(a.base, np.ndarray) and a.base.flags.writeable else None
            if a is not None:
                a[...] = 3 if a.dtype.kind in 'iu' else np.nan
        mine.clear()
    nprof, nb, n = int(rng.integers(2, 9)), int(rng.integers(4, 40)), int(rng.integers(3, 60))
    xp, yp = (rng.integers(nb, size=(n, nprof)).astype(np.int32) for _ in range(2))
    wf = refs.project(xp, 1 + rng.random(n), nprof, nb) + 0.05
    ft = np.float64 if rng.random() < 0.7 else np.float32
    it = gen.pick(rng, [np.int32, np.int64, np.float64])
    if k == 0:
        raw = rng.normal(0, 1, nprof * nb)
        fr = Frames(framecount=nprof, framelength=nb, skip_frames=0, skip_bins_start=1, skip_bins_end=1, rebin=1, dtbin=1e-9)
        fr.raw_data = give(raw)
        reuse()
        mon.equal(fr.raw_data, raw, 'raw data of the frames')
        a = give(raw)
        w = fr.to_waterfall(a)
        reuse()
        mon.equal(w, raw.reshape(nprof, nb)[:, 1:-1], 'waterfall of the frames')
    elif k in (1, 2):
        kw, info = gen.machine_kwargs(rng, ring=case['i'], max_turns=200, nbins=max(nb, 12))
        kw.update(pickup_sensitivity=0.3, g_coupling=2.0, zwall_over_n=5.0)
        m = gen.make_machine(kw)
        w = gen.waterfall(rng, m.nprofiles, m.nbins, 0)
        P = Profiles(m, kw['dtbin'], give(w, ft))
        reuse()
        mon.close(P.waterfall, np.clip(w.astype(ft), 0, None), 'waterfall of the profiles', rtol=1e-12)
        if k == 2:
            w = gen.waterfall(rng, m.nprofiles, m.nbins, 0)
            P.waterfall = give(w, ft)
            reuse()
            mon.close(P.waterfall, np.clip(w.astype(ft), 0, None), 'waterfall given later', rtol=1e-12)
        P.calc_profilecharge()
        f = rng.normal(0, 1, P.waterfall.shape)
        P.calc_self_fields(filtered_profiles=give(f))
        v = P.vself.copy()
        reuse()
        mon.equal(P.dsprofiles, f, 'derivatives of the profiles')
        mon.equal(P.vself, v, 'self-field voltages')
    elif k in (3, 4):
        T = Tomography if k == 3 else Multi
        t = T(give(wf, ft), give(xp, it), give(yp, it))
        reuse()
        mon.close(t.waterfall, refs.normalise(wf), 'waterfall of the reconstruction', rtol=0, atol=1e-6 if ft == np.float32 else 1e-12)
        mon.equal(t.xp, xp, 'x coordinates')
        mon.equal(t.yp, yp, 'y coordinates')
        xp2 = rng.permutation(xp)
        t.xp, t.yp = give(xp2, it), give(xp, it)
        reuse()
        mon.equal(t.xp, xp2, 'x coordinates given later')
        mon.equal(t.yp, xp, 'y coordinates given later')
    elif k == 6:
        from longitudinal_tomography.tracking.tracking import Tracking
        from longitudinal_tomography.utils import tomo_config as conf
        kw, info = gen.machine_kwargs(rng, ring=case['i'], max_turns=200, nbins=24)
        kw['synch_part_x'] = 12.0
        m = gen.make_machine(kw)
        d0 = np.array(gen.distribution(rng, m, info, n))
        rec = int(rng.integers(m.nprofiles - 1))
        tr = Tracking(m)
        d = give(d0)
        out = tr.track(rec, d if case['i'] % 2 else (d[0], d[1]))
        keep = [np.copy(v) for v in out]
        c = conf.cast(give(d0))
        reuse()
        mon.equal(c, d0, 'cast array')
        mon.equal(np.array(tr.particles.coordinates_dphi_denergy), d0, 'coordinates of the particles')
        mon.equal(np.array([tr.init_dphi, tr.init_denergy]), d0, 'initial coordinates of the tracker')
        tr.track((rec + 1) % (m.nprofiles - 1), d0[:, ::-1])
        for v, w, nm in zip(out, keep, ('phases', 'energies')):
            mon.equal(v, w, f'{nm} of an earlier tracking')
    else:
        # results belong to the caller: a later run does not touch them
        t = Tomography(wf.copy(), xp)
        try:
            a = [t.run(niter=2), t.diff, t.recreated]
            keep = [np.copy(v) for v in a]
            t.xp = rng.permutation(xp)
            t.run(niter=3)
        except RuntimeError:
            raise Skip('vanishes')
        for v, w, nm in zip(a, keep, ('weights', 'discrepancies', 'recreated profiles')):
            mon.equal(v, w, f'{nm} of an earlier run')
    mon.state('alias', k, nprof, nb, str(ft), str(it))


def run_again(case, rng, mon):
    """One machine that changes between calls, and other data of the same form:
    every call goes by what it is given now, as with a copy of the machine that
    nothing has seen before."""
    from longitudinal_tomography.data import data_treatment as dtreat, pre_process as pre
    from longitudinal_tomography.data.profiles import Profiles
    from longitudinal_tomography.tomography.tomography import Tomography
    from longitudinal_tomography.tracking import particles as pts, phase_space_info as psi
    from longitudinal_tomography.tracking.tracking import Tracking
    from longitudinal_tomography.utils import physics, tomo_input as tin
    from longitudinal_tomography.compat import fortran as ftn
    m, kw, info = gen.bucket_machine(rng, ring=case['i'], nprofiles=int(rng.integers(3, 7)), nbins=int(rng.integers(24, 40)),
                                     max_turns=100)
    m.pickup_sensitivity, m.g_coupling, m.zwall_over_n, m.snpt = 0.3, 2.0, 5.0, 2
    nprof, nb = m.nprofiles, m.nbins
    n = 30
    area, tracker, part = psi.PhaseSpaceInfo(m), Tracking(m), pts.Particles()
    xp = rng.integers(nb, size=(n, nprof)).astype(np.int32)
    yp = rng.integers(nb, size=(n, nprof)).astype(np.int32)
    wf = np.zeros((nprof, nb))
    buf = np.zeros((nprof, n))
    rec = int(rng.integers(nprof - 1))

    def bunches():
        t = np.arange(nb)
        c, s = rng.uniform(0.4, 0.6) * nb, rng.uniform(0.15, 0.25) * nb
        return np.array([np.clip(1 - ((t - c - rng.normal()) / s) ** 2, 0, None) ** 1.5 + 1e-9 for _ in range(nprof)]) * rng.uniform(1, 9)

    def fields(q):
        P = Profiles(q, q.dtbin, wf)
        P.calc_profilecharge()
        P.calc_self_fields()
        return P.waterfall, P.profile_charge, P.vself, P.dsprofiles, P.phiwrap

    def limits(a):
        a.find_binned_phase_energy_limits()
        return a.jmin, a.jmax, a.imin, a.imax, a.dEbin, a.xorigin

    def spread(P, q):
        P.homogeneous_distribution(q, rec)
        return P.coordinates_dphi_denergy, P.dEbin, P.xorigin, P.jmin, P.jmax, ftn.write_plotinfo(q, P, 1e10).__hash__()
    t = Tomography(0.2 + rng.random((nprof, nb)), xp, yp)
    jobs = {
        'raw data': lambda q, fresh: tin.raw_data_to_profiles(wf, q, 1, q.dtbin).waterfall,
        'profiles': lambda q, fresh: fields(q),
        'fitted position': lambda q, fresh: pre.fit_synch_part_x(wf, q),
        'coordinates': lambda q, fresh: pts.physical_to_coords(buf, buf, q, 2.0, 1e3),
        'distribution': lambda q, fresh: spread(pts.Particles() if fresh else part, q),
        'area': lambda q, fresh: limits(psi.PhaseSpaceInfo(q) if fresh else area),
        'tracking': lambda q, fresh: (Tracking(q) if fresh else tracker).track(rec, init_distr=(buf[0], buf[1] * 1e3)),
        'automatic tracking': lambda q, fresh: (Tracking(q) if fresh else tracker).track(rec),
        'coefficients': lambda q, fresh: (physics.calc_self_field_coeffs(q), physics.find_dphase(q), physics.phase_slip_factor(q),
                                          physics.revolution_freq(q), physics.b_to_e(q)),
    }
    done = []
    for _ in range(int(rng.integers(2, 5))):
        what = gen.pick(rng, ['none', 'vrf1', 'synch_part_x', 'dtbin', 'beam_ref_frame', 'filmstart', 'snpt'])
        if what in ('vrf1', 'dtbin', 'synch_part_x'):
            setattr(m, what, getattr(m, what) * rng.uniform(0.97, 1.03))
        elif what in ('beam_ref_frame', 'filmstart'):
            setattr(m, what, int(rng.integers(nprof)))
            m.filmstop = nprof
        elif what == 'snpt':
            m.snpt = int(rng.integers(1, 4))
        m.values_at_turns()
        wf[...] = bunches()
        buf[...] = rng.uniform(-1, 1, buf.shape)
        for name in rng.permutation(list(jobs))[:4]:
            q = copy.deepcopy(m)
            want = outcome(jobs[name], q, True)
            got = outcome(jobs[name], m, False)
            same(mon, got, want, f'{name} of a machine that was used before')
            mon.ev('refused' if want[0] != 'result' else 'repeated')
            done.append((what, name))
        # the image follows the weights of the last run
        m.dEbin = 1e3
        try:
            w = np.asarray(t.run(niter=int(rng.integers(1, 4))), float)
        except RuntimeError:
            continue               # documented: nothing left of the weights
        k = int(rng.integers(nprof))
        want = np.zeros((nb, nb))
        np.add.at(want, (xp[:, k], yp[:, k]), w)
        ta, ea, im = dtreat.phase_space(t, m, k)
        mon.close(im, want, 'image after another run', rtol=1e-9, atol=1e-12)
        mon.close(ta, (np.arange(nb) - m.synch_part_x) * m.dtbin, 'time axis after another run', rtol=1e-9, atol=1e-18)
    mon.state('again', *done)
