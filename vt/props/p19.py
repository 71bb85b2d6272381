"""P19: what is outside the documented domain is refused with the documented
exception, wherever it hides, and a refusal changes nothing."""
import copy
import itertools
import re
import numpy as np
from vt import gen, refs
from vt.mon import Skip

RULE = """Every case takes a valid input, makes it invalid in one place (or
leaves it on the edge of validity) and hands it to the code: machine
parameters at construction and afterwards, frame settings, raw data, waterfalls,
particle coordinates with one bad element anywhere in arrays of many sizes and
types, start profiles, percentages, cuts, iteration objects without
coordinates, input files with one bad value, and the checking functions themselves against their definition.
Invalid input must raise the documented class and leave the object as it was;
input on the edge must be accepted.  Distinct cases differ in the parameter,
the kind of fault, its place or the size of the data."""
ASSUMPTIONS = ['NaN as a machine parameter is not covered', 'arrays handed directly to native routines have consistent lengths']

QUICK = 2
KINDS = {
    'machine': ('plain', 400, 8000),
    'frames': ('plain', 200, 4000),
    'asserts': ('plain', 400, 8000),
    'tomo': ('plain', 300, 6000),
    'particles': ('plain', 250, 5000),
    'tracker': ('plain', 150, 3000),
    'profiles': ('plain', 200, 4000),
    'misc': ('plain', 300, 6000),
    'file': ('plain', 200, 4000),
    'empty': ('asan', 120, 2000),
}


def neg(rng):
    return gen.pick(rng, [-1, -1e-12, -0.5, -3, -1e6, np.float64(-2.5), np.int32(-7), -np.inf])


def neg0(rng):
    return gen.pick(rng, [0, 0.0, -0.0, np.float32(0), neg(rng)])


def run_machine(case, rng, mon):
    from longitudinal_tomography import exceptions as ex
    kw, info = gen.machine_kwargs(rng, ring=case['i'], max_turns=60)
    kw.update(filmstart=1, filmstop=3, filmstep=1, niter=5, g_coupling=1.0, pickup_sensitivity=0.5)
    M, S = ex.MachineParameterError, ex.SpaceChargeParameterError
    # parameter, attribute, invalid values, class
    table = [(p, a, neg0, True, M) for p, a in
             (('dtbin', 'dtbin'), ('dturns', 'dturns'), ('niter', 'niter'), ('snpt', 'snpt'), ('h_num', 'h_num'), ('b0', 'b0'),
              ('mean_orbit_rad', 'mean_orbit_rad'), ('bending_rad', 'bending_rad'), ('rest_energy', 'e_rest'))]
    table += [(p, p, neg, True, M) for p in ('machine_ref_frame', 'beam_ref_frame', 'h_ratio', 'filmstart')]
    table += [(p, p, neg, False, S) for p in ('pickup_sensitivity', 'g_coupling')]
    table += [('filmstop', 'filmstop', lambda r: gen.pick(r, [0, -1, -5]), True, M),
              ('filmstep', 'filmstep', lambda r: gen.pick(r, [0, 4, 5, -4, 100]), True, M)]
    p, attr, bad, none_bad, cls = table[case['i'] % len(table)]
    v = None if none_bad and p != 'dtbin' and rng.random() < 0.2 else bad(rng)
    how = 'constructor'
    if v is None and p in ('rest_energy', 'dturns', 'dtbin'):
        v = bad(rng)
    if case['i'] % 3 == 0:
        how = 'later'
        m = gen.make_machine(kw)
        before = {k: np.copy(x) for k, x in vars(m).items() if isinstance(x, np.ndarray)}
        setattr(m, attr, v)
        e = mon.raises(cls, m.values_at_turns, f'{p} = {v!r}')
        for k, x in before.items():
            mon.equal(getattr(m, k), x, f'{k} after a refused update')
        # and it recovers
        setattr(m, attr, {'filmstop': 3, 'filmstep': 1, 'filmstart': 1}.get(p, kw[p]))
        m.values_at_turns()
        for k, x in before.items():
            mon.equal(getattr(m, k), x, f'{k} after the repaired update')
    elif case['i'] % 3 == 1:
        how = 'deferred'
        k2 = dict(kw)
        k2[p] = v
        m = gen.make_machine(k2, vat_now=False)
        e = mon.raises(cls, m.values_at_turns, f'{p} = {v!r}')
    else:
        k2 = dict(kw)
        k2[p] = v
        e = mon.raises(cls, lambda: gen.make_machine(k2), f'{p} = {v!r}')
    mon.check(isinstance(e, ex.TomoException) and isinstance(e, ValueError), 'class of the refusal')
    mon.state('machine', p, how, repr(v))
    # on the edge
    ok = gen.pick(rng, [dict(filmstart=0, filmstop=0, filmstep=1), dict(filmstart=2, filmstop=2, filmstep=-1), dict(snpt=1),
                        dict(niter=1), dict(g_coupling=0.0), dict(pickup_sensitivity=0.0), dict(filmstep=3), dict(filmstep=-3),
                        dict(machine_ref_frame=0, beam_ref_frame=0), dict(g_coupling=None, pickup_sensitivity=None)])
    k2 = dict(kw)
    k2.update(ok)
    gen.make_machine(k2)
    mon.ev('accepted_on_the_edge')
    # everything inside of the range passes the check, however small or large
    from longitudinal_tomography import assertions as A
    m = gen.make_machine(kw, vat_now=False)
    q = gen.pick(rng, ['dtbin', 'dturns', 'niter', 'snpt', 'h_num', 'b0', 'mean_orbit_rad', 'bending_rad', 'e_rest', 'h_ratio',
                       'pickup_sensitivity', 'g_coupling', 'machine_ref_frame', 'beam_ref_frame'])
    whole = q in ('dturns', 'niter', 'snpt', 'machine_ref_frame', 'beam_ref_frame')
    zero = q in ('h_ratio', 'pickup_sensitivity', 'g_coupling', 'machine_ref_frame', 'beam_ref_frame')
    setattr(m, q, gen.pick(rng, [0] * 3 * zero + ([1, 2, np.int32(1), 10 ** 6] if whole else [5e-324, 1e-9, 0.3, 1, np.float32(0.5), 1e9])))
    A.assert_machine_input(m)
    mon.state('in range', q, repr(getattr(m, q)))


def run_frames(case, rng, mon):
    from longitudinal_tomography import exceptions as ex
    from longitudinal_tomography.utils.tomo_input import Frames
    nf, nb = int(rng.integers(1, 8)), int(rng.integers(1, 12))
    raw = rng.normal(size=nf * nb)
    for _ in range(12):
        skip = int(rng.integers(-2, nf + 2))
        s0, s1 = int(rng.integers(-2, nb + 2)), int(rng.integers(-2, nb + 2))
        rb = int(rng.integers(-1, 4))
        fr = Frames(nf, nb, skip, s0, s1, rb, 1e-9)
        good = 0 <= skip < nf and 0 <= s0 < nb and 0 <= s1 < nb and s0 + s1 < nb and rb >= 1
        if good:
            w = fr.to_waterfall(raw)
            mon.equal(w, raw.reshape(nf, nb)[skip:, s0:nb - s1], 'waterfall of the frames')
            mon.check(w.shape == (fr.nprofs(), fr.nbins()), 'announced shape')
        else:
            mon.raises(ex.InputError, lambda: fr.to_waterfall(raw), f'frames {nf} {nb} {skip} {s0} {s1} {rb}')
        mon.state('frames', nf, nb, skip, s0, s1, rb)
    fr = Frames(nf, nb, 0, 0, 0, 1, 1e-9)
    n = nf * nb
    for bad in (n - 1, n + 1, 0 if n else 1, n * 2, n + nb):
        if bad == n or bad < 0:
            continue
        d = np.zeros(bad)
        mon.raises(ex.RawDataImportError, lambda: fr.to_waterfall(d), 'length of the data')

        def put():
            fr.raw_data = d
        mon.raises(ex.RawDataImportError, put, 'length of the data')
    for d in (3, None, 2.5):
        mon.raises(ex.RawDataImportError, lambda: fr.to_waterfall(d), 'data that is no collection')
    mon.check(fr.raw_data is None, 'a refused assignment changes nothing')
    fr.raw_data = raw
    keep = raw.copy()

    def put():
        fr.raw_data = raw[:-1]
    if n:
        mon.raises(ex.RawDataImportError, put, 'length of the data')
    mon.equal(fr.raw_data, keep, 'a refused assignment changes nothing')
    fr.raw_data[:] = 0
    mon.equal(fr.raw_data, keep, 'the data is handed out as a copy')
    mon.equal(fr.to_waterfall(list(raw)), keep.reshape(nf, nb), 'a list as data')


def run_file(case, rng, mon):
    """Input files with one parameter outside of its domain, through the
    steps of the reader and through the complete run."""
    import os
    from vt import inputs
    from longitudinal_tomography import exceptions as ex
    from longitudinal_tomography.utils import tomo_input as tin, tomo_run
    p, kw, info = inputs.params(rng, case['i'], nbins=int(rng.integers(24, 40)), nprofiles=int(rng.integers(3, 6)), max_turns=60)
    p.update(self=0, niter=2, snpt=1, rebin=1)
    raw = (1 + rng.random((p['frames'], p['bins'])) * (np.arange(p['bins']) > p['skip_start'] + 3)).ravel()
    ints = lambda *v: (lambda: int(gen.pick(rng, v)))
    flt = lambda *v: (lambda: float(gen.pick(rng, v)))
    F, B = p['frames'], p['bins']
    table = {'skip_frames': ints(-1, F, F + 3), 'skip_start': ints(-1, B, B + 5), 'skip_end': ints(-1, -4, B, B + 1), 'rebin': ints(0, -1),
             'dtbin': flt(0, -1e-9), 'dturns': ints(0, -1), 'first': ints(0, -1), 'last': ints(0, -2), 'step': ints(0, F + 2, -F - 5),
             'niter': ints(0, -1), 'snpt': ints(0, -2), 'beam_ref': ints(0, -1), 'mach_ref': ints(0, -3), 'h': flt(0, -1),
             'h_ratio': flt(-1, -0.5), 'b0': flt(0, -0.1), 'R': flt(0, -25), 'rho': flt(0, -8), 'm': flt(0, -9e8), 'g': flt(-1e-9, -1),
             'pickup': flt(-1, -1e-6), 'frames': ints(0, -1, F - 1, F + 1), 'bins': ints(0, -1, B - 1, B + 1)}
    names = sorted(table)
    name = names[case['i'] % len(names)]
    bad = dict(p, **{name: table[name]()})
    f = os.path.join(case['scratch'], f"bad{case['i']}.dat")
    with open(f, 'w') as o:
        o.write(inputs.text(bad, raw, rng))

    def read():
        par, data = tin.get_user_input(f)
        m, fr = tin.txt_input_to_machine(par)
        m.values_at_turns()
        tin.raw_data_to_profiles(fr.to_waterfall(data), m, fr.rebin, fr.sampling_time)
    # without any frame left the number of profiles is not even positive
    cls = Exception if name == 'skip_frames' else ex.TomoException
    mon.raises(cls, read, f'{name} = {bad[name]!r}: reading')
    mon.raises(cls, lambda: tomo_run.run(f), f'{name} = {bad[name]!r}: run')
    with open(f, 'w') as o:
        o.write(inputs.text(p, raw, rng))
    read()
    os.remove(f)
    mon.state('file', name, bad[name])


class Own(Exception):
    pass


def run_asserts(case, rng, mon):
    """The checking functions against their definition."""
    from longitudinal_tomography import assertions as A, exceptions as ex
    vals = [-np.inf, -3, -1, -0.5, -1e-300, 0, 1e-300, 0.5, 1, 1.0, 2, 3, np.inf, np.float32(1), np.int64(2)]

    def expect(ok, f, what, cls=Own):
        if ok:
            f()
            mon.ev('accepted')
        else:
            mon.raises(cls, f, what)
    for _ in range(20):
        v, a, b = (gen.pick(rng, vals) for _ in range(3))
        for name, ok in (('assert_greater', v > a), ('assert_less', v < a), ('assert_equal', v == a), ('assert_not_equal', v != a),
                         ('assert_less_or_equal', v <= a), ('assert_greater_or_equal', v >= a)):
            expect(ok, lambda: getattr(A, name)(v, 'x', a, Own), f'{name} {v} {a}')
        expect(a <= v <= b, lambda: A.assert_inrange(v, 'x', a, b, Own), f'assert_inrange {v} {a} {b}')
    n = int(rng.integers(1, 40))
    arr = rng.integers(0, 10, n).astype(float)
    if rng.random() < 0.7:
        arr[rng.integers(n)] = gen.pick(rng, [-1, 10, 11, -1e-9, 10 + 1e-9, 9.999])
    if rng.random() < 0.3:
        arr = arr.reshape(1, -1)
    for lo, hi in ((0, 9), (0, 10), (-1, 11), (3, 5)):
        expect(bool(np.all((arr >= lo) & (arr <= hi))), lambda: A.assert_array_in_range(arr, lo, hi, Own), 'assert_array_in_range')
    for lim in (-1, 0, 9, 10, 11, 5):
        for name, ok in (('greater', arr > lim), ('greater_eq', arr >= lim), ('less', arr < lim), ('less_eq', arr <= lim)):
            expect(bool(ok.all()), lambda: getattr(A, 'assert_array_' + name)(arr, lim, Own), f'assert_array_{name} {lim}')
        expect(not np.all(arr == lim), lambda: A.assert_array_not_equal(arr, 'x', lim, Own), 'assert_array_not_equal')
    # the message names the elements at fault
    vec, lim, off = arr.ravel(), float(gen.pick(rng, [0, 3, 5, 9])), int(gen.pick(rng, [0, 0, 4, 100]))
    for name, bad in (('greater', vec <= lim), ('greater_eq', vec < lim), ('less', vec >= lim), ('less_eq', vec > lim),
                      ('in_range', (vec < lim) | (vec > lim + 4))):
        if bad.any():
            try:
                getattr(A, 'assert_array_' + name)(vec, lim, *([lim + 4] if name == 'in_range' else []), Own, 'text of the caller', *([off] if off or rng.random() < 0.3 else []))
                msg = ''
            except Own as e:
                msg = str(e)
            at = [int(v) for v in ' '.join(re.findall(r'\[([\d\s]*)\]', msg)).split()]
            mon.check(at == list(np.flatnonzero(bad) + off) and 'text of the caller' in msg, f'message of assert_array_{name}', got=msg,
                      want=(np.flatnonzero(bad) + off).tolist())
            mon.ev('messages')
    same = np.full(n, 4.0)
    expect(False, lambda: A.assert_array_not_equal(same, 'x', 4, Own), 'assert_array_not_equal')
    # shapes
    s = [tuple(int(q) for q in rng.integers(1, 3, 2)) for _ in range(int(rng.integers(2, 5)))]
    arrays = [np.zeros(q) for q in s]
    want = s[int(rng.integers(len(s)))]
    expect(all(q == want for q in s), lambda: A.assert_array_shape_equal(arrays, 'abcd'[:len(s)], want), 'shapes', ex.UnequalArrayShapes)
    ln = [int(q) for q in rng.integers(1, 3, 2)]
    expect(ln[0] == ln[1], lambda: A.assert_array_numel_equal([np.zeros(q) for q in ln], 'ab', ln[0]), 'number of elements',
           ex.UnequalArrayShapes)
    mon.raises(AssertionError, lambda: A.assert_array_shape_equal([np.zeros(2)], 'a', (2,)), 'one array')
    # indices
    lim = int(rng.integers(1, 20))
    for idx in (0, lim - 1, lim, lim + 3, -1, -lim, -lim - 1, int(rng.integers(-30, 30))):
        for wrap in (False, True):
            def go():
                return A.assert_index_ok(idx, lim, wrap)
            if 0 <= idx < lim:
                mon.check(go() == idx, 'index', got=go(), want=idx)
            elif idx < 0 and not wrap:
                mon.raises(ex.NegativeIndexError, go, f'index {idx} of {lim}')
            elif -lim <= idx < 0:
                mon.check(go() == idx + lim, 'wrapped index', got=go(), want=idx + lim)
            else:
                mon.raises(IndexError, go, f'index {idx} of {lim}')
    # particles and fields
    nb = int(rng.integers(1, 30))
    xp = rng.integers(nb, size=(5, 4)).astype(float)
    bad = rng.random() < 0.6
    if bad:
        xp[rng.integers(5), rng.integers(4)] = gen.pick(rng, [-1, nb, nb + 5, -1e-9, 1e9])
    expect(not bad, lambda: A.assert_only_valid_particles(xp, nb), 'particles', ex.InvalidParticleError)

    class O:
        pass
    o = O()
    names = ['a', 'b', 'c']
    for q in names:
        setattr(o, q, gen.pick(rng, [0, '', False, np.zeros(0), 5]))
    gone = int(rng.integers(4))
    if gone < 3:
        if rng.random() < 0.5:
            delattr(o, names[gone])
        else:
            setattr(o, names[gone], None)
    expect(gone == 3, lambda: A.assert_fields(o, 'o', names, Own), 'fields')
    expect(True, lambda: A.assert_var_not_none(0, 'x', Own), 'zero is not None')
    expect(False, lambda: A.assert_var_not_none(None, 'x', Own), 'None')
    mon.state('asserts', n, lim, gone, nb, str(s))


def run_tomo(case, rng, mon):
    from longitudinal_tomography import exceptions as ex
    from longitudinal_tomography.tomography.tomography import Tomography
    from longitudinal_tomography.tomography import tomography_multibunch as mb
    T = mb.Tomography if case['i'] % 5 == 4 else Tomography
    n = (gen.SIZES + gen.BIG[:2])[int(rng.integers(len(gen.SIZES) + 2))]
    nprof, nb = int(rng.integers(1, 6)), int(gen.pick(rng, [1, 2, 10, 127, 128, 256, 300]))
    wf = rng.random((nprof, nb)) + 0.1
    dt = gen.pick(rng, [np.int32, np.int64, np.float64, np.float32, np.int16])
    good = rng.integers(nb, size=(n, nprof)).astype(dt)
    yp = rng.integers(nb, size=(n, nprof)).astype(np.int32)
    start = rng.integers(nb, size=(3, nprof))
    t = T(wf, start)
    fault = int(rng.integers(9))
    bad, cls = good.copy(), ex.XPOutOfImageWidthError
    at = (int(rng.integers(n)), int(rng.integers(nprof)))
    if fault == 0:
        bad[at] = -1
    elif fault == 1:
        bad[at] = nb
    elif fault == 2:
        bad[at] = gen.pick(rng, [-32768, -300, nb + 1000, 32767])
    elif fault == 3:
        bad = bad.astype(float)
        bad[at] = gen.pick(rng, [-0.5, -1e-9, nb + 0.001, np.nan, np.inf, -np.inf, 1e30, 2.0 ** 32])
    elif fault == 4:
        bad, cls = good[:, 0], ex.CoordinateImportError
    elif fault == 5:
        bad, cls = good[:, :, None], ex.CoordinateImportError
    elif fault == 6:
        bad, cls = np.concatenate([good, good], axis=1), ex.CoordinateImportError
    elif fault == 7:
        bad, cls = good[:, :nprof - 1], ex.CoordinateImportError
    else:
        bad, cls = gen.pick(rng, [3, 2.5, True]), ex.CoordinateImportError

    def put():
        t.xp = bad
    mon.raises(cls, put, f'fault {fault} at {at} of {good.shape}')
    mon.raises(cls, lambda: T(wf, bad), f'fault {fault} in the constructor')
    mon.equal(t.xp, start, 'a refused assignment changes nothing')
    mon.check(t.nparts == 3, 'number of particles after a refusal')
    # on the edge
    edge = good.copy()
    edge[0, :] = 0
    edge[-1, :] = nb - 1
    t.xp = edge
    mon.equal(t.xp, edge.astype(np.int32), 'coordinates')
    mon.check(t.nparts == n and t.xp.dtype == np.int32, 'coordinates')
    # y coordinates
    t.yp = yp
    mon.equal(t.yp, yp, 'y coordinates')
    other = gen.pick(rng, [yp[:, :-1], yp[:-1], yp.T[:, :n + 1] if n != nprof else yp[:-1], 7])

    def puty():
        t.yp = other
    if not (hasattr(other, 'shape') and other.shape == t.xp.shape):
        mon.raises(ex.CoordinateImportError, puty, 'y coordinates of another shape')
        mon.equal(t.yp, yp, 'a refused assignment changes nothing')
    t2 = T(wf)

    def puty2():
        t2.yp = yp
    mon.raises(ex.CoordinateImportError, puty2, 'y before x')
    args = ([0], [0], [nb]) if T is not Tomography else ()
    mon.raises(ex.CoordinateError, lambda: t2.run(*args), 'no coordinates')
    mon.raises(ex.CoordinateError, lambda: t2.run_hybrid(*((([0], [(0, nb)]),) if T is not Tomography else ())[0]
                                                         if T is not Tomography else ()), 'no coordinates')
    t.xp = None
    mon.check(t.xp is None and t.nparts is None, 'coordinates taken away')
    mon.raises(ex.CoordinateError, lambda: t.run(*args), 'no coordinates')
    # waterfalls
    z = wf.copy()
    z[int(rng.integers(nprof))] = gen.pick(rng, [0.0, -1.0])
    mon.raises(ex.WaterfallReducedToZero, lambda: T(z), 'an empty profile')
    mon.raises(ex.WaterfallReducedToZero, lambda: T(wf * 0), 'an empty waterfall')
    mon.raises(ex.WaterfallReducedToZero, lambda: T(-wf), 'a negative waterfall')
    mon.state('tomo', fault, n, nprof, nb, np.dtype(dt).name, T is Tomography)


def run_particles(case, rng, mon):
    from longitudinal_tomography import exceptions as ex
    from longitudinal_tomography.tracking import particles as pts
    n, nprof, nb = int(gen.pick(rng, gen.SIZES)), int(rng.integers(1, 6)), int(rng.integers(2, 40))
    P = pts.Particles()
    good = (rng.random(n), rng.random(n))
    P.coordinates_dphi_denergy = good
    bad = [3, None, 2.5, (good[0],), (good[0], good[1], good[0]), (good[0], 3.0), (4, good[1]), (good[0], good[1][:-1]),
           (good[0][:-1], good[1]), (), [good[0], np.append(good[1], 1.0)]]
    k = int(rng.integers(len(bad)))

    def put():
        P.coordinates_dphi_denergy = bad[k]
    mon.raises(ex.InvalidParticleError, put, f'coordinates {k}')
    c = P.coordinates_dphi_denergy
    mon.check(c[0] is good[0] or np.array_equal(c[0], good[0]), 'a refused assignment changes nothing')
    mon.equal(c[1], good[1], 'a refused assignment changes nothing')
    # all lost
    xp = rng.integers(nb, size=(nprof, n)).astype(float)
    yp = rng.integers(nb, size=(nprof, n)).astype(float)
    lost = xp.copy()
    for j in range(n):
        lost[rng.integers(nprof), j] = gen.pick(rng, [-1, -1e-9, nb, nb + 1e-9, np.nan, np.inf, -np.inf])
    for f in (pts.filter_lost, pts.ready_for_tomography):
        mon.raises(ex.InvalidParticleError, lambda: f(lost, yp, nb), 'nothing left')
    one = lost.copy()
    j = int(rng.integers(n))
    one[:, j] = xp[:, j]
    gx, gy, nl = pts.filter_lost(one, yp, nb)
    mon.equal(gx, xp[:, j:j + 1], 'the only one left')
    mon.equal(gy, yp[:, j:j + 1], 'the only one left')
    mon.check(nl == n - 1, 'number of lost particles', got=nl, want=n - 1)
    # shapes of tracked coordinates
    kw, info = gen.machine_kwargs(rng, ring=case['i'], nprofiles=nprof + 1, dturns=2)
    m = gen.make_machine(kw)
    a = rng.random((nprof, n))
    for b in (rng.random((nprof, n + 1)), rng.random((nprof + 1, n)), rng.random(n) if n != nprof else rng.random(n + 1)):
        mon.raises(ex.InvalidParticleError, lambda: pts.physical_to_coords(a, b, m, 0.0, 1.0), 'unequal shapes')
        mon.raises(ex.InvalidParticleError, lambda: pts.physical_to_coords(b, a, m, 0.0, 1.0), 'unequal shapes')
    # a machine without its tables
    m = gen.make_machine(kw, vat_now=False)
    mon.raises(ex.MachineParameterError, lambda: pts.Particles().homogeneous_distribution(m, 0), 'no tables')
    m = gen.make_machine(kw)
    f = gen.pick(rng, ['snpt', 'h_num', 'omega_rev0', 'eta0', 'dtbin', 'phi0', 'dturns', 'phi12', 'beam_ref_frame', 'demax', 'e0',
                       'min_dt', 'max_dt', 'time_at_turn', 'full_pp_flag'])
    setattr(m, f, None)
    mon.raises(ex.MachineParameterError, lambda: pts.Particles().homogeneous_distribution(m, 0), f'{f} is missing')
    mon.state('particles', k, n, nprof, nb, f)


def run_tracker(case, rng, mon):
    from longitudinal_tomography import exceptions as ex
    from longitudinal_tomography.tracking.tracking import Tracking
    kw, info = gen.machine_kwargs(rng, ring=case['i'], max_turns=60)
    m = gen.make_machine(kw)
    d = gen.distribution(rng, m, info, 4)
    N = m.nprofiles
    tr = Tracking(m)
    for r in (N - 1, -1):
        mon.raises(ValueError, lambda: tr.track(r, init_distr=d), f'start at the last profile ({r})')
    for r in (N, N + 1, N + 100, -N - 1, -N - 50):
        mon.raises(IndexError, lambda: tr.track(r, init_distr=d), f'profile {r} of {N}')
    for dt in (m.dturns, -m.dturns, 10 * m.dturns):
        mon.raises(ValueError, lambda: tr.track(0, init_distr=d, deltaturn=dt), 'deltaturn')
    a = tr.track(0, init_distr=d)
    b = tr.track(-N, init_distr=d)
    mon.equal(a[0], b[0], 'first profile, counted from the end')
    f = gen.pick(rng, ['vrf1_at_turn', 'vrf2_at_turn', 'q', 'nprofiles', 'drift_coef', 'dturns', 'phi0', 'phi12', 'h_ratio', 'deltaE0',
                       'synch_part_x'])
    m2 = gen.make_machine(kw)
    setattr(m2, f, None)
    mon.raises(ex.MachineParameterError, lambda: Tracking(m2), f'{f} is missing')
    m2 = gen.make_machine(kw)
    delattr(m2, f)
    mon.raises(ex.MachineParameterError, lambda: Tracking(m2), f'{f} is missing')
    for s in (-1, -1e-9, -0.5):
        m2 = gen.make_machine(kw, synch_part_x=s)
        mon.raises(ex.MachineParameterError, lambda: Tracking(m2), f'synch_part_x {s}')
    Tracking(gen.make_machine(kw, synch_part_x=0.0))
    for o in (None, 3, object(), kw, 'machine'):
        mon.raises(ex.MachineParameterError, lambda: Tracking(o), 'not a machine')
    mon.raises(ex.ProfileChargeNotCalculated, lambda: tr.enable_fortran_output(None), 'no charge')
    mon.check(tr.fortran_flag is False, 'a refusal changes nothing')
    tr2 = Tracking(m)
    tr2.enable_fortran_output(0.0)
    mon.check(tr2.fortran_flag, 'zero charge is a charge')

    class P:
        pass
    p = P()
    mon.raises(ex.SelfFieldTrackingError, lambda: tr.enable_self_fields(p), 'no self fields')
    p.phiwrap = 1.0
    mon.raises(ex.SelfFieldTrackingError, lambda: tr.enable_self_fields(p), 'no self fields')
    p.vself, p.phiwrap = np.zeros((N - 1, 5)), None
    mon.raises(ex.SelfFieldTrackingError, lambda: tr.enable_self_fields(p), 'no self fields')
    mon.check(tr.self_field_flag is False, 'a refusal changes nothing')
    for bad in ((d[0], d[1][:-1]), (d[0],), (1.0, 2.0), 7.0):
        mon.raises(Exception, lambda: tr.track(0, init_distr=bad), 'coordinates')
    c = tr.track(0, init_distr=d)
    mon.equal(c[0], a[0], 'tracking after refusals')
    mon.equal(c[1], a[1], 'tracking after refusals')
    mon.state('tracker', info['ring'], N, m.dturns, f)


def run_profiles(case, rng, mon):
    from longitudinal_tomography import exceptions as ex
    from longitudinal_tomography.data.profiles import Profiles
    from longitudinal_tomography.utils import tomo_input as tin
    kw, info = gen.machine_kwargs(rng, ring=case['i'], max_turns=60)
    m = gen.make_machine(kw, pickup_sensitivity=0.5, g_coupling=1.0, zwall_over_n=1.0)
    N, nb = m.nprofiles, int(rng.integers(20, 60))
    wf = rng.random((N, nb)) + 0.1
    for bad in (wf[:-1], np.concatenate([wf, wf[:1]]), wf[:0]):
        mon.raises(ex.WaterfallError, lambda: Profiles(m, 1e-9, bad), 'number of profiles')
    for bad in (3, None, 2.0):
        mon.raises(ex.WaterfallError, lambda: Profiles(m, 1e-9, bad), 'not a waterfall')
        mon.raises(ex.WaterfallError, lambda: tin.raw_data_to_profiles(bad, m, 1, 1e-9), 'not a waterfall')
    mon.check(m.nbins == kw['nbins'], 'a refusal leaves the machine as it was')
    for bad in (wf * 0, -wf):
        mon.raises(ex.WaterfallReducedToZero, lambda: Profiles(m, 1e-9, bad), 'nothing positive')
    one = -wf
    one[int(rng.integers(N)), int(rng.integers(nb))] = 1e-6
    p = Profiles(m, 1e-9, one)
    mon.close(p.waterfall.sum(), 1e-6, 'one positive bin is enough')
    p = Profiles(m, 1e-9, wf)
    mon.check(m.nbins == nb, 'number of bins')
    mon.raises(ex.ProfileChargeNotCalculated, p.calc_self_fields, 'no charge')
    mon.check(p.vself is None and p.phiwrap is None, 'a refusal changes nothing')
    p.calc_profilecharge()
    for bad in (wf[:, :-1], wf[:-1], wf.T if N != nb else wf[:-1], wf[0], 4.0, np.concatenate([wf, wf], axis=1)):
        mon.raises(ex.FilteredProfilesError, lambda: p.calc_self_fields(filtered_profiles=bad), 'filtered profiles')
        mon.raises(ex.FilteredProfilesError, lambda: p.calc_self_fields(in_filter=lambda x: bad), 'filter')
    mon.check(p.vself is None, 'a refusal computes nothing')
    mon.check(p.dsprofiles is None, 'refused profiles are not kept')
    p.calc_self_fields()
    was = [np.array(p.dsprofiles), np.array(p.vself), p.phiwrap, p.wrap_length]
    bad = wf[:, :-1]
    mon.raises(ex.FilteredProfilesError, lambda: p.calc_self_fields(filtered_profiles=bad), 'filtered profiles')
    mon.raises(ex.FilteredProfilesError, lambda: p.calc_self_fields(in_filter=lambda x: bad), 'filter')
    mon.raises(ex.FilteredProfilesError, lambda: p.calc_self_fields(in_filter=lambda x: 1.0), 'filter')
    mon.equal(p.dsprofiles, was[0], 'filtered profiles after a refusal')
    mon.equal(p.vself, was[1], 'fields after a refusal')
    mon.check((p.phiwrap, p.wrap_length) == (was[2], was[3]), 'wrapping after a refusal')

    def put(v):
        p.waterfall = v
    mon.raises(ex.WaterfallError, lambda: put(wf[:-1]), 'number of profiles')
    mon.raises(ex.WaterfallError, lambda: put(3.0), 'not a waterfall')
    for bad in (wf * 0, -wf, -wf[:, 1:], 0 * wf[:, :-2], np.concatenate([wf, wf], axis=1) * -1):
        mon.raises(ex.WaterfallReducedToZero, lambda: put(bad), 'nothing positive')
        mon.check(m.nbins == nb, 'a refused assignment leaves the machine', got=m.nbins, want=nb)
    mon.equal(p.waterfall, wf, 'a refused assignment changes nothing')
    # refused raw data leaves the machine as it was
    m.synch_part_x = 4.0
    keep = {k: np.array(v) if isinstance(v, np.ndarray) else v for k, v in vars(m).items()}
    flat = np.ones((N, nb)) * int(rng.integers(-24, 25)) / 8
    step = np.where(np.arange(nb) < nb // 2, 2.0, 1.0) * np.ones((N, 1))
    for bad, exc in ((flat, ex.WaterfallReducedToZero), (step, ex.WaterfallReducedToZero), (wf[:-1], ex.WaterfallError)):
        if len(bad) <= m.beam_ref_frame:
            continue
        mon.raises(exc, lambda: tin.raw_data_to_profiles(bad, m, int(rng.integers(1, 4)), 1e-9), 'refused raw data')
        now = vars(m)
        mon.check(set(now) == set(keep), 'names of the machine')
        for k, v in keep.items():
            mon.check(np.array_equal(now[k], v), f'a refusal leaves machine.{k}', got=str(now[k])[:80], want=str(v)[:80])
    mon.state('profiles', N, nb, info['ring'])


def run_misc(case, rng, mon):
    from longitudinal_tomography import exceptions as ex
    from longitudinal_tomography.compat import fortran as ftn
    from longitudinal_tomography.data import pre_process as pre, post_process as post, data_treatment as dtreat
    from longitudinal_tomography.utils import tomographics as tg
    from longitudinal_tomography.tracking.phase_space_info import PhaseSpaceInfo
    from longitudinal_tomography.cpp_routines import libtomo, tomolib_wrappers as tw
    from longitudinal_tomography.tracking.particles import Particles
    k = case['i'] % 10
    nprof, nb = int(rng.integers(1, 6)), int(rng.integers(20, 60))
    wf = rng.random((nprof, nb))
    if k == 0:
        for p in (-1e-9, -1, 1 + 1e-9, 5, 100, -np.inf, np.inf):
            mon.raises(ex.InputError, lambda: ftn.calc_baseline(wf, 0, p), f'percent {p}')
        mon.close(ftn.calc_baseline(wf, 0, 1.0), wf[0].mean(), 'all bins')
    elif k == 1:
        for _ in range(20):
            cl, cr = int(rng.integers(-5, nb + 5)), int(rng.integers(-nb - 5, nb + 5))
            if cl < 0 or cr > nb or (cr >= 0 and cr <= cl) or (cr < 0 and (cr < -nb or nb + cr <= cl)):
                mon.raises(ValueError, lambda: pre.cut_waterfall(wf, cl, cr), f'cuts {cl} {cr} of {nb}')
            else:
                mon.equal(pre.cut_waterfall(wf, cl, cr), wf[:, cl:cr], 'cut waterfall')
            mon.state('cuts', nb, cl, cr)
    elif k == 2:
        t, e = np.arange(5.0), np.arange(6.0)
        im = rng.random((5, 6))
        for f in (-1e-9, -1.0, 100.0001, 1000.0):
            mon.raises(ValueError, lambda: post.emittance_fractional(im, t, e, fraction=f), f'fraction {f}')
        post.emittance_fractional(im, t, e, fraction=0.0)
        post.emittance_fractional(im, t, e, fraction=100.0)
        mon.raises(ex.UnequalArrayShapes, lambda: post.emittance_rms(im, e, t), 'axes exchanged')
        mon.raises(ex.UnequalArrayShapes, lambda: post.emittance_rms(im, t[:-1], e), 'short axis')
        mon.raises(ex.UnequalArrayShapes, lambda: post.rms_dpp(im.sum(0), t, 2e9, 1e9), 'wrong axis')
    elif k == 3:
        x = np.arange(40.0)
        y = np.clip(1 - ((x - 20) / 8) ** 2, 0, None)
        for lv in (0, 1, -0.1, 1.5, 0.0):
            mon.raises(ValueError, lambda: tg.foot_tangent_fit_density(y, x, lv), f'level {lv}')
        im = rng.random((5, 5))
        for lv in (0, 1, -0.1, 1.5):
            mon.raises(ValueError, lambda: tg.emittance_density_calc(im, 1, 1, lv), f'density {lv}')
        s = float(rng.uniform(0.5, 1.0))
        wide = s + 0 * x
        mon.raises(ex.InvalidProfileError, lambda: tg.foot_tangent_fit_dq(x, wide, 100.0, False), 'profile as long as the image')
        mon.raises(ex.InvalidProfileError, lambda: tg.foot_tangent_fit_dq(x, y, 3.0, False), 'longer than the rf period')
    elif k == 4:
        xp = rng.integers(nb, size=(5, nprof))
        for a, b in ((xp, None), (None, xp)):
            mon.raises(ValueError, lambda: pre.filter_profiles(wf, a, b), 'only one of the coordinates')
        w = np.ones((6, 10))
        w[:2] = 0.01      # two nearly empty profiles at the start
        for r in (0, 1):
            mon.raises(ValueError, lambda: pre.filter_profiles(w, rec_prof=r), 'the profile is removed')
        mon.check(pre.filter_profiles(w, rec_prof=2)[-1] == 0, 'first kept profile')
    elif k == 5:
        m, kw, info = gen.bucket_machine(rng, nprofiles=3, nbins=20)
        m.demax = gen.pick(rng, [0.0, 0, -0.0])
        mon.raises(ex.EnergyBinningError, lambda: PhaseSpaceInfo(m).find_binned_phase_energy_limits(), 'demax 0')
        m.demax = -1e6
        mon.raises(ex.EnergyBinningError, lambda: PhaseSpaceInfo(m).find_dEbin(), 'no origin')
        mon.raises(ex.EnergyBinningError, lambda: ftn.write_plotinfo(m, Particles(), 1.0), 'no energy bin')
        p = Particles()
        p.dEbin = 1.0
        mon.raises(ex.PhaseLimitsError, lambda: ftn.write_plotinfo(m, p, 1.0), 'no phase limits')
        for a, b in ((3, None), (None, 3), (0, None), (None, 0)):
            p.imin, p.imax = a, b
            mon.raises(ex.PhaseLimitsError, lambda: ftn.write_plotinfo(m, p, 1.0), f'phase limits {a} {b}')
        m.dEbin = None

        class T:
            pass
        mon.raises(ex.InputError, lambda: dtreat.phase_space(T(), m, 0), 'no energy bin')
    elif k == 6:
        n = int(gen.pick(rng, gen.SIZES))
        xp = rng.integers(nb, size=n).astype(np.int32)
        yp = rng.integers(nb, size=n).astype(np.int32)
        w = rng.random(n)
        bx, by = xp.copy(), yp.copy()
        which = bx if rng.random() < 0.5 else by
        which[int(rng.integers(n))] = gen.pick(rng, [-1, nb, nb + 1, -nb, 2 ** 31 - 1, -2 ** 31])
        mon.raises(IndexError, lambda: libtomo.make_phase_space(bx, by, w, nb), 'a coordinate outside the image')
        mon.close(libtomo.make_phase_space(xp, yp, w, nb), refs.phase_space(xp, yp, w, nb), 'image after a refusal', rtol=1e-12)
    elif k == 7:
        a = np.zeros((3, 2))
        full = dict(phi0=np.zeros(5), deltaE0=np.zeros(5), omega_rev0=np.zeros(5), drift_coef=np.zeros(5), phi12=0.1, h_ratio=2.0, dturns=2)
        gone = gen.pick(rng, sorted(full))
        del full[gone]
        mon.raises(ex.InputError, lambda: tw.kick_and_drift(a, a.copy(), np.zeros(2), np.zeros(2), np.zeros(5), np.zeros(5), 0, 4, 2, **full),
                   f'{gone} is missing')
        mon.state('wrapper', gone)
    elif k == 8:
        from longitudinal_tomography.tracking.programs_machine import ProgramsMachine
        base = dict(dturns=2, voltage_function=np.array([[0., 1e-3], [1e4, 1e4]]), momentum_function=np.array([[0., 1e-3], [1e9, 1e9]]),
                    mean_orbit_rad=25.0, bending_rad=8.2, trans_gamma=4.1, rest_energy=gen.MP, nprofiles=3, nbins=20, dtbin=1e-8,
                    t_ref=1e-4, phi12=0.0)
        for h in ([], [1, 2, 3], [1] * 7):
            mon.raises(ex.ArrayLengthError, lambda: ProgramsMachine(harmonics=h, **base), 'number of harmonics')
        ProgramsMachine(harmonics=[1], **base)
    else:
        # a phase space without any weight
        t = rng.random((2, 10)) + 0.1
        xp = np.zeros((4, 2), np.int32)
        wz = np.zeros((2, 10))
        wz[:, 5] = 1.0      # nobody is where the beam is
        mon.raises(RuntimeError, lambda: libtomo.reconstruct(xp, wz - 1e-3, 3, 10, 4, 2, False), 'nothing left of the phase space')
    mon.state('misc', k, nprof, nb)


def run_empty(case, rng, mon):
    """Refusals inside the native library release what they hold and leave it
    usable (under the address sanitizer)."""
    from longitudinal_tomography.cpp_routines import libtomo
    n, nprof, nb = int(rng.integers(1, 300)), int(rng.integers(1, 8)), int(rng.integers(2, 40))
    xp = rng.integers(nb, size=(n, nprof)).astype(np.int32)
    for _ in range(3):
        mon.raises(RuntimeError, lambda: libtomo.reconstruct(xp, np.full((nprof, nb), -1.0), 4, nb, n, nprof, False), 'negative profiles')
        c = np.zeros(1, np.int32)
        mon.raises(RuntimeError, lambda: libtomo.reconstruct_multi(xp, np.full((nprof, nb), -1.0), c - 1, c + nb, c, 4, nb, n, nprof, 1, False),
                   'negative profiles')
        bx = xp[:, 0].copy()
        bx[int(rng.integers(n))] = gen.pick(rng, [-1, nb, 2 ** 31 - 1])
        mon.raises(IndexError, lambda: libtomo.make_phase_space(bx, xp[:, 0].copy(), np.ones(n), nb), 'outside the image')
    wf = refs.normalise(refs.project(xp, rng.random(n) + 0.1, nprof, nb) + 0.01)
    w, d, r = libtomo.reconstruct(xp, wf, 0, nb, n, nprof, False)
    mon.close(w, refs.back(xp, wf), 'reconstruction after refusals', rtol=1e-10)
    mon.state('empty', n, nprof, nb)
