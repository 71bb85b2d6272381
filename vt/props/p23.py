"""P23: the fitted synchronous position and bunch limits."""
import copy
import numpy as np
from vt import gen
from vt.mon import Skip

RULE = """Every case draws a machine (all rings, both sides of transition, both
signs of charge, ramps of field and voltage, one or two rf systems, programs) and
profiles holding one bunch of several shapes, and fits the synchronous position.
The limits of the bunch must be the zero crossings of the lines through the four
bins around the last bins above 15% of the maximum, and the synchronous position the
one at which the rf potential of that turn is equal at both limits, found here by
bisection.  Related calls (scaled, moved, mirrored data, other profiles changed, other
call forms) must agree, and a matched beam made from the machine's own Hamiltonian
must be found where it was put.  Distinct cases differ in ring, shape, options or
relation."""
ASSUMPTIONS = ['one bunch, at least two bins of tail on either side', 'potential at the limits has one solution around the synchronous phase',
               'the Newton search of the code is documented to 1e-4 rad']

QUICK = 5
KINDS = {
    'model': ('plain', 500, 8000),
    'relations': ('plain', 300, 5000),
    'matched': ('plain', 150, 2500),
    'programs': ('plain', 80, 1200),
}


def bunch(rng, nb, kind=None, c=None, w=None):
    """One bunch that falls below 15% at least three bins before either end."""
    kind = kind or gen.pick(rng, ['parabola', 'gauss', 'cos2', 'triangle', 'flat', 'skew', 'noisy', 'tailed'])
    x = np.arange(nb) + 0.5
    w = w if w is not None else rng.uniform(3.5, nb * 0.32)
    c = c if c is not None else nb * rng.uniform(0.42, 0.58)
    u = (x - c) / w
    if kind == 'parabola':
        y = np.clip(1 - u ** 2, 0, None)
    elif kind in ('gauss', 'noisy', 'tailed'):
        y = np.exp(-4 * u ** 2)
    elif kind == 'cos2':
        y = np.where(abs(u) < 1, np.cos(np.clip(u, -1, 1) * np.pi / 2) ** 2, 0)
    elif kind == 'triangle':
        y = np.clip(1 - abs(u), 0, None)
    elif kind == 'flat':
        y = np.clip(2.5 * (1 - abs(u)), 0, 1)
    else:
        y = np.clip(1 - u ** 2, 0, None) * (1 + 0.6 * np.clip(u, -1, 1))
    if kind == 'noisy':
        y = y + rng.normal(0, 0.008, nb)
    if kind == 'tailed':
        y = y + 0.03
    return kind, y * 10.0 ** rng.uniform(-6, 9)


def feet(y):
    """Bunch limits by the documented construction, or Skip outside of the domain."""
    nb = len(y)
    thr = 0.15 * y.max()
    top = int(np.argmax(y))
    if np.sum(y == y.max()) > 1 and np.ptp(np.where(y == y.max())[0]) + 1 != np.sum(y == y.max()):
        raise Skip('two maxima')
    if np.min(np.abs(y / y.max() - 0.15)) < 1e-9:
        raise Skip('a bin on the threshold')
    lo = [i for i in range(1, top + 1) if y[i] < thr]
    up = [i for i in range(top, nb) if y[i] < thr]
    if not lo or not up or up[0] > nb - 2:
        raise Skip('the bunch touches the border')
    lo, up = lo[-1] + 1, up[0] - 1

    def zero(a):
        x = np.arange(a, a + 4) + np.longdouble(0.5)
        v = y[a:a + 4].astype(np.longdouble)
        mx, mv = x.mean(), v.mean()
        s = ((x - mx) * (v - mv)).sum() / ((x - mx) ** 2).sum()
        if abs(s) < 1e-3 * np.ptp(y):
            raise Skip('flat tangent')
        return float(mx - mv / s)
    a, b = zero(lo - 2), zero(up - 1)
    if not a < b:
        raise Skip('limits cross')
    return a, b


def potential(v1, v2, hr, p12, phis):
    """Antiderivative of V(phi) - V(phis)."""
    vs = v1 * np.sin(phis) + v2 * np.sin(hr * (phis - p12))
    return lambda p: -v1 * np.cos(p) - v2 / hr * np.cos(hr * (p - p12)) - vs * p


def position(m, lo, up, turn):
    """(x of the synchronous particle, slope of the equation) or Skip."""
    hw = m.h_num * m.omega_rev0[turn] * m.dtbin
    L = (up - lo) * hw
    p12 = m.phi12[turn] if np.ndim(m.phi12) else m.phi12
    v1, v2, phis = m.vrf1_at_turn[turn], m.vrf2_at_turn[turn], m.phi0[turn]
    U = potential(v1, v2, m.h_ratio, p12, phis)
    f = lambda p: (U(p + L) - U(p)) / v1
    # exactly one crossing with the limits around the synchronous phase
    grid = np.linspace(phis - L, phis, 800)
    g = f(grid)
    s = np.where(np.sign(g[:-1]) * np.sign(g[1:]) <= 0)[0]
    if s.size != 1:
        raise Skip('potential without a unique pair')
    slope = np.gradient(g, grid)
    # Newton is safe where the function is monotonous
    if np.min(np.abs(slope)) < 0.15 * L or np.ptp(np.sign(slope)) > 0:
        raise Skip('flat potential')
    a, b = grid[s[0]], grid[s[0] + 1]
    fa = f(a)
    for _ in range(60):
        c = 0.5 * (a + b)
        if (f(c) > 0) == (fa > 0):
            a = c
        else:
            b = c
    return lo + (phis - 0.5 * (a + b)) / hw, hw


def machine(rng, case, **k):
    k.setdefault('smax', 0.3)
    k.setdefault('cover', (0.4, 0.9))
    kw, info = gen.machine_kwargs(rng, ring=case, nprofiles=int(rng.integers(2, 14)), max_turns=400, **k)
    return gen.make_machine(kw, synch_part_x=-1.0), kw, info


def profiles(m, w):
    from longitudinal_tomography.data.profiles import Profiles
    return Profiles(m, m.dtbin, w)


def towards(rng, y):
    """The bunch as close to an end of the profile as the fit allows."""
    thr, top = 0.15 * y.max(), int(np.argmax(y))
    lo = [i for i in range(1, top + 1) if y[i] < thr]
    up = [i for i in range(top, len(y)) if y[i] < thr]
    if not lo or not up:
        return y
    if rng.random() < 0.5:
        return np.roll(y, int(rng.integers(1, 4)) - lo[-1])
    return np.roll(y, len(y) - 1 - int(rng.integers(1, 4)) - up[0])


def fill(rng, m, y):
    """The bunch in the reference profile, other things in the others."""
    w = np.array([bunch(rng, m.nbins)[1] for _ in range(m.nprofiles)])
    if rng.random() < 0.3:
        w = rng.normal(0, 1, w.shape)
    w[m.beam_ref_frame] = y
    return w


def compare(mon, got, lo, up, x, hw, msg):
    mon.check(len(got) == 3, msg + ': three values', got=len(got))
    mon.close(got[1], lo, msg + ': lower limit', rtol=1e-8, atol=1e-7)
    mon.close(got[2], up, msg + ': upper limit', rtol=1e-8, atol=1e-7)
    mon.close(got[0], x, msg + ': synchronous position', atol=1e-4 / hw + 1e-6)
    mon.check(got[1] < got[0] < got[2], msg + ': position inside of the bunch', x=got[0], lo=got[1], up=got[2])


def run_model(case, rng, mon):
    from longitudinal_tomography.data import pre_process, data_treatment
    m, kw, info = machine(rng, case['i'])
    kind, y = bunch(rng, m.nbins)
    if case['i'] % 6 == 5:
        y = towards(rng, y)
    lo, up = feet(y)
    turn = m.beam_ref_frame * m.dturns
    x, hw = position(m, lo, up, turn)
    w = fill(rng, m, y)
    w0 = w.copy()
    w = gen.lay(rng, w)
    got = pre_process.fit_synch_part_x(w, m)
    compare(mon, got, lo, up, x, hw, 'fit')
    mon.equal(w, w0, 'profiles after the fit')
    mon.equal(np.float64(m.synch_part_x), np.float64(-1.0), 'machine after the fit')
    p = profiles(m, w)
    lo2, up2 = feet(np.clip(y, 0, None))
    x2, hw = position(m, lo2, up2, turn)
    for f, t in ((pre_process.fit_synch_part_x, 'fit of profiles'), (data_treatment.fit_synch_part_x, 'data_treatment fit')):
        r = f(p)
        compare(mon, r, lo2, up2, x2, hw, t)
    # loading the result sets position and limits
    m.load_fitted_synch_part_x_ftn(got)
    mon.equal(np.float64(m.synch_part_x), np.float64(got[0]), 'loaded position')
    mon.equal(np.array([m.bunchlimit_low, m.bunchlimit_up, m.fitted_synch_part_x], float), np.array([got[1], got[2], got[0]], float), 'loaded limits')
    if kw['vrf1dot'] and turn:
        mon.ev('voltage_ramps')
    if kw['bdot']:
        mon.ev('field_ramps')
    mon.state('model', info['ring'], kind, bool(kw['vrf1dot']), bool(kw['bdot']), info['dual'], bool(kw['beam_ref_frame']), bool(kw['machine_ref_frame']))


def run_relations(case, rng, mon):
    from longitudinal_tomography.data import pre_process
    rel = ['scale', 'shift', 'others', 'mirror', 'again', 'precision', 'offset'][case['i'] % 7]
    flat = rel == 'mirror'
    m, kw, info = machine(rng, case['i'] // 7, accel=False if flat else None, dual=False if flat else None)
    k = int(rng.integers(-2, 3))
    kind, y = bunch(rng, m.nbins)
    lo, up = feet(y)
    x, hw = position(m, lo, up, m.beam_ref_frame * m.dturns)
    w = fill(rng, m, y)
    fit = pre_process.fit_synch_part_x
    a = np.array(fit(w, m))
    tol = dict(rtol=1e-9, atol=2e-4 / hw + 1e-6)
    lim = dict(rtol=1e-8, atol=1e-7)
    if rel == 'scale':
        b = np.array(fit(w * 2.0 ** int(rng.integers(-20, 20)), m))
        mon.close(b, a, 'fit of scaled profiles', **lim)
    elif rel == 'shift':
        v = np.roll(w, k, axis=1)
        feet(v[m.beam_ref_frame])
        b = np.array(fit(v, m))
        mon.close(b, a + k, 'fit of moved profiles', **lim)
    elif rel == 'others':
        v = rng.normal(0, 1e3, w.shape)
        v[m.beam_ref_frame] = y
        mon.equal(np.array(fit(v, m)), a, 'fit after other profiles changed')
    elif rel == 'mirror':
        b = np.array(fit(np.ascontiguousarray(w[:, ::-1]), m))
        feet(y[::-1].copy())
        mon.close(b[[0, 2, 1]], m.nbins - a, 'fit of mirrored profiles', **lim)
        mon.close(a[0], 0.5 * (a[1] + a[2]), 'stationary bucket: middle of the bunch', **tol)
    elif rel == 'again':
        for _ in range(2):
            mon.equal(np.array(fit(w, m)), a, 'fit repeated')
        m2 = gen.make_machine(kw, synch_part_x=-1.0)
        mon.equal(np.array(fit(w, m2)), a, 'fit with a fresh machine')
    elif rel == 'precision':
        v = np.asfortranarray(w)
        mon.close(np.array(fit(v, m)), a, 'fit of data in another memory order', rtol=1e-12, atol=1e-12)
        big = np.zeros((w.shape[0], w.shape[1] * 2))
        big[:, ::2] = w
        mon.close(np.array(fit(big[:, ::2], m)), a, 'fit of strided data', rtol=1e-12, atol=1e-12)
    else:
        # another reference profile that holds the same bunch
        r = int(rng.integers(m.nprofiles))
        m2 = gen.make_machine(kw, synch_part_x=-1.0, beam_ref_frame=r)
        v = rng.normal(0, 1, w.shape)
        v[r] = y
        x2, hw2 = position(m2, lo, up, r * m2.dturns)
        compare(mon, fit(v, m2), lo, up, x2, hw2, 'fit at another reference profile')
    mon.ev('rel_' + rel)
    mon.state('rel', rel, info['ring'], kind, bool(kw['bdot']), info['dual'])


def run_matched(case, rng, mon):
    """A beam matched to the bucket: the profile follows from the potential
    alone, and the fit has to find the synchronous position it was made with."""
    from longitudinal_tomography.data import pre_process
    m, kw, info = machine(rng, case['i'], nbins=int(gen.pick(rng, [64, 100, 151])))
    turn = m.beam_ref_frame * m.dturns
    hw = m.h_num * m.omega_rev0[turn] * m.dtbin
    p12 = m.phi12
    v1, v2, phis = m.vrf1_at_turn[turn], m.vrf2_at_turn[turn], m.phi0[turn]
    U = potential(v1, v2, m.h_ratio, p12, phis)
    c = m.nbins * rng.uniform(0.45, 0.55)
    half = rng.uniform(0.12, 0.26) * m.nbins
    sub = 40
    x = (np.arange(m.nbins * sub) + 0.5) / sub
    u = U(phis + (x - c) * hw) - U(phis)
    sgn = np.sign(U(phis + 1e-3) - U(phis))
    u = u * sgn
    if sgn == 0 or np.any(np.diff(u[x >= c][:int(half * sub)]) <= 0):
        raise Skip('not a single well')
    left = u[x <= c][::-1][:int(half * sub)]
    if np.any(np.diff(left) <= 0):
        raise Skip('not a single well')
    h = min(u[np.searchsorted(x, c + half)], left[-1])
    inside = np.zeros(x.size, bool)
    i = np.searchsorted(x, c)
    a = i
    while a > 0 and u[a] < h:
        a -= 1
    b = i
    while b < x.size - 1 and u[b] < h:
        b += 1
    inside[a + 1:b] = True
    # parabolic amplitude distribution: line density (h - U)^1
    y = np.where(inside, np.clip(h - u, 0, None), 0).reshape(m.nbins, sub).mean(1)
    lo, up = feet(y)
    if up - lo < 12:
        raise Skip('too short to judge')
    position(m, lo, up, turn)
    w = fill(rng, m, y)
    got = pre_process.fit_synch_part_x(w, m)
    mon.check(abs(got[0] - c) < 0.6 + 1e-4 / hw, 'matched beam found where it was made', got=got[0], want=c)
    mon.ev('matched_dual' if info['dual'] else 'matched_single')
    mon.state('matched', info['ring'], bool(kw['bdot']), info['dual'], bool(kw['vrf1dot']))


def run_programs(case, rng, mon):
    """Machines described by programs, phase offset of that turn."""
    from longitudinal_tomography.data import pre_process
    m, kw, info = machine(rng, case['i'], accel=False, dual=True, vdot=True)
    turn = m.beam_ref_frame * m.dturns
    # phase offsets turn by turn, as a program machine has them
    n = len(m.vrf1_at_turn)
    ph = m.phi12 + np.linspace(0, 0.6, n) * rng.uniform(-1, 1)
    q = copy.copy(m)
    q.phi12 = ph
    # a stationary bucket: the stable zero of the voltage next to the old one
    phi0 = np.array(m.phi0)
    V = lambda p: m.vrf1_at_turn[turn] * np.sin(p) + m.vrf2_at_turn[turn] * np.sin(m.h_ratio * (p - ph[turn]))
    d = np.linspace(-0.7, 0.7, 2001) + phi0[turn]
    s = np.where(np.sign(V(d[:-1])) != np.sign(V(d[1:])))[0]
    if s.size != 1:
        raise Skip('no unique phase')
    a, b = d[s[0]], d[s[0] + 1]
    for _ in range(60):
        c = 0.5 * (a + b)
        if (V(c) > 0) == (V(a) > 0):
            a = c
        else:
            b = c
    phi0[turn] = 0.5 * (a + b)
    q.phi0 = phi0
    kind, y = bunch(rng, m.nbins)
    lo, up = feet(y)
    x, hw = position(q, lo, up, turn)
    compare(mon, pre_process.fit_synch_part_x(fill(rng, q, y), q), lo, up, x, hw, 'fit with a phase program')
    mon.ev('phase_programs')
    mon.state('programs', info['ring'], kind, bool(turn))
