"""P21: self-field voltages and tracking with them."""
import numpy as np
from vt import gen, refs
from vt.mon import Skip

RULE = """Field cases compute the self-field voltages of random profiles on
random machines (accelerating or not, long and short bunches of many charges, each
way to give the derivative) and compare coefficients, wrapping and voltages
with the documented formulas, and the response to twice the charge, another filter
and missing charge.  Tracking cases track particles through fields (real ones,
random ones, none at all) from every profile and compare each coordinate with
a turn-by-turn model; without fields the result must be that of ordinary
tracking; each particle must be independent of the others.  Distinct cases differ in
machine, shape, fields or starting profile."""
ASSUMPTIONS = ['particles closer than 1e-6 bins to a bin border at any turn are not compared: the field there is discontinuous',
               'scalar phase offset of the second rf system']

QUICK = 4
KINDS = {
    'fields': ('plain', 300, 6000),
    'track': ('plain', 250, 5000),
    'none': ('plain', 150, 3000),
    'independent': ('plain', 80, 1500),
    'refused': ('plain', 60, 1000),
}
EL = 1.602176634e-19


def machine(rng, i, **kw):
    k, info = gen.machine_kwargs(rng, ring=i, max_turns=150, maxphase=6.0, **kw)
    k.update(g_coupling=float(rng.uniform(0, 5)), zwall_over_n=float(rng.uniform(-20, 50)), pickup_sensitivity=float(rng.uniform(0.1, 2)))
    m = gen.make_machine(k)
    m.filmstart = int(rng.integers(m.nprofiles))      # of no concern here
    return m, info


def profiles(rng, m):
    from longitudinal_tomography.data.profiles import Profiles
    w = gen.waterfall(rng, m.nprofiles, m.nbins, style=int(rng.integers(3)))
    return Profiles(m, float(rng.uniform(0.3e-9, 3e-9)), gen.lay(rng, w.copy())), w


def coefficients(m):
    out = []
    for i in range(m.nprofiles):
        t = i * m.dturns
        b = m.beta0[t]
        out.append(EL / m.omega_rev0[t] * ((1 / b - b) * m.g_coupling * np.pi * 2e-7 * refs.C - m.zwall_over_n) / m.dtbin ** 2)
    return np.array(out)


def wrap(m):
    t = (m.nprofiles - 1) * m.dturns - 1 if m.bdot > 0 else 0
    d = m.h_num * m.omega_rev0[t] * m.dtbin
    a = m.nbins * d / (2 * np.pi)
    if abs(a - round(a)) < 1e-9:
        raise Skip('the record is a whole number of periods')
    pw = np.ceil(a) * 2 * np.pi
    b = pw / d
    if abs(b - round(b)) < 1e-9:
        raise Skip('the period is a whole number of bins')
    return pw, int(np.ceil(b))


def run_fields(case, rng, mon):
    from longitudinal_tomography.utils import physics
    from scipy.signal import savgol_filter
    m, info = machine(rng, case['i'])
    p, w = profiles(rng, m)
    p.calc_profilecharge()
    Q = p.profile_charge
    mon.close(Q, w[m.beam_ref_frame].sum() * p.sampling_time / (EL * m.pickup_sensitivity), 'profile charge', rtol=1e-7)
    sfc = coefficients(m)
    mon.close(physics.calc_self_field_coeffs(m), sfc, 'self-field coefficients', rtol=1e-8)
    w0 = p.waterfall.copy()
    how = ['default', 'array', 'list', 'filter'][case['i'] % 4]
    seen = []
    if how == 'default':
        ds = savgol_filter(w / w.sum(axis=1)[:, None], 7, 4, deriv=1)
        p.calc_self_fields()
    elif how == 'filter':
        ds = rng.normal(size=w.shape)

        def flt(x):
            seen.append(np.array(x))
            x[...] = 7         # a filter may use its argument as it likes
            return ds.copy()
        p.calc_self_fields(in_filter=flt)
        mon.equal(seen[0], w, 'what the filter was given')
    else:
        ds = rng.normal(size=w.shape)
        arg = gen.lay(rng, ds.copy()) if how == 'array' else ds.tolist()
        p.calc_self_fields(filtered_profiles=arg)
        mon.equal(np.asarray(arg), ds, 'filtered profiles after the call')
    pw, wl = wrap(m)
    mon.close(p.phiwrap, pw, 'wrapping phase', rtol=1e-12)
    mon.equal(p.wrap_length, wl, 'wrapping length')
    want = np.zeros((m.nprofiles - 1, wl + 1))
    want[:, :m.nbins] = 0.5 * Q * (sfc[:-1, None] * ds[:-1] + sfc[1:, None] * ds[1:])
    mon.close(p.vself, want, 'self-field voltages', rtol=1e-7, atol=1e-9 * np.abs(want).max())
    mon.equal(p.waterfall, w0, 'waterfall after the call')
    v = p.vself.copy()
    p.profile_charge = 2 * Q
    kw = {} if how == 'default' else dict(filtered_profiles=ds)
    p.calc_self_fields(**kw)
    mon.close(p.vself, 2 * v, 'twice the charge', rtol=1e-9, atol=1e-12 * np.abs(v).max())
    mon.state('fields', info['ring'], how, m.nprofiles, m.nbins, m.bdot > 0)


def coords_model(dphi, de, m, xo, dEbin, turn, pw):
    d = m.h_num * m.omega_rev0[turn] * m.dtbin
    t = dphi + m.phi0[turn] - xo * d
    return (t - pw * np.floor(t / pw)) / d, de / dEbin + m.nbins / 2.0


def model(m, a, b, rec, vself, pw, xo, dEbin, recorded):
    """recorded: the two directions as the finding describes them.  Returns
    coordinates and which particles stayed clear of discontinuities."""
    n = len(a)
    X, Y = np.zeros((m.nprofiles, n)), np.zeros((m.nprofiles, n))
    nt = (m.nprofiles - 1) * m.dturns
    clear = np.ones(n, bool)
    last = np.zeros(n)

    def kick(dphi, t):
        return m.q * (m.vrf1_at_turn[t] * np.sin(dphi + m.phi0[t])
                      + m.vrf2_at_turn[t] * np.sin(m.h_ratio * (dphi + m.phi0[t] - m.phi12))) - m.deltaE0[t]

    def field(row, x, shift):
        nonlocal clear
        clear &= np.abs(x - np.round(x)) > 1e-6
        i = x.astype(int) - shift
        mon_out = i >= vself.shape[1]       # beyond the calculated fields: none
        return np.where(mon_out, 0.0, vself[row, np.minimum(i, vself.shape[1] - 1)]) * m.q

    t = rec * m.dturns
    X[rec], Y[rec] = coords_model(a, b, m, xo, dEbin, t, pw)
    p, e = a.copy(), b.copy()
    while t < nt:
        row = t // m.dturns
        p = p - m.drift_coef[t] * e
        t += 1
        x, _ = coords_model(p, e, m, xo, dEbin, t, pw)
        e = e + kick(p, t) + field(row, x, 1 if recorded else 0)
        if t % m.dturns == 0:
            X[t // m.dturns], Y[t // m.dturns] = x, e / dEbin + m.nbins / 2.0
    p, e, t = a.copy(), b.copy(), rec * m.dturns
    x = X[rec]
    while t > 0:
        row = (t - 1) // m.dturns
        s = field(row, x, 0)
        e = e - kick(p, t) + (s if recorded else -s)
        t -= 1
        p = p + m.drift_coef[t] * e
        x, _ = coords_model(p, e, m, xo, dEbin, t, pw)
        if t % m.dturns == 0:
            X[t // m.dturns], Y[t // m.dturns] = x, e / dEbin + m.nbins / 2.0
    # a position next to the wrap-around may come out on either side
    clear &= (np.abs(X - np.round(X)).min(axis=0) > 1e-6)
    return X, Y, clear


def setup(case, rng, mon, fields):
    from longitudinal_tomography.tracking.tracking import Tracking
    m, info = machine(rng, case['i'], nprofiles=int(rng.integers(2, 12)), dturns=int(gen.pick(rng, [1, 2, 3, 5, 9])))
    p, w = profiles(rng, m)
    p.calc_profilecharge()
    p.calc_self_fields()
    wrap(m)
    amp = np.sqrt(abs(m.vrf1_at_turn[0] * m.q / m.drift_coef[0]))
    if fields == 'none':
        p.vself = np.zeros_like(p.vself)
    elif fields == 'random':
        p.vself = rng.normal(0, 0.02 * m.vrf1, p.vself.shape)
        p.vself[:, m.nbins:] = 0
    else:
        p.vself = p.vself * (0.05 * m.vrf1 / max(np.abs(p.vself).max(), 1e-300))
    tr = Tracking(m)
    mon.check(not tr.self_field_flag, 'self-fields are off at first')
    tr.enable_self_fields(p)
    mon.check(tr.self_field_flag, 'self-fields are on')
    n = int(gen.pick(rng, [1, 2, 17, 200]))
    a, b = gen.distribution(rng, m, info, n, spread=0.8)
    tr.particles.xorigin = float(m.phi0[0] / (m.h_num * m.omega_rev0[0] * m.dtbin) - m.synch_part_x)
    tr.particles.dEbin = float(amp / m.nbins * rng.uniform(2, 6))
    rec = int(rng.integers(0, m.nprofiles - 1))
    return m, info, p, tr, a, b, rec


def run_track(case, rng, mon):
    fields = ['real', 'random'][case['i'] % 2]
    m, info, p, tr, a, b, rec = setup(case, rng, mon, fields)
    v0 = p.vself.copy()
    a0, b0 = a.copy(), b.copy()
    x, y = tr.track(rec, (gen.lay(rng, a), gen.lay(rng, b)))
    mon.equal(a, a0, 'phases after tracking')
    mon.equal(b, b0, 'energies after tracking')
    mon.equal(p.vself, v0, 'fields after tracking')
    res = [model(m, a, b, rec, v0, p.phiwrap, tr.particles.xorigin, tr.particles.dEbin, r) for r in (False, True)]
    ok = res[0][2] & res[1][2]
    if not ok.any():
        raise Skip('all particles close to a border')
    tol = 1e-8 * m.nbins

    def agrees(r):
        return np.abs(x - r[0])[:, ok].max() <= tol and np.abs(y - r[1])[:, ok].max() <= tol
    mon.ev('values', 2 * x[:, ok].size)
    mon.ev('checks')
    if not agrees(res[0]):
        if agrees(res[1]):
            mon.known.add('selfdir')
        else:
            d = np.abs(x - res[1][0])[:, ok].max(axis=1)
            mon.fail('tracking with self-fields', rec=rec, err_x=d, err_y=np.abs(y - res[1][1])[:, ok].max(axis=1), tol=tol)
    mon.ev('compared_particles', int(ok.sum()))
    mon.state('track', info['ring'], fields, m.nprofiles, m.dturns, len(a), rec, info['dual'])


def run_none(case, rng, mon):
    """Without fields: ordinary tracking."""
    from longitudinal_tomography import exceptions as ex
    from longitudinal_tomography.tracking.tracking import Tracking
    from longitudinal_tomography.tracking import particles as pts
    m, info, p, tr, a, b, rec = setup(case, rng, mon, 'none')
    x, y = tr.track(rec, (a, b))
    t2 = Tracking(m)
    X, Y = t2.track(rec, (a, b))
    cx, cy = pts.physical_to_coords(X.copy(), Y.copy(), m, tr.particles.xorigin, tr.particles.dEbin)
    tol = 1e-8 * m.nbins
    mon.close(y, cy, 'energies without fields', rtol=0, atol=tol)
    d = m.h_num * m.omega_rev0[::m.dturns] * m.dtbin
    per = (p.phiwrap / d)[:, None]
    diff = x - cx
    k = np.round(diff / per)
    mon.close(diff - k * per, np.zeros_like(x), 'positions without fields, up to whole periods', rtol=0, atol=tol)
    mon.check(np.all(x >= -tol) and np.all(x <= per + tol), 'positions inside the wrapped range')
    mon.state('none', info['ring'], m.nprofiles, m.dturns, len(a), rec)
    # the automatic distribution
    try:
        xa, ya = tr.track(rec)
    except ex.TomoException:
        mon.ev('no_area')      # P06 decides whether that is right
        return
    mon.check(xa.shape == ya.shape and xa.shape[0] == m.nprofiles, 'shape of the automatic distribution')
    c = tr.particles.coordinates_dphi_denergy
    wx, wy = coords_model(c[0], c[1], m, tr.particles.xorigin, tr.particles.dEbin, rec * m.dturns, p.phiwrap)
    mon.close(xa[rec], wx, 'starting positions', rtol=0, atol=tol)
    mon.close(ya[rec], wy, 'starting energies', rtol=0, atol=tol)
    mon.ev('automatic')


def run_independent(case, rng, mon):
    m, info, p, tr, a, b, rec = setup(case, rng, mon, 'random')
    if len(a) < 2:
        a, b = np.repeat(a, 3) * [1, 0.5, -0.3], np.repeat(b, 3)
    x, y = tr.track(rec, (a, b))
    o = rng.permutation(len(a))
    xo, yo = tr.track(rec, (a[o], b[o]))
    *_, clear = model(m, a, b, rec, p.vself, p.phiwrap, tr.particles.xorigin, tr.particles.dEbin, True)
    s = clear[o]
    mon.close(xo[:, s], x[:, o][:, s], 'another order', rtol=0, atol=1e-8 * m.nbins)
    mon.close(yo[:, s], y[:, o][:, s], 'another order', rtol=0, atol=1e-8 * m.nbins)
    i = int(rng.integers(len(a)))
    if clear[i]:
        x1, y1 = tr.track(rec, (a[i:i + 1], b[i:i + 1]))
        mon.close(x1[:, 0], x[:, i], 'alone', rtol=0, atol=1e-8 * m.nbins)
        mon.close(y1[:, 0], y[:, i], 'alone', rtol=0, atol=1e-8 * m.nbins)
    mon.state('independent', info['ring'], m.nprofiles, m.dturns, len(a), rec)


def run_refused(case, rng, mon):
    from longitudinal_tomography import exceptions as ex
    from longitudinal_tomography.tracking.tracking import Tracking
    m, info = machine(rng, case['i'])
    p, w = profiles(rng, m)
    mon.raises(ex.ProfileChargeNotCalculated, p.calc_self_fields, 'no charge yet')
    tr = Tracking(m)
    mon.raises(ex.SelfFieldTrackingError, lambda: tr.enable_self_fields(p), 'no fields yet')
    mon.check(not tr.self_field_flag, 'still off')
    p.calc_profilecharge()
    for bad in (1, np.ones((3, 2)), w[:-1] if m.nprofiles > 1 else 3.0, w[:, :-1], w.T if w.shape[0] != w.shape[1] else 1.0):
        mon.raises(ex.FilteredProfilesError, lambda: p.calc_self_fields(filtered_profiles=bad), 'wrong filtered profiles')
        mon.raises(ex.FilteredProfilesError, lambda: p.calc_self_fields(in_filter=lambda x: bad), 'wrong result of a filter')
    mon.state('refused', info['ring'], w.shape)
