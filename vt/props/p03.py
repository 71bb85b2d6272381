"""P03: tracked coordinates follow the documented kick/drift map."""
import os
import numpy as np
from vt import gen, refs

RULE = """Every case draws a machine or a set of turn-by-turn arrays that all
change from turn to turn, a starting profile, a particle number from a lattice
around size thresholds, and a route into the tracker (tracker class, native
routine with scalar or turn-by-turn phase offset, machine overload,
turn-by-turn reference routine, backwards-compatible wrapper, single steps;
double and single precision).  The monitor compares every coordinate of every
particle in every profile with a sequential model of the map.  Two cases are
distinct if route, precision, shape, starting profile or rf configuration
differ; trivial are cases with fewer than one turn tracked."""
ASSUMPTIONS = ['accumulated phase advance of at most about 10 rad, so that rounding is not amplified beyond the tolerance',
               'deltaturn = 0 (the shifted start is documented as experimental)']

QUICK = 4
KINDS = {
    'track': ('plain', 120, 3000),
    'raw': ('plain', 300, 8000),
    'rawbig': ('plain', 30, 600),
    'long': ('plain', 24, 400),
    'single': ('plain', 120, 3000),
    'hybrid': ('plain', 60, 1500),
    'wrappers': ('plain', 60, 1500),
    'steps': ('plain', 120, 3000),
}


def arrays(rng, nturns, h_ratio, phase=8.0):
    """Turn-by-turn arrays without any regularity between turns."""
    n = nturns + 1
    k = phase / max(nturns, 12)               # radians per turn
    V = 10.0 ** rng.uniform(2, 7)
    drift = k * k / V * rng.uniform(0.4, 1.6, n) * rng.choice([-1, 1])
    rf1 = V * rng.uniform(0.4, 1.6, n) * rng.choice([-1, 1])
    rf2 = V * rng.uniform(-0.5, 0.5, n) / max(h_ratio, 1)
    phi0 = rng.uniform(-3, 3, n)
    phi12 = rng.uniform(-3, 3, n)
    dE0 = V * rng.uniform(-0.5, 0.5, n)
    return rf1, rf2, phi0, dE0, drift, phi12, V, k


def compare(mon, got, want, V, k, what, tol=1e-9):
    gx, gy = got
    wx, wy = want
    sx = 1.0 + np.max(np.abs(wx), initial=0.0)
    sy = max(np.max(np.abs(wy), initial=0.0), V / k)
    mon.close(np.asarray(gx) / sx, wx / sx, what + ': phase', rtol=0, atol=tol)
    mon.close(np.asarray(gy) / sy, wy / sy, what + ': energy', rtol=0, atol=tol)
    mon.ev('coordinates_compared', 2 * wx.size)


def _raw_setup(rng, i, sizes, phase=8.0):
    n = sizes[i % len(sizes)]
    dturns = gen.pick(rng, [1, 1, 2, 3, 4, 5, 8, 13])
    nprof = gen.pick(rng, [2, 3, 4, 5, 9, 17, 40])
    if n > 4000:
        nprof, dturns = min(nprof, 5), min(dturns, 4)
    nturns = (nprof - 1) * dturns
    h = gen.pick(rng, [1.0, 2.0, 3.0, 1.5, 0.5, 4.0, 2.7182])
    a = arrays(rng, nturns, h, phase)
    rec = int(rng.integers(nprof - 1)) if i % 3 else gen.pick(rng, [0, max(nprof - 2, 0)])
    V, k = a[6], a[7]
    dphi = rng.uniform(-3, 3, n)
    dE = rng.uniform(-1, 1, n) * V / k
    if phase > 5 and i % 7 == 6:
        # particles outside of the bucket drift through many periods
        dphi = dphi * 10.0 ** rng.uniform(0, 4.3, n)
    return n, dturns, nprof, nturns, h, a, rec, dphi, dE


def run_raw(case, rng, mon, sizes=None):
    from longitudinal_tomography.cpp_routines import libtomo
    n, dturns, nprof, nturns, h, a, rec, dphi, dE = _raw_setup(rng, case['i'], sizes or gen.SIZES)
    rf1, rf2, phi0, dE0, drift, phi12, V, k = a
    scalar = case['i'] % 2 == 0
    p12 = float(phi12[0]) if scalar else phi12
    want = refs.track(dphi, dE, rf1, rf2, phi0, dE0, drift, p12, h, dturns, rec, nturns)
    # the output buffers are filled with rubbish: every element must be written
    xp = np.full((nprof, n), 1e300)
    yp = np.full((nprof, n), -1e300)
    r = libtomo.kick_and_drift(xp, yp, dE.copy(), dphi.copy(), rf1, rf2, phi0, dE0, drift,
                               p12, h, dturns, rec, 0, nturns, n, False)
    mon.state('raw', n, dturns, nprof, h, rec, scalar)
    compare(mon, (xp, yp), want, V, k, f'native tracking n={n} dturns={dturns} nprof={nprof} rec={rec} scalar={scalar}')
    mon.check(len(r) == 2, 'two arrays are returned')
    compare(mon, r, want, V, k, 'returned arrays')
    mon.ev('turns_tracked', nturns)


def run_rawbig(case, rng, mon):
    run_raw(case, rng, mon, sizes=[gen.BIG[(case['seed'] + case['i']) % len(gen.BIG)]])


LONG = [(200, 10), (301, 7), (2, 5003), (150, 40), (700, 3), (1100, 1), (3, 2100), (70, 99), (129, 9), (260, 1)]


def run_long(case, rng, mon):
    """Many turns, many profiles."""
    from longitudinal_tomography.cpp_routines import libtomo
    i = case['i']
    nprof, dturns = LONG[(i + case['seed']) % len(LONG)]
    nturns = (nprof - 1) * dturns
    n = int(rng.integers(1, 12))
    h = gen.pick(rng, [1.0, 2.0, 3.0, 1.5])
    single = i % 3 == 2
    f = np.float32 if single else np.float64
    a = arrays(rng, nturns, h, 3.0 if single else 8.0)
    V, k = a[6:]
    a = [z.astype(f) for z in a[:6]]
    rf1, rf2, phi0, dE0, drift, phi12 = [z.astype(float) for z in a]
    rec = gen.pick(rng, [0, nprof // 2, nprof - 2, int(rng.integers(nprof - 1))])
    dphi, dE = rng.uniform(-3, 3, n).astype(f), (rng.uniform(-1, 1, n) * V / k).astype(f)
    scalar = i % 2 == 0
    p12 = float(phi12[0]) if scalar else phi12
    want = refs.track(dphi.astype(float), dE.astype(float), rf1, rf2, phi0, dE0, drift, p12, h, dturns, rec, nturns)
    xp, yp = np.full((nprof, n), 1e30, f), np.full((nprof, n), 1e30, f)
    seen = []
    libtomo.kick_and_drift(xp, yp, dE.copy(), dphi.copy(), *a[:5], p12 if scalar else a[5], h, dturns, rec, 0, nturns, n,
                           False, lambda p, t: seen.append((p, t)))
    mon.state('long', nprof, dturns, rec, scalar, single)
    compare(mon, (xp, yp), want, V, k, f'long record nprof={nprof} dturns={dturns} rec={rec} single={single}',
            tol=1e-3 if single else 1e-8)
    mon.check(seen == [(t, nturns) for t in range(1, nturns + 1)], 'reports of a long record', n=len(seen))
    mon.ev('turns_tracked', nturns)


def run_single(case, rng, mon):
    """Single precision, with and without turn-by-turn phase offset."""
    from longitudinal_tomography.cpp_routines import libtomo
    n, dturns, nprof, nturns, h, a, rec, dphi, dE = _raw_setup(rng, case['i'] * 2 + 1, gen.SIZES[:26], phase=3.0)
    rf1, rf2, phi0, dE0, drift, phi12, V, k = a
    f = np.float32
    scalar = case['i'] % 2 == 0
    p12 = float(f(phi12[0])) if scalar else phi12.astype(f)
    c = [z.astype(f) for z in (rf1, rf2, phi0, dE0, drift)]
    dphi, dE = dphi.astype(f), dE.astype(f)
    want = refs.track(dphi, dE, *[z.astype(float) for z in c], np.asarray(p12, float) if not scalar else p12, h, dturns, rec, nturns)
    xp, yp = np.full((nprof, n), 1e30, f), np.full((nprof, n), 1e30, f)
    libtomo.kick_and_drift(xp, yp, dE.copy(), dphi.copy(), *c, p12, h, dturns, rec, 0, nturns, n, False)
    mon.state('single', n, dturns, nprof, h, rec, scalar)
    compare(mon, (xp, yp), want, V, k, f'single precision n={n} scalar={scalar}', tol=3e-4)


def run_track(case, rng, mon):
    """Through the tracker class on physical machines."""
    from longitudinal_tomography.tracking.tracking import Tracking
    kw, info = gen.machine_kwargs(rng, ring=case['i'])
    m = gen.make_machine(kw)
    arrp12 = case['i'] % 4 == 3
    if arrp12:
        m.phi12 = kw['phi12'] + 0.3 * rng.uniform(-1, 1, len(m.phi0))
    n = gen.SIZES[(case['i'] * 5) % 30]
    dphi, dE = gen.distribution(rng, m, info, n)
    rec = int(rng.integers(m.nprofiles - 1))
    nturns = m.dturns * (m.nprofiles - 1)
    want = refs.track(dphi, dE, m.vrf1_at_turn * m.q, m.vrf2_at_turn * m.q, m.phi0,
                      m.deltaE0, m.drift_coef, m.phi12, m.h_ratio, m.dturns, rec, nturns)
    tr = Tracking(m)
    cb = case['i'] % 2
    seen = []
    kws = {'callback': lambda p, t: seen.append(p)} if cb else {}
    xp, yp = tr.track(rec, init_distr=(gen.lay(rng, dphi), gen.lay(rng, dE)), **kws)
    mon.state('track', info['ring'], m.nprofiles, m.dturns, rec, n, info['dual'], m.h_ratio, arrp12)
    V = abs(m.q * m.vrf1)
    compare(mon, (xp, yp), want, V, max(info['Qs'], 1e-3), f'tracker {info["ring"]} rec={rec}')
    mon.equal(xp.shape, (m.nprofiles, n), 'shape of the result')
    mon.equal(tr.nturns, nturns, 'turns of the tracker')
    # counting from the end
    xn, yn = tr.track(rec - m.nprofiles, init_distr=(dphi, dE))
    compare(mon, (xn, yn), want, V, max(info['Qs'], 1e-3), 'negative profile index')
    mon.equal(tr.init_dphi, dphi, 'initial phase is kept')
    mon.equal(tr.init_denergy, dE, 'initial energy is kept')


def run_hybrid(case, rng, mon):
    """The turn-by-turn routine of the tracker agrees with the same model."""
    from longitudinal_tomography.tracking.tracking import Tracking
    kw, info = gen.machine_kwargs(rng, ring=case['i'], max_turns=400)
    m = gen.make_machine(kw)
    n = gen.SIZES[(case['i'] * 3) % 24]
    dphi, dE = gen.distribution(rng, m, info, n)
    rec = int(rng.integers(m.nprofiles - 1))
    rf1, rf2 = m.vrf1_at_turn * m.q, m.vrf2_at_turn * m.q
    want = refs.track(dphi, dE, rf1, rf2, m.phi0, m.deltaE0, m.drift_coef, m.phi12,
                      m.h_ratio, m.dturns, rec, m.dturns * (m.nprofiles - 1))
    got = Tracking(m).kick_and_drift(dE.copy(), dphi.copy(), rf1, rf2, rec)
    mon.state('hybrid', info['ring'], m.nprofiles, m.dturns, rec, n)
    compare(mon, got, want, abs(m.q * m.vrf1), max(info['Qs'], 1e-3), 'turn-by-turn routine')


def run_wrappers(case, rng, mon):
    from longitudinal_tomography.cpp_routines import libtomo, tomolib_wrappers as tw
    n, dturns, nprof, nturns, h, a, rec, dphi, dE = _raw_setup(rng, case['i'] * 2, gen.SIZES[:24])
    rf1, rf2, phi0, dE0, drift, phi12, V, k = a
    p12 = float(phi12[0])

    class M:
        pass
    m = M()
    m.phi0, m.deltaE0, m.drift_coef, m.phi12, m.h_ratio, m.dturns = phi0, dE0, drift, p12, h, dturns
    want = refs.track(dphi, dE, rf1, rf2, phi0, dE0, drift, p12, h, dturns, rec, nturns)

    def z():
        return np.full((nprof, n), 7e99), np.full((nprof, n), 7e99)
    routes = {
        'native, machine': lambda x, y: libtomo.kick_and_drift(
            x, y, dE.copy(), dphi.copy(), rf1, rf2, m, rec, 0, nturns, n),
        'native, keywords': lambda x, y: libtomo.kick_and_drift(
            xp=x, yp=y, denergy=dE.copy(), dphi=dphi.copy(), rfv1=rf1, rfv2=rf2, phi0=phi0, deltaE0=dE0,
            drift_coef=drift, phi12=p12, h_ratio=h, dturns=dturns, rec_prof=rec, deltaturn=0,
            nturns=nturns, nparts=n),
        'wrapper, machine': lambda x, y: tw.kick_and_drift(
            x, y, dE.copy(), dphi.copy(), rf1, rf2, rec, nturns, n, machine=m),
        'wrapper, arrays': lambda x, y: tw.kick_and_drift(
            x, y, dE.copy(), dphi.copy(), rf1, rf2, rec, nturns, n, phi0=phi0, deltaE0=dE0,
            omega_rev0=phi0, drift_coef=drift, phi12=p12, h_ratio=h, dturns=dturns),
    }
    for name, fn in routes.items():
        x, y = z()
        r = fn(x, y)
        compare(mon, r, want, V, k, name)
        mon.state(name, n, dturns, nprof, rec)


def run_steps(case, rng, mon):
    """The single steps: one drift, one kick, in both directions."""
    from longitudinal_tomography.cpp_routines import libtomo, tomolib_wrappers as tw
    n = (gen.SIZES + gen.BIG[:4])[(case['i'] * 7 + case['seed']) % (len(gen.SIZES) + 4)]
    nturns = int(rng.integers(1, 30))
    h = gen.pick(rng, [1.0, 2.0, 3.5])
    rf1, rf2, phi0, dE0, drift, phi12, V, k = arrays(rng, nturns, h)
    turn = int(rng.integers(nturns + 1))
    # phases of many revolutions, as of particles that left the bucket
    dphi = rng.uniform(-200, 200, n)
    dE = rng.uniform(-1, 1, n) * V / k

    class M:
        pass
    m = M()
    m.phi0, m.deltaE0, m.drift_coef, m.phi12, m.h_ratio = phi0, dE0, drift, float(phi12[0]), h
    kick = rf1[turn] * np.sin(dphi + phi0[turn]) + rf2[turn] * np.sin(h * (dphi + phi0[turn] - m.phi12)) - dE0[turn]
    sE = max(V / k, np.max(np.abs(kick)))
    for up, s in ((True, 1), (False, -1)):
        for lib, nm in ((libtomo, 'native'), (tw, 'wrapper')):
            r = lib.kick(m, dE.copy(), dphi.copy(), rf1, rf2, n, turn, up)
            mon.close(r / sE, (dE + s * kick) / sE, f'{nm} kick up={up}', rtol=0, atol=1e-11)
            r = lib.drift(dE.copy(), dphi.copy(), drift, n, turn, up)
            mon.close(r, dphi - s * drift[turn] * dE, f'{nm} drift up={up}', rtol=1e-13, atol=1e-10)
        e = dE.copy()
        (libtomo.kick_up if up else libtomo.kick_down)(dphi.copy(), e, rf1[turn], rf2[turn], phi0[turn], m.phi12, h, n, dE0[turn])
        mon.close(e / sE, (dE + s * kick) / sE, f'kick step up={up}', rtol=0, atol=1e-11)
        x = dphi.copy()
        (libtomo.drift_up if up else libtomo.drift_down)(x, dE.copy(), drift[turn], n)
        mon.close(x, dphi - s * drift[turn] * dE, f'drift step up={up}', rtol=1e-13, atol=1e-10)
        # a kick leaves the phases alone and a drift the energies
        p, q = dphi.copy(), dE.copy()
        libtomo.kick(m, q, p, rf1, rf2, n, turn, up)
        mon.equal(p, dphi, 'a kick changes no phase')
        p, q = dphi.copy(), dE.copy()
        libtomo.drift(q, p, drift, n, turn, up)
        mon.equal(q, dE, 'a drift changes no energy')
        # a step and its inverse
        p, q = dphi.copy(), dE.copy()
        q = libtomo.kick(m, q, p, rf1, rf2, n, turn, up)
        q = libtomo.kick(m, q, p, rf1, rf2, n, turn, not up)
        p = libtomo.drift(q, p, drift, n, turn, up)
        p = libtomo.drift(q, p, drift, n, turn, not up)
        mon.close(q / sE, dE / sE, 'kick and its inverse', rtol=0, atol=1e-13)
        mon.close(p, dphi, 'drift and its inverse', rtol=1e-13, atol=1e-11)
    mon.state('steps', n, turn == 0, turn == nturns, h)


def single_steps(dphi, dE, n, dt):
    """One kick and one drift in each direction (also used by P02)."""
    from longitudinal_tomography.cpp_routines import libtomo
    a, b = dphi.copy(), dE.copy()
    for kick, drift in ((libtomo.kick_up, libtomo.drift_up), (libtomo.kick_down, libtomo.drift_down)):
        kick(a, b, dt(0.3), dt(0.1), dt(0.2), dt(0.4), dt(2.0), n, dt(0.01))
        drift(a, b, dt(0.05), n)
    return a, b
