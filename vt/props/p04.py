"""P04: one phase-space flow: reversible, starting-point independent, every
particle on its own, synchronous particle at rest."""
import numpy as np
from vt import gen
from vt.mon import Skip

RULE = """Every case draws a machine (ring, charge, side of transition, rf
system, ramp), tracks a cloud from one profile and relates independent runs of
the tracker to each other: restarting from the coordinates found at another
profile must give the same trajectories everywhere; permuted, split or padded
clouds must give the same trajectory per particle; the synchronous particle
must stay at the origin; a record extended by more profiles must agree on the
common part.  Distinct cases differ in ring, shape, profile pair or relation."""
ASSUMPTIONS = ['the synchronous particle is required to rest for records whose machine reference is the first profile or whose field is constant; the opposite case is the recorded finding syncref']

QUICK = 3
KINDS = {
    'restart': ('plain', 150, 4000),
    'cloud': ('plain', 120, 3000),
    'synch': ('plain', 120, 3000),
    'extend': ('plain', 60, 1500),
}


def scales(m, info, xs, ys):
    return 1 + np.max(np.abs(xs)), max(np.max(np.abs(ys)), abs(m.q * m.vrf1))


def tracker(m):
    from longitudinal_tomography.tracking.tracking import Tracking
    return Tracking(m)


def run_restart(case, rng, mon):
    kw, info = gen.machine_kwargs(rng, ring=case['i'], maxphase=5.0)
    if kw['nprofiles'] < 3:
        kw['nprofiles'] = 3
        kw['machine_ref_frame'] = kw['beam_ref_frame'] = 0
    m = gen.make_machine(kw)
    if case['i'] % 3 == 2:
        m.phi12 = m.phi12 + 0.2 * rng.uniform(-1, 1, len(m.phi0))
    n = int(rng.integers(1, 200))
    dphi, dE = gen.distribution(rng, m, info, n, 0.9)
    a, b = (int(z) for z in rng.integers(m.nprofiles - 1, size=2))
    t = tracker(m)
    x, y = t.track(a, init_distr=(dphi, dE))
    x, y = x.copy(), y.copy()
    mon.equal(x[a], dphi, 'the starting profile holds the starting phases')
    mon.equal(y[a], dE, 'the starting profile holds the starting energies')
    x2, y2 = t.track(b, init_distr=(x[b].copy(), y[b].copy()))
    sx, sy = scales(m, info, x, y)
    mon.close(x2 / sx, x / sx, f'restart at profile {b} of a run from {a}: phase', rtol=0, atol=1e-8)
    mon.close(y2 / sy, y / sy, f'restart at profile {b} of a run from {a}: energy', rtol=0, atol=1e-8)
    mon.ev('trajectories', n)
    mon.state('restart', info['ring'], m.nprofiles, m.dturns, a, b)


def run_cloud(case, rng, mon):
    kw, info = gen.machine_kwargs(rng, ring=case['i'], maxphase=5.0, max_turns=600)
    m = gen.make_machine(kw)
    n = gen.SIZES[(case['i'] + case['seed']) % len(gen.SIZES)]
    dphi, dE = gen.distribution(rng, m, info, n, 0.9)
    rec = int(rng.integers(m.nprofiles - 1))
    t = tracker(m)
    x, y = (z.copy() for z in t.track(rec, init_distr=(dphi, dE)))
    sx, sy = scales(m, info, x, y)

    def same(idx, what):
        gx, gy = tracker(m).track(rec, init_distr=(dphi[idx], dE[idx]))
        mon.close(gx / sx, x[:, idx] / sx, what, rtol=0, atol=1e-10)
        mon.close(gy / sy, y[:, idx] / sy, what, rtol=0, atol=1e-10)
        mon.ev('trajectories', len(idx))
    perm = rng.permutation(n)
    same(perm, 'permuted cloud')
    k = int(rng.integers(1, n + 1))
    same(perm[:k], 'part of the cloud')
    same(np.array([n - 1]), 'last particle alone')
    same(np.concatenate([np.arange(n), perm]), 'cloud together with a copy')
    mon.state('cloud', info['ring'], n, m.nprofiles, m.dturns, rec)


def run_synch(case, rng, mon):
    kw, info = gen.machine_kwargs(rng, ring=case['i'], ref=False)
    kw['machine_ref_frame'] = 0
    off = case['i'] % 3 == 2
    if off:                      # another reference: only a constant field
        kw['machine_ref_frame'] = int(rng.integers(kw['nprofiles']))
        if case['i'] % 2:
            kw['bdot'] = 0.0
    m = gen.make_machine(kw)
    rec = int(rng.integers(m.nprofiles - 1))
    z = np.zeros(3)
    # energy gained per turn is subtracted with the rounding of the total energy
    acc = info['turns'] ** 1.0 * 1e-14 * np.max(m.e0) + abs(m.q * m.vrf1) * 1e-9

    def wander():
        x, y = tracker(m).track(rec, init_distr=(z, z.copy()))
        return max(np.max(np.abs(y)) / acc, np.max(np.abs(x)) / (
            acc * np.max(np.abs(m.drift_coef)) * info['turns'] + 1e-12))
    bad = wander()
    # without a field ramp the table holds what the search of the phase leaves
    if kw['machine_ref_frame'] > 0 and bad > 1 and (kw['bdot'] != 0 or bad < 100):
        # recorded finding syncref: the table of energy gains is displaced by
        # one turn in front of the reference.  With that table, and nothing
        # else, put right the particle must rest.
        m.deltaE0 = np.concatenate([[0.0], np.diff(m.e0)])
        bad = wander()
        if bad <= 1:
            mon.known.add('syncref')
            mon.ev('known_syncref')
    mon.check(bad <= 1, 'the synchronous particle leaves the origin', ratio=bad, allowed=acc)
    mon.state('synch', info['ring'], m.nprofiles, m.dturns, rec, off, kw['bdot'] != 0)


def run_extend(case, rng, mon):
    kw, info = gen.machine_kwargs(rng, ring=case['i'], maxphase=5.0, max_turns=400, ref=False, vdot=False)
    kw.update(machine_ref_frame=0, beam_ref_frame=0)
    m = gen.make_machine(kw)
    more = int(rng.integers(1, 6))
    m2 = gen.make_machine(kw, nprofiles=kw['nprofiles'] + more)
    n = int(rng.integers(1, 100))
    dphi, dE = gen.distribution(rng, m, info, n, 0.9)
    rec = int(rng.integers(m.nprofiles - 1))
    x, y = tracker(m).track(rec, init_distr=(dphi, dE))
    x2, y2 = tracker(m2).track(rec, init_distr=(dphi, dE))
    sx, sy = scales(m, info, x, y)
    mon.close(x2[:m.nprofiles] / sx, x / sx, 'longer record, common profiles: phase', rtol=0, atol=1e-9)
    mon.close(y2[:m.nprofiles] / sy, y / sy, 'longer record, common profiles: energy', rtol=0, atol=1e-9)
    mon.state('extend', info['ring'], m.nprofiles, m.dturns, rec, more)
