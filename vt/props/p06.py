"""P06: the automatically generated distribution covers the documented
reconstruction area, homogeneously and nothing else."""
import numpy as np
from vt import gen, refs
from vt.mon import Skip

RULE = """Every case draws a machine (rings, both sides of transition, single
and double rf, ramps), a way of choosing the energy bin (maximum given, derived
from the bucket), a full or bucket-shaped area, phase limits at and between
bin borders, reference frames and a density of points, lets the code create
the distribution, maps it back to bins and compares it cell by cell with an
independently computed area: every cell inside holds exactly the requested
points, cells outside hold none.  Columns whose border is decided by rounding
may have either value.  Distinct cases differ in ring, shape, options."""
ASSUMPTIONS = ['the machine has a stable bucket that is wider than the image (otherwise the code documents an error)',
               'deltaturn = 0']

KINDS = {
    'area': ('plain', 250, 5000),
    'full': ('plain', 120, 2500),
    'limits': ('plain', 150, 3000),
    'every': ('plain', 40, 600),
    'programs': ('plain', 60, 1500),
}


def expected(m):
    """Column by column: candidate (jmin, jmax) pairs; None outside."""
    lim = refs.phase_space_limits(m)
    nb, sy = m.nbins, m.nbins / 2.0
    maxb = int(np.ceil(np.round(m.max_dt / m.dtbin, 6)))
    minb = int(np.round(m.min_dt / m.dtbin, 6))

    def cols(jmax):
        jmax = jmax.copy()
        if m.full_pp_flag:
            jmin = np.ceil(2 * sy - jmax + 0.5)
            imin, imax = 0, nb
        else:
            jmin = np.maximum(1, np.ceil(2 * sy - jmax - 0.5))
            ok = np.flatnonzero(jmax - jmin >= 0)
            if len(ok) == 0:
                raise Skip('empty area')
            imin, imax = ok[0], ok[-1]
        if minb > imin or m.full_pp_flag:
            imin = minb
            jmax[:minb] = np.floor(sy)
            jmin = np.ceil(2 * sy - jmax + 0.5)
        if maxb < imax or m.full_pp_flag:
            imax = maxb - 1
            jmax[maxb:] = np.floor(sy)
            jmin = np.ceil(2 * sy - jmax + 0.5)
        return imin, imax, jmin, jmax
    return lim, cols(lim['jmax_lo']), cols(lim['jmax_hi'])


def judge(mon, m, P, rec, what):
    lim, lo, hi = expected(m)
    mon.close(P.dEbin, lim['dEbin'], f'{what}: energy bin', rtol=1e-9)
    mon.close(m.dEbin, lim['dEbin'], f'{what}: energy bin kept with the machine', rtol=1e-9)
    mon.close(P.xorigin, lim['xorigin'], f'{what}: origin', rtol=1e-9, atol=1e-9 * m.nbins)
    dphi, dE = (np.asarray(z, float) for z in P.coordinates_dphi_denergy)
    turn = rec * m.dturns
    x = (dphi + m.phi0[turn]) / (m.h_num * m.omega_rev0[turn] * m.dtbin) - lim['xorigin']
    y = dE / lim['dEbin'] + m.nbins / 2.0
    s = m.snpt
    ix, iy = np.round(x * s - 0.5), np.round(y * s - 0.5)
    mon.close(x * s - 0.5, ix, f'{what}: phases on the grid', rtol=0, atol=1e-4)
    mon.close(y * s - 0.5, iy, f'{what}: energies on the grid', rtol=0, atol=1e-4)
    mon.check(len(np.unique(ix * 1e6 + iy)) == len(ix), f'{what}: a point occurs twice')
    mon.check(len(ix) == len(iy) and len(ix) > 0, f'{what}: points')
    ix, iy = ix.astype(int), iy.astype(int)
    col = ix // s
    mon.check(col.min() >= 0 and col.max() < m.nbins, f'{what}: outside the image', lo=int(col.min()), hi=int(col.max()))
    nocol = 0
    amb = 0
    for c in range(m.nbins):
        sub = col == c
        cands = []
        for imin, imax, jmin, jmax in (lo, hi):
            if imin <= c <= imax and jmax[c] > jmin[c]:
                cands.append((int(jmin[c]), int(jmax[c])))
            else:
                cands.append(None)
        a, b = cands
        if a != b:
            amb += 1
        ok = False
        opts = set(cands)
        if a and b:
            opts |= {(p, q) for q in range(a[1], b[1] + 1) for p in range(min(a[0], b[0]), max(a[0], b[0]) + 1)}
        for o in opts:
            if o is None:
                ok |= not sub.any()
            else:
                # no point occurs twice: the right number inside of the limits is all of them
                ok |= (sub.sum() == s * s * (o[1] - o[0])
                       and bool(np.all((iy[sub] >= o[0] * s) & (iy[sub] < o[1] * s))))
        if not ok:
            yy = iy[sub] / s
            mon.fail(f'{what}: column {c} does not hold the expected points', expected=str(cands),
                     points=int(sub.sum()), ymin=float(yy.min()) if sub.any() else None,
                     ymax=float(yy.max()) if sub.any() else None, limits=str((lo[0], lo[1])))
        nocol += not sub.any()
    mon.ev('columns', m.nbins)
    mon.ev('columns_empty', nocol)
    mon.ev('columns_undecided', amb)
    mon.ev('points', len(ix))
    if amb == 0 and np.array_equal(lim['jmax_lo'], lim['jmax_hi']):
        for nm, got, want in (('jmin', P.jmin, lo[2]), ('jmax', P.jmax, lo[3])):
            mon.equal(np.asarray(got)[lo[0]:lo[1] + 1], want.astype(int)[lo[0]:lo[1] + 1], f'{what}: {nm}')
        out = np.ones(m.nbins, bool)
        out[lo[0]:lo[1] + 1] = False
        mon.check(np.all(np.asarray(P.jmax)[out] <= np.asarray(P.jmin)[out]), f'{what}: a column outside of the limits has a height')
        mon.equal([int(P.imin), int(P.imax)], [int(lo[0]), int(lo[1])], f'{what}: phase limits')


def guard(m):
    """Limits that leave a column without any height are refused by design."""
    lim, lo, hi = expected(m)
    for imin, imax, jmin, jmax in (lo, hi):
        s = slice(int(imin), int(imax))
        if not 0 <= imin < imax or (jmin[s] > jmax[s]).any() or (jmin >= jmax).all():
            raise Skip('limits outside of the area')


def create(m, rec):
    from longitudinal_tomography.tracking.particles import Particles
    P = Particles()
    P.homogeneous_distribution(m, rec)
    return P


def machine(rng, i, **kw):
    if i % 40 == 22:
        kw['nbins'] = int(rng.integers(501, 700))
    m, k, info = gen.bucket_machine(rng, ring=i, max_turns=500, **kw)
    if i % 9 == 4 and m.nbins <= 151:
        m.snpt = int(gen.pick(rng, [5, 6, 7, 8, 9, 12, 16, 20]))
    if i % 4 == 1:
        # a maximum energy that keeps the bucket inside or far outside the image
        lim = refs.phase_space_limits(m)
        m.demax = float(lim['dEbin'] * (m.nbins / 2.0) * rng.uniform(0.4, 2.0))
    if i % 4 == 3:
        m.filmstart = int(rng.integers(m.nprofiles))
    lim = refs.phase_space_limits(m)
    if (lim['jmax_lo'] - m.nbins / 2.0 >= 2).sum() < 2:
        raise Skip('area too small')
    return m, k, info


def run_area(case, rng, mon):
    m, kw, info = machine(rng, case['i'])
    rec = int(rng.integers(m.nprofiles))
    P = create(m, rec)
    judge(mon, m, P, rec, f'area {info["ring"]}')
    mon.state('area', info['ring'], m.nbins, m.snpt, info['dual'], m.demax > 0, m.filmstart, m.beam_ref_frame)


def run_full(case, rng, mon):
    m, kw, info = machine(rng, case['i'])
    m.full_pp_flag = True
    if case['i'] % 3:
        k = int(rng.integers(0, m.nbins // 3))
        m.min_dt = m.dtbin * k
        m.max_dt = m.dtbin * int(rng.integers(k + 2, m.nbins + 1))
    rec = int(rng.integers(m.nprofiles))
    P = create(m, rec)
    judge(mon, m, P, rec, f'full {info["ring"]}')
    mon.state('full', info['ring'], m.nbins, m.snpt, case['i'] % 3)


def run_limits(case, rng, mon):
    """Phase limits at bin borders, between them and outside of the area."""
    m, kw, info = machine(rng, case['i'])
    lim, lo, hi = expected(m)
    a = int(rng.integers(0, max(1, m.nbins // 2 - 3)))
    b = int(rng.integers(m.nbins // 2 + 3, m.nbins + 1))
    fr = [0.0, 0.3, 0.7][case['i'] % 3]
    m.min_dt = m.dtbin * (a + (fr if fr < 0.5 else 0.0))
    m.max_dt = m.dtbin * (b - fr)
    up = lim['jmax_lo'] - m.nbins / 2.0
    if (up[a + 1:b - 1] >= 2).sum() < 2:
        raise Skip('area too small')
    if fr == 0.3 and a:
        # between two borders the code counts whole bins below the limit
        m.min_dt = m.dtbin * a
    guard(m)
    rec = int(rng.integers(m.nprofiles))
    P = create(m, rec)
    judge(mon, m, P, rec, f'limits {a}..{b}-{fr}')
    mon.state('limits', info['ring'], m.nbins, a, b, fr)


def run_every(case, rng, mon):
    """The same area whatever the profile it is placed in."""
    m, kw, info = machine(rng, case['i'], nprofiles=int(rng.integers(2, 12)))
    for rec in range(m.nprofiles):
        P = create(m, rec)
        judge(mon, m, P, rec, f'profile {rec}')
    mon.state('every', info['ring'], m.nbins, m.nprofiles)


def run_programs(case, rng, mon):
    """Machines described by programs: voltages, phases and the offset of the
    second harmonic differ from turn to turn."""
    from vt.props import p08
    for _ in range(25):
        par, kw, info = p08.build(rng, case['i'], accel=bool(rng.integers(2)), dual=True)
        extra, phi12 = p08.phases(rng, par, kw, int(gen.pick(rng, [1, 2, 4])))
        m = p08.make(par, **extra)
        if np.ndim(m.phi12) == 0 or m.nprofiles < 3:
            continue
        # offsets that move far within the record
        m.phi12 = m.phi12 + rng.uniform(-1.5, 1.5) * np.linspace(0, 1, len(m.phi12))
        try:
            m.find_synchronous_phase()
        except ValueError:
            continue
        m.filmstart = int(rng.integers(m.nprofiles))
        m.beam_ref_frame = int(rng.integers(m.nprofiles))
        m.snpt = int(rng.integers(1, 5))
        lim = refs.phase_space_limits(m)
        if lim['dEbin'] > 0 and (lim['jmax_lo'] - m.nbins / 2.0 >= 2).sum() >= 3:
            break
    else:
        raise Skip('area too small')
    guard(m)
    rec = int(rng.integers(m.nprofiles))
    judge(mon, m, create(m, rec), rec, f'programs {info["ring"]}')
    mon.ev('phase_programs')
    mon.state('programs', info['ring'], m.nbins, m.snpt, m.filmstart, m.beam_ref_frame)
