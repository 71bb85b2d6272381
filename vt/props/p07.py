"""P07: the machine's turn-by-turn table obeys the machine's physics in every
turn, whatever the reference frame and the order in which it was set up."""
import numpy as np
from vt import gen

C = 299792458.0

RULE = """Every case sets up a machine (rings, ions, negative charges, both
sides of transition, single and double rf, voltage and field ramps, any
reference profile) and an online checker walks the table turn by turn: time
between turns, energy gain against the voltage at the synchronous phase, phase
on the stable side and balancing the field ramp, velocity, phase slip, drift,
revolution frequency, voltages; the energies are also compared with the
magnetic field.  Further cases set the machine up again after changing it,
or with another reference profile of the same ramp, and call the functions of
voltage and potential alone and with machines.  Distinct cases differ in
ring, shape, rf system or reference profile."""
ASSUMPTIONS = ['a stable synchronous phase exists and transition is not crossed',
               'synchronous phases are only as good as the documented iteration (1e-4 rad, converging quadratically)',
               'gains of turns up to the reference profile: recorded finding syncref']

QUICK = 4
KINDS = {
    'table': ('plain', 500, 8000),
    'again': ('plain', 120, 2500),
    'reference': ('plain', 120, 2500),
    'defaults': ('plain', 30, 200),
    'formulas': ('plain', 100, 2000),
}


def walk(mon, m, kw):
    n = (kw['nprofiles'] - 1) * kw['dturns'] + 1
    names = ('time_at_turn', 'omega_rev0', 'phi0', 'drift_coef', 'deltaE0', 'beta0', 'eta0', 'e0',
             'vrf1_at_turn', 'vrf2_at_turn')
    for nm in names:
        mon.equal(np.shape(getattr(m, nm)), (n,), f'length of {nm}')
    t, e, b, f = m.time_at_turn, m.e0, m.beta0, m.phi0
    q, R, rho, hr, p12 = kw['charge'], kw['mean_orbit_rad'], kw['bending_rad'], kw['h_ratio'], kw['phi12']
    i0 = kw['machine_ref_frame'] * kw['dturns']
    rest = kw['rest_energy']
    mon.check(t[i0] == 0, 'time zero is at the reference profile', got=t[i0])
    mon.close(e[i0], np.hypot(q * kw['b0'] * rho * C, rest), 'energy at the reference profile', rtol=1e-12)
    v1 = kw['vrf1'] + kw['vrf1dot'] * t
    v2 = kw['vrf2'] + kw['vrf2dot'] * t
    mon.close(m.vrf1_at_turn, v1, 'first voltage', rtol=1e-12)
    mon.close(m.vrf2_at_turn, v2, 'second voltage', rtol=1e-12, atol=1e-12 * kw['vrf1'])
    mon.close(b, np.sqrt((e - rest) * (e + rest)) / e, 'velocity', rtol=1e-9)
    gam = e / rest
    eta = gam ** -2 - kw['trans_gamma'] ** -2
    mon.close(m.eta0, eta, 'phase slip', rtol=1e-8)
    mon.close(m.drift_coef, 2 * np.pi * kw['h_num'] * eta / (e * b * b), 'drift', rtol=1e-8)
    mon.close(m.omega_rev0, b * C / R, 'revolution frequency', rtol=1e-12)
    tol_t = 1e-15 * np.max(np.abs(t)) * 4
    mon.close(np.diff(t), 2 * np.pi * R / (b[:-1] * C), 'time of one turn', rtol=1e-11, atol=tol_t)
    V = v1 * np.sin(f) + v2 * np.sin(hr * (f - p12))
    dV = v1 * np.cos(f) + hr * v2 * np.cos(hr * (f - p12))
    res = V - np.sign(q) * 2 * np.pi * R * rho * kw['bdot']
    mon.check(np.all(q * m.drift_coef * dV > 0), 'synchronous phase on the unstable side')
    lo, hi = (-np.pi, np.pi) if q * (kw['trans_gamma'] - gam[i0]) > 0 else (0, 2 * np.pi)
    mon.check(np.all((f > lo) & (f < hi)), 'synchronous phase outside of its period', lo=lo, hi=hi, got=f)
    step = np.abs(res / dV)
    mon.check(step.max() <= 2e-6, 'the synchronous phase does not balance the field ramp', turn=int(step.argmax()),
              worst=step.max())
    eps_e = 4e-16 * e.max()
    mon.close(np.diff(e), q * V[1:], 'energy gain of one turn', rtol=1e-12, atol=eps_e)
    mon.close(m.deltaE0[i0 + 1:], np.diff(e)[i0:], 'gain used by the tracking', rtol=1e-12, atol=eps_e)
    good = np.concatenate([[0.0], np.diff(e)])[:i0 + 1]
    bad = np.concatenate([np.diff(e)[:i0], [0.0]])[:i0 + 1]
    d = m.deltaE0[:i0 + 1]
    is_good = np.all(np.abs(d - good)[1:] <= eps_e + 1e-12 * np.abs(good[1:]))
    is_bad = np.all(np.abs(d - bad) <= eps_e + 1e-12 * np.abs(bad))
    if not is_good and is_bad and kw['bdot'] != 0:
        mon.known.add('syncref')
        mon.ev('known_syncref')
    elif not is_good:
        # without a ramp the gains are the rounding of the phases
        mon.check(is_bad, 'gain used by the tracking before the reference', got=d)
    # the field defines the energy, up to the discrete turns
    pB = q * rho * C * (kw['b0'] + kw['bdot'] * t)
    eB = np.hypot(pB, rest)
    gain = abs(q) * 2 * np.pi * R * rho * abs(kw['bdot'])
    span = np.max(np.abs(e - e[i0]))
    db = np.max(np.abs(b / b[i0] - 1))
    mon.close(e - e[i0], eB - e[i0], 'energy against magnetic field', rtol=0,
              atol=2 * gain + span * (3 * db + 1e-5) + 2e-6 * n * abs(q) * kw['vrf1'] * 2 + 1e-13 * n * e.max())
    mon.ev('turns', n)


def kwargs(rng, case, **o):
    kw, info = gen.machine_kwargs(rng, ring=case['i'], **o)
    if rng.random() < 0.4:
        kw['machine_ref_frame'] = int(rng.integers(kw['nprofiles']))
    return kw, info


def run_table(case, rng, mon):
    kw, info = kwargs(rng, case)
    m = gen.make_machine(kw)
    walk(mon, m, kw)
    mon.state(info['ring'], kw['nprofiles'], kw['dturns'], kw['machine_ref_frame'], info['dual'], kw['bdot'] != 0, kw['vrf1dot'] != 0)


NAMES = ['time_at_turn', 'omega_rev0', 'phi0', 'drift_coef', 'deltaE0', 'beta0', 'eta0', 'e0', 'vrf1_at_turn', 'vrf2_at_turn']


def run_again(case, rng, mon):
    """Set up late, set up twice, changed and set up again."""
    kw, info = kwargs(rng, case, max_turns=400)
    m = gen.make_machine(kw)
    ref = {k: getattr(m, k).copy() for k in NAMES}
    late = gen.make_machine(kw, vat_now=False)
    late.values_at_turns()
    m.values_at_turns()
    kw2, _ = kwargs(rng, {'i': case['i'] + 1}, max_turns=400)
    other = gen.make_machine(kw2)
    # an old machine turned into this one
    alias = dict(charge='q', rest_energy='e_rest')
    for k in kw:
        setattr(other, alias.get(k, k), kw[k])
    other.values_at_turns()
    for k in NAMES:
        mon.equal(getattr(m, k), ref[k], f'{k} after a second setup')
        mon.equal(getattr(late, k), ref[k], f'{k} after a late setup')
        mon.equal(getattr(other, k), ref[k], f'{k} of a machine changed into this one')
    mon.check(other.synch_part_y == kw['nbins'] / 2.0, 'vertical position of the synchronous particle follows the number of bins',
              got=other.synch_part_y)
    # one parameter after the other
    now = dict(kw)
    names = ['phi12', 'trans_gamma', 'vrf1', 'vrf1dot', 'vrf2', 'vrf2dot', 'b0', 'bdot', 'h_num', 'mean_orbit_rad', 'bending_rad', 'rest_energy',
             'machine_ref_frame', 'dturns', 'nprofiles', 'h_ratio']
    for k in rng.permutation(names)[:4]:
        old = now[k]
        new = (int(rng.integers(now['nprofiles'])) if k == 'machine_ref_frame' else old + 1 if k in ('dturns', 'nprofiles', 'h_num', 'h_ratio') else
               old + 1e-3 if k == 'phi12' else old * 1.0001)
        try:
            fresh = gen.make_machine(dict(now, **{k: new}))
        except Exception:
            continue
        now[k] = new
        setattr(m, alias.get(k, k), new)
        m.values_at_turns()
        for q in NAMES:
            mon.equal(getattr(m, q), getattr(fresh, q), f'{q} after {k} was changed')
    mon.state('again', info['ring'], kw['nprofiles'], kw['dturns'], kw2['nprofiles'])


def run_reference(case, rng, mon):
    """The same ramp described at another profile is the same machine."""
    kw, info = kwargs(rng, case, max_turns=600)
    kw['machine_ref_frame'] = 0
    a = gen.make_machine(kw)
    k = int(rng.integers(kw['nprofiles']))
    i = k * kw['dturns']
    t = a.time_at_turn[i]
    kb = dict(kw, machine_ref_frame=k, vrf1=kw['vrf1'] + kw['vrf1dot'] * t, vrf2=kw['vrf2'] + kw['vrf2dot'] * t,
              b0=float(np.sqrt((a.e0[i] - a.e_rest) * (a.e0[i] + a.e_rest)) / (abs(a.q) * a.bending_rad * C)))
    b = gen.make_machine(kb)
    n = len(a.e0)
    dv = abs(a.q) * a.vrf1 * 4e-6
    mon.close(b.phi0, a.phi0, 'phases', rtol=0, atol=5e-6)
    mon.close(b.e0, a.e0, 'energies', rtol=1e-12, atol=n * dv)
    mon.close(b.time_at_turn + t, a.time_at_turn, 'times', rtol=0, atol=1e-12 * abs(a.time_at_turn[-1]) + n * info['T0'] * n * dv / (a.e0[0] - a.e_rest))
    mon.close(b.vrf1_at_turn, a.vrf1_at_turn, 'voltages', rtol=1e-6)
    mon.state('reference', info['ring'], kw['nprofiles'], kw['dturns'], k)


def run_defaults(case, rng, mon):
    """What is not given has its documented default."""
    from longitudinal_tomography.tracking.machine import Machine
    kw, info = gen.machine_kwargs(rng, ring=0, accel=False, dual=False, vdot=False)
    need = ('dturns', 'vrf1', 'mean_orbit_rad', 'bending_rad', 'b0', 'trans_gamma', 'rest_energy', 'nprofiles', 'nbins', 'dtbin')
    m = Machine(**{k: kw[k] for k in need}, synch_part_x=1.0)
    want = dict(demax=-1e6, phi12=0.0, h_ratio=1.0, q=1, h_num=1, self_field_flag=False, full_pp_flag=False,
                machine_ref_frame=0, beam_ref_frame=0, snpt=4, niter=20, filmstart=0, filmstop=1, filmstep=1,
                vrf1dot=0.0, vrf2=0.0, vrf2dot=0.0, bdot=0.0, min_dt=0.0, synch_part_y=kw['nbins'] / 2.0)
    for k, v in want.items():
        mon.check(getattr(m, k) == v, f'default of {k}', got=getattr(m, k), want=v)
    mon.close(m.max_dt, kw['nbins'] * kw['dtbin'], 'default of max_dt', rtol=1e-12)
    walk(mon, m, dict(kw, charge=1, h_num=1, h_ratio=1.0, phi12=0.0, machine_ref_frame=0, bdot=0.0, vrf1dot=0.0, vrf2=0.0, vrf2dot=0.0))
    mon.state('defaults', kw['nprofiles'], kw['nbins'])


def run_formulas(case, rng, mon):
    """The functions of voltage and potential, one by one and with machines."""
    from longitudinal_tomography.utils import physics as ph
    from scipy.constants import c as light
    kw, info = gen.machine_kwargs(rng, ring=case['i'], max_turns=200)
    m = gen.make_machine(kw)
    t = int(rng.integers(len(m.e0)))
    n = int(rng.integers(1, 20))
    phi = rng.uniform(-7, 7, n)
    if case['i'] % 3 == 0:
        phi = float(phi[0])
    v1, v2, bd = rng.uniform(-1e5, 1e5), rng.uniform(-1e5, 1e5), rng.uniform(-5, 5)
    hr, p12, R, rho, q = rng.uniform(0.5, 5), rng.uniform(-4, 4), rng.uniform(1, 1e3), rng.uniform(1, 300), float(rng.integers(1, 4) * gen.pick(rng, [-1, 1]))
    tol = dict(rtol=1e-10, atol=1e-10 * (abs(v1) + abs(v2) + 10 * R * rho * abs(bd)))
    one, two = v1 * np.sin(phi), v2 * np.sin(hr * (phi - p12))
    gain = 2 * np.pi * R * rho * bd * (1 if q > 0 else -1)
    mon.close(ph.rf_voltage(phi, v1, v2, bd, hr, p12, R, rho, q), one + two - gain, 'rf_voltage', **tol)
    mon.close(ph.rfvolt_rf1(phi, v1, bd, R, rho, q), one - gain, 'rfvolt_rf1', **tol)
    d1, d2 = v1 * np.cos(phi), hr * v2 * np.cos(hr * (phi - p12))
    mon.close(ph.drf_voltage(phi, v1, v2, hr, p12), d1 + d2, 'drf_voltage', **tol)
    mon.close(ph.drfvolt_rf1(phi, v1), d1, 'drfvolt_rf1', **tol)
    f, tt = float(np.ravel(phi)[0]), rng.uniform(-1, 1)
    mon.close(ph.vrft(v1, bd, tt), v1 + bd * tt, 'vrft', rtol=1e-12)
    mon.close(ph.rf_voltage_at_phase(f, v1, v2, hr, p12), v1 * np.sin(f) + v2 * np.sin(hr * (f - p12)), 'rf_voltage_at_phase', **tol)
    ts, k = rng.uniform(-1, 1, 9), int(rng.integers(9))
    a, b = v1 + 3e3 * ts[k], v2 - 2e3 * ts[k]
    mon.close(ph.rf_voltage_at_phase(f, v1, 3e3, v2, -2e3, hr, p12, ts, k), a * np.sin(f) + b * np.sin(hr * (f - p12)),
              'rf_voltage_at_phase with ramps', rtol=1e-10, atol=1e-8 * (abs(v1) + abs(v2)))
    # with a machine, at one of its turns
    T = m.time_at_turn[t]
    w1, w2 = kw['vrf1'] + kw.get('vrf1dot', 0) * T, kw.get('vrf2', 0) + kw.get('vrf2dot', 0) * T
    one = w1 * np.sin(phi) - 2 * np.pi * m.mean_orbit_rad * m.bending_rad * m.bdot * np.sign(m.q)
    two = w2 * np.sin(m.h_ratio * (phi - m.phi12))
    tol = dict(rtol=1e-9, atol=1e-9 * (abs(w1) + abs(w2)))
    mon.close(ph.rf_voltage_mch(phi, m, t), one + two, 'rf_voltage_mch', **tol)
    mon.close(ph.rfvolt_rf1_mch(phi, m, t), one, 'rfvolt_rf1_mch', **tol)
    d1, d2 = w1 * np.cos(phi), m.h_ratio * w2 * np.cos(m.h_ratio * (phi - m.phi12))
    mon.close(ph.drf_voltage_mch(phi, m, t), d1 + d2, 'drf_voltage_mch', **tol)
    mon.close(ph.drfvolt_rf1_mch(phi, m, t), d1, 'drfvolt_rf1_mch', **tol)
    mon.close(ph.b_to_e(m), np.hypot(m.q * m.b0 * m.bending_rad * light, m.e_rest), 'b_to_e', rtol=1e-12)
    mon.close(ph.lorentz_beta(m, t), np.sqrt(1 - (m.e_rest / m.e0[t]) ** 2), 'lorentz_beta', rtol=1e-12)
    below = m.e0[t] / m.e_rest < m.trans_gamma
    lim = ph.find_phi_lower_upper(m, t)
    mon.close(np.array(lim), np.array([-np.pi, np.pi] if below == (m.q > 0) else [0, 2 * np.pi]), 'range of the synchronous phase', rtol=1e-12)
    # potential between the ends of a bunch
    L, p0 = float(rng.uniform(0.1, 6)), f
    u1, u2, f0 = m.vrf1_at_turn, m.vrf2_at_turn, m.phi0
    P = m.phi12 + (0.2 * rng.uniform(-1, 1, len(u1)) if case['i'] % 2 else 0.0)
    pt = P[t] if np.ndim(P) else P
    U = lambda x: (u1[t] * np.cos(x) + u2[t] * np.cos(m.h_ratio * (x - pt)) / m.h_ratio
                   + x * (u1[t] * np.sin(f0[t]) + u2[t] * np.sin(m.h_ratio * (f0[t] - pt))))
    dU = lambda x: -u1[t] * np.sin(x) - u2[t] * np.sin(m.h_ratio * (x - pt))
    mon.close(ph.phase_low(p0, L, u1, u2, f0, m.h_ratio, P, t), U(p0 + L) - U(p0), 'phase_low', **tol)
    mon.close(ph.dphase_low(p0, L, u1, u2, m.h_ratio, P, t), dU(p0 + L) - dU(p0), 'dphase_low', **tol)
    m.phi12 = P
    mon.close(ph.phase_low_mch(p0, m, L, t), U(p0 + L) - U(p0), 'phase_low_mch', **tol)
    mon.close(ph.dphase_low_mch(p0, m, L, t), dU(p0 + L) - dU(p0), 'dphase_low_mch', **tol)
    mon.state('formulas', info['ring'], np.ndim(phi), t, np.ndim(P))
