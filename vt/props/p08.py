"""P08: a machine described by programs: the table follows the programs turn
by turn and agrees with a machine described by constants."""
import numpy as np
from vt import gen
from vt.mon import Skip

C = 299792458.0

RULE = """Every case draws momentum, voltage and phase programs on their own
time axes (constant, ramped, with kinks, sampled coarser or finer than a
revolution), a reference time between two revolutions, one or two harmonics, a
reference profile, and checks the table turn by turn: momenta and voltages
against the programs evaluated by an independent walk through the
revolutions, energies, velocities, phase slip, drift, times; synchronous
phases must balance the ramp on the stable side; phi12 given as a number, as
an array on either time axis or as a phase program; constant programs must
give the machine made of constants.  Programs that end too early must be
refused.  Distinct cases differ in ring, shape, programs, kind of phi12."""
ASSUMPTIONS = ['a stable synchronous phase exists',
               'deltaE0 is one entry shorter than the other tables (pinned by the test suite; recorded finding progdelta): its entries must be the energy differences of neighbouring turns']

QUICK = 4
KINDS = {
    'table': ('plain', 300, 5000),
    'constant': ('plain', 80, 1500),
    'short': ('plain', 60, 800),
    'phi12': ('plain', 80, 1500),
    'track': ('plain', 60, 1000),
}


def build(rng, i, accel=None, dual=None, turns_max=300, const=False):
    kw, info = gen.machine_kwargs(rng, ring=i, accel=accel, dual=dual, vdot=False, ref=False,
                                  max_turns=turns_max, smax=0.5)
    kw['h_num'] = h = kw['h_num']
    h2 = int(h * gen.pick(rng, [2, 3, 4])) if rng.random() < 0.6 else int(rng.integers(h + 1, 4 * h + 1))
    hr = h2 / h
    dual = kw['vrf2'] > 0
    if dual:
        kw['h_ratio'] = float(hr)
        kw['vrf2'] = min(kw['vrf2'], 0.4 * kw['vrf1'] * np.sqrt(1 - info['sinphi'] ** 2) / hr)
    mref = int(rng.integers(kw['nprofiles'])) if rng.random() < 0.4 else 0
    nturns = kw['dturns'] * kw['nprofiles']
    T0, q = info['T0'], kw['charge']
    p0 = info['e0'] * info['beta']
    dpdt = 0.0 if const else abs(q) * kw['vrf1'] * info['sinphi'] / (2 * np.pi * kw['mean_orbit_rad']) * C
    # the record starts after `lead` revolutions
    lead = mref * kw['dturns'] + int(rng.integers(2, 40))
    t_ref_turns = lead + rng.uniform(0.2, 0.8)
    tstart = float(rng.uniform(-1, 1)) * T0 * 1000
    total = lead + nturns + 12
    npts = int(gen.pick(rng, [2, 5, 17, total, 3 * total]))
    tp = tstart + np.sort(np.concatenate([[0, 1], rng.random(npts - 2)])) * total * T0 * 1.3
    if dpdt and rng.random() < 0.4 and npts > 4:       # a kink
        slope = dpdt * rng.uniform(0.3, 1.0, npts - 1)
    else:
        slope = np.full(npts - 1, dpdt)
    # p = p0 near the reference time
    pp = np.concatenate([[0], np.cumsum(slope * np.diff(tp))])
    pp = pp - np.interp(tstart + t_ref_turns * T0, tp, pp) + p0
    nv = int(gen.pick(rng, [2, 3, 9, 50]))
    tv = np.linspace(tstart - T0, tp[-1] + T0, nv)
    grow = np.zeros(nv) if const else rng.uniform(0, 0.3, nv)
    volt = [tv, kw['vrf1'] * (1 + grow)]
    if dual:
        volt.append(kw['vrf2'] * (1 + 0.5 * grow))
    harm = [h, h2] if dual else [h]
    par = dict(dturns=kw['dturns'], voltage_function=np.array(volt), momentum_function=np.array([tp, pp]),
               harmonics=harm, mean_orbit_rad=kw['mean_orbit_rad'], bending_rad=kw['bending_rad'],
               trans_gamma=kw['trans_gamma'], rest_energy=kw['rest_energy'], nprofiles=kw['nprofiles'],
               nbins=kw['nbins'], dtbin=kw['dtbin'], t_ref=float(tstart + t_ref_turns * T0),
               charge=q, h_num=h, machine_ref_frame=mref, synch_part_x=kw['synch_part_x'])
    return par, kw, info


def phases(rng, par, kw, style):
    """phi12 option: returns (extra arguments, function of program time)."""
    tv = par['voltage_function'][0]
    hr = par['harmonics'][1] / par['harmonics'][0] if len(par['harmonics']) == 2 else 1
    base = rng.uniform(-np.pi, np.pi)
    if style == 0:
        return dict(phi12=float(base)), lambda t: np.full(np.shape(t), base)
    if style == 1:
        v = base + rng.uniform(-0.05, 0.05, len(tv))
        return dict(phi12=v), lambda t: np.interp(t, tv, v)
    if style == 2:
        ta = np.linspace(tv[0], tv[-1], 7)
        v = base + rng.uniform(-0.05, 0.05, 7)
        return dict(phi12=np.array([ta, v])), lambda t: np.interp(t, ta, v)
    if style == 3:
        return dict(phi12=np.array([base])), lambda t: np.full(np.shape(t), base)
    ta = np.linspace(tv[0], tv[-1], 11)
    a = rng.uniform(-0.05, 0.05, 11)
    b = base + rng.uniform(-0.05, 0.05, 11)
    if len(par['harmonics']) == 1:
        return dict(phase_function=np.array([ta, a])), lambda t: (np.interp(t, ta, a) + np.pi) / hr
    return dict(phase_function=np.array([ta, a, b])), \
        lambda t: (np.interp(t, ta, a) - np.interp(t, ta, b) + np.pi) / hr


def revolutions(par):
    """Start times and momenta of the turns of the record."""
    tp, pp = par['momentum_function']
    circ = 2 * np.pi * par['mean_orbit_rad']
    e = par['rest_energy']

    def rev(p):
        return circ * np.hypot(p, e) / (p * C)
    n = par['dturns'] * par['nprofiles']
    i0 = par['machine_ref_frame'] * par['dturns']
    t, p = [tp[0] + rev(pp[0])], [pp[0]]
    first = None
    while True:
        if first is None and t[-1] >= par['t_ref']:
            if abs(t[-1] - par['t_ref']) < 1e-6 * rev(p[-1]):
                raise Skip('reference time at a turn')
            first = len(t) - 1
        if first is not None and len(t) >= first - i0 + n:
            break
        tn = t[-1] + rev(p[-1])
        t.append(tn)
        p.append(np.interp(tn, tp, pp))
    s = first - i0
    return np.array(t[s:s + n]), np.array(p[s:s + n])


def walk(mon, m, par, phi12):
    n = par['dturns'] * par['nprofiles']
    tm, p = revolutions(par)
    e = par['rest_energy']
    q, R, rho = par['charge'], par['mean_orbit_rad'], par['bending_rad']
    for nm in ('time_at_turn', 'omega_rev0', 'phi0', 'drift_coef', 'beta0', 'eta0', 'e0', 'vrf1_at_turn', 'vrf2_at_turn', 'bdot'):
        mon.equal(np.shape(getattr(m, nm)), (n,), f'length of {nm}')
    mon.close(m.momentum_function, p, 'momentum by turn', rtol=1e-10)
    mon.close(m.e0, np.hypot(p, e), 'energy', rtol=1e-10)
    mon.close(m.beta0, p / np.hypot(p, e), 'velocity', rtol=1e-10)
    b = m.beta0
    mon.close(m.omega_rev0, b * C / R, 'revolution frequency', rtol=1e-11)
    mon.check(m.time_at_turn[par['machine_ref_frame'] * par['dturns']] == 0, 'time zero at the reference profile')
    mon.close(np.diff(m.time_at_turn), 2 * np.pi * R / (b[1:] * C), 'time of a turn', rtol=1e-10,
              atol=1e-14 * np.max(np.abs(m.time_at_turn)))
    eta = (m.e0 / e) ** -2 - par['trans_gamma'] ** -2
    mon.close(m.eta0, eta, 'phase slip', rtol=1e-8)
    mon.close(m.drift_coef, 2 * np.pi * par['h_num'] * eta / (m.e0 * b * b), 'drift', rtol=1e-8)
    V = par['voltage_function']
    mon.close(m.vrf1_at_turn, np.interp(tm, V[0], V[1]), 'first voltage', rtol=1e-9)
    two = len(par['harmonics']) == 2
    mon.close(m.vrf2_at_turn, np.interp(tm, V[0], V[2]) if two else np.zeros(n), 'second voltage', rtol=1e-9)
    hr = par['harmonics'][1] / par['harmonics'][0] if two else 1
    mon.check(m.h_ratio == hr, 'ratio of the harmonics', got=m.h_ratio)
    d = np.diff(m.e0)
    dE = np.asarray(m.deltaE0)
    if dE.shape == (n - 1,):
        mon.equal(dE, d, 'energy gains')
        if np.any(d):
            mon.known.add('progdelta')
    else:
        mon.close(dE[1:], d, 'energy gains', rtol=1e-9, atol=1e-15 * m.e0.max())
    if phi12 is None:
        mon.check(m.phi12 is None, 'phi12 is left open')
        return
    p12 = phi12(tm)
    mon.close(np.broadcast_to(m.phi12, (n,)), p12, 'phi12', rtol=0, atol=1e-9)
    f = m.phi0
    dt = np.gradient(p, m.time_at_turn)
    U = 2 * np.pi * R * dt / (abs(q) * C) * np.sign(q)
    v1, v2 = m.vrf1_at_turn, m.vrf2_at_turn
    res = v1 * np.sin(f) + v2 * np.sin(hr * (f - p12)) - U
    dV = v1 * np.cos(f) + hr * v2 * np.cos(hr * (f - p12))
    mon.check(np.all(q * m.drift_coef * dV > 0), 'synchronous phase on the unstable side')
    # a phase that moves fast between turns costs accuracy of the iteration
    step = np.abs(res / dV)
    mon.check(step.max() <= 1e-5, 'the synchronous phase does not balance the ramp', worst=step.max(), turn=int(step.argmax()))
    lo, hi = (-np.pi, np.pi) if q * (par['trans_gamma'] - m.e0[par['machine_ref_frame'] * par['dturns']] / e) > 0 else (0, 2 * np.pi)
    mon.check(np.all((f > lo) & (f < hi)), 'synchronous phase outside of its period')
    mon.ev('turns', n)


def make(par, **k):
    from longitudinal_tomography.tracking.programs_machine import ProgramsMachine
    return ProgramsMachine(**par, **k)


def voltages(mon, rng, m, par):
    """The functions the phases are searched with, at turns of this machine."""
    from longitudinal_tomography.utils import physics as ph
    dual = len(par['harmonics']) == 2 and m.phi12 is not None
    for t in {0, len(m.e0) - 1, int(rng.integers(len(m.e0)))}:
        phi = rng.uniform(-7, 7, int(rng.integers(1, 9)))
        v1, v2, hr = m.vrf1_at_turn[t], m.vrf2_at_turn[t], m.h_ratio
        one = v1 * np.sin(phi) - 2 * np.pi * m.mean_orbit_rad * m.bending_rad * m.bdot[t] * np.sign(m.q)
        tol = dict(rtol=1e-9, atol=1e-9 * (abs(v1) + abs(v2)))
        mon.close(ph.rfvolt_rf1_pmch(phi, m, t), one, 'rfvolt_rf1_pmch', **tol)
        mon.close(ph.drfvolt_rf1_pmch(phi, m, t), v1 * np.cos(phi), 'drfvolt_rf1_pmch', **tol)
        if dual:
            p12 = np.broadcast_to(m.phi12, m.vrf1_at_turn.shape)[t]
            mon.close(ph.rf_voltage_pmch(phi, m, t), one + v2 * np.sin(hr * (phi - p12)), 'rf_voltage_pmch', **tol)
            mon.close(ph.drf_voltage_pmch(phi, m, t), v1 * np.cos(phi) + hr * v2 * np.cos(hr * (phi - p12)), 'drf_voltage_pmch', **tol)


def run_table(case, rng, mon):
    par, kw, info = build(rng, case['i'])
    extra, p12 = phases(rng, par, kw, case['i'] % 5)
    keep = {k: np.array(v, copy=True) for k, v in {**par, **extra}.items() if isinstance(v, np.ndarray)}
    m = make(par, **extra)
    walk(mon, m, par, p12)
    voltages(mon, rng, m, par)
    for k, v in keep.items():
        mon.equal({**par, **extra}[k], v, f'{k} is left alone')
    mon.state('table', info['ring'], par['nprofiles'], par['dturns'], len(par['harmonics']), par['momentum_function'].shape[1],
              case['i'] % 5, par['machine_ref_frame'])


def run_phi12(case, rng, mon):
    """phi12 given later, or calculated; the phases follow."""
    par, kw, info = build(rng, case['i'], dual=True)
    m = make(par)
    walk(mon, m, par, None)
    mon.raises(ValueError, m.find_synchronous_phase, 'no phase at all')
    base = rng.uniform(-3, 3)
    m.phi12 = base
    m.find_synchronous_phase()
    walk(mon, m, par, lambda t: np.full(np.shape(t), base))
    if par['charge'] > 0:
        for mode in (1, 2):
            m.calc_phi12(mode)
            want = np.arcsin(2 * np.pi * par['bending_rad'] * par['mean_orbit_rad'] * m.bdot / m.vrf1_at_turn) + np.pi / m.h_ratio
            mon.close(m.phi12, want - (np.pi if mode == 2 else 0), f'calculated phi12, mode {mode}', rtol=0, atol=1e-9)
            m.find_synchronous_phase()
            walk(mon, m, par, lambda t: want - (np.pi if mode == 2 else 0))
    extra, p12 = phases(rng, par, kw, 4)
    mon.raises(ValueError, lambda: make(par, phi12=0.1, **extra), 'phi12 and a phase program')
    mon.raises(ValueError, lambda: make(par, phi12=np.zeros(par['voltage_function'].shape[1] + 2)), 'phi12 of another length')
    mon.state('phi12', info['ring'], par['nprofiles'], par['dturns'])


def run_constant(case, rng, mon):
    from longitudinal_tomography.tracking.machine import Machine
    par, kw, info = build(rng, case['i'], accel=False, const=True)
    base = float(rng.uniform(-3, 3))
    m = make(par, phi12=base)
    hr = par['harmonics'][1] / par['harmonics'][0] if len(par['harmonics']) == 2 else 1
    V = par['voltage_function']
    a = Machine(par['dturns'], V[1, 0], par['mean_orbit_rad'], par['bending_rad'], kw['b0'], par['trans_gamma'],
                par['rest_energy'], par['nprofiles'], par['nbins'], par['dtbin'], h_num=par['h_num'], charge=par['charge'],
                vrf2=V[2, 0] if hr != 1 else 0.0, h_ratio=hr, phi12=base, machine_ref_frame=par['machine_ref_frame'],
                synch_part_x=par['synch_part_x'])
    n = len(a.e0)
    # the phases are searched to a last step of 1e-4, so to about 1e-8
    ea = 2e-8 * n * abs(par['charge']) * (abs(V[1, 0]) + (abs(V[2, 0]) * hr ** 2 if hr != 1 else 0)) / a.e0.min()
    for nm, tol in (('e0', 1e-10), ('beta0', 1e-10), ('eta0', 1e-7), ('drift_coef', 1e-7), ('omega_rev0', 1e-10),
                    ('vrf1_at_turn', 1e-10), ('vrf2_at_turn', 1e-10)):
        mon.close(getattr(m, nm)[:n], getattr(a, nm), f'{nm} of constant programs', rtol=tol + ea * {'e0': 1, 'eta0': 200, 'drift_coef': 200}.get(nm, 10))
    mon.close(m.phi0[:n], a.phi0, 'phases of constant programs', rtol=0, atol=5e-6)
    mon.close(m.time_at_turn[:n], a.time_at_turn, 'times of constant programs', rtol=0, atol=1e-9 * info['T0'] * n)
    mon.state('constant', info['ring'], par['nprofiles'], par['dturns'], hr)


def run_short(case, rng, mon):
    par, kw, info = build(rng, case['i'])
    tp, pp = par['momentum_function']
    tm, _ = revolutions(par)
    cut = tm[int(rng.integers(0, max(1, len(tm) - 3)))] - 0.5 * info['T0']
    if cut <= tp[0] or par['t_ref'] <= tp[0]:
        raise Skip('nothing left')
    t2 = np.concatenate([tp[tp < cut], [cut]])
    par['momentum_function'] = np.array([t2, np.interp(t2, tp, pp)])
    mon.raises(ValueError, lambda: make(par, phi12=0.1), 'a momentum program that ends before the record')
    # and one that starts after the first turn of the record
    if par['machine_ref_frame'] > 0 and tm[0] > tp[0] + 3 * info['T0']:
        late = tm[0] + rng.uniform(0.5, 0.9) * (par['t_ref'] - tm[0])
        t2 = np.concatenate([[late], tp[tp > late], [tp[-1] + 100 * len(tm) * info['T0']]])
        par['momentum_function'] = np.array([t2, np.interp(t2, tp, pp)])
        mon.raises(ValueError, lambda: make(par, phi12=0.1), 'a momentum program that starts within the record')
    mon.state('short', info['ring'], par['nprofiles'], par['dturns'], len(t2))


def run_track(case, rng, mon):
    """Particles follow the same map as in a machine of constants."""
    from longitudinal_tomography.tracking.tracking import Tracking
    from longitudinal_tomography.tracking.machine import Machine
    par, kw, info = build(rng, case['i'], accel=False, const=True)
    if par['dturns'] == 1:
        par['dturns'] = 2       # recorded finding progdelta
        par['machine_ref_frame'] = 0
        par['momentum_function'] = np.array([[par['momentum_function'][0, 0], par['momentum_function'][0, -1] + 3 * par['nprofiles'] * info['T0']],
                                             par['momentum_function'][1, [0, -1]]])
    base = float(rng.uniform(-3, 3))
    m = make(par, phi12=base)
    hr = par['harmonics'][1] / par['harmonics'][0] if len(par['harmonics']) == 2 else 1
    V = par['voltage_function']
    a = Machine(par['dturns'], V[1, 0], par['mean_orbit_rad'], par['bending_rad'], kw['b0'], par['trans_gamma'],
                par['rest_energy'], par['nprofiles'], par['nbins'], par['dtbin'], h_num=par['h_num'], charge=par['charge'],
                vrf2=V[2, 0] if hr != 1 else 0.0, h_ratio=hr, phi12=base, synch_part_x=par['synch_part_x'])
    dphi, dE = gen.distribution(rng, a, info, 50, 0.8)
    rec = int(rng.integers(par['nprofiles'] - 1))
    x, y = Tracking(m).track(rec, init_distr=(dphi, dE))
    x2, y2 = Tracking(a).track(rec, init_distr=(dphi, dE))
    s = abs(a.q * a.vrf1) + np.max(np.abs(y2))
    mon.close(x, x2, 'phases', rtol=0, atol=2e-4 * (1 + np.max(np.abs(x2))))
    mon.close(y / s, y2 / s, 'energies', rtol=0, atol=2e-4)
    mon.state('track', info['ring'], par['nprofiles'], par['dturns'], hr, rec)
