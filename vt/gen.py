"""Workload generators: machines, distributions, waterfalls.

`machine_kwargs` draws physically meaningful machines: several rings, ions and
negative charges, below and above transition, stationary and accelerating,
single and double rf, ramped voltages.  All stay inside the domain in which
the code promises a result (a stable synchronous phase exists, transition is
not crossed), so a refusal of such a machine is a violation."""
import numpy as np

C = 299792458.0
MP = 0.93827231e9

RINGS = [
    # name, R, rho, gamma_t, rest energy, charge, momentum range [GeV/c per charge]
    ('psb', 25.0, 8.239, 4.1, MP, 1, (0.31, 2.2)),
    ('ps', 100.0, 70.079, 6.1, MP, 1, (2.1, 4.6)),
    ('ps-above', 100.0, 70.079, 6.1, MP, 1, (7.5, 26.0)),
    ('sps', 1100.0, 741.26, 22.8, MP, 1, (26.0, 440.0)),
    ('ps-pb', 100.0, 70.079, 6.1, 193.7e9, 54, (1.0, 5.0)),
    ('leir', 12.5, 4.17, 2.84, 193.7e9, 54, (0.35, 1.3)),
    ('pbar', 29.0, 6.7, 4.8, MP, -1, (0.3, 3.4)),
    ('pbar-above', 25.0, 8.239, 2.0, MP, -1, (2.4, 6.0)),
    ('unit', 1.0, 1.0, 3.3, 1e6, 1, (1e-3, 2.5e-3)),
]


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def machine_kwargs(rng, ring=None, nprofiles=None, nbins=None, dturns=None,
                   dual=None, accel=None, vdot=None, maxphase=10.0, qs=None,
                   ref=True, h_ratio=None, max_turns=4000,
                   smax=0.6, cover=(0.55, 1.1)):
    """Returns (kwargs of Machine, info)."""
    for _ in range(200):
        name, R, rho, gt, m, q, prange = RINGS[ring % len(RINGS)] if ring is not None else pick(rng, RINGS)
        p = np.exp(rng.uniform(np.log(prange[0]), np.log(prange[1]))) * 1e9 * abs(q)
        e0 = np.hypot(p, m)
        gam = e0 / m
        if abs(gam / gt - 1) < 0.12:
            continue
        beta = p / e0
        eta = 1 - beta ** 2 - gt ** -2
        b0 = p / (abs(q) * rho * C)
        h = int(pick(rng, [1, 1, 2, 3, 7, 8, 21]))
        Qs = qs if qs is not None else np.exp(rng.uniform(np.log(4e-4), np.log(2e-2)))
        npr = nprofiles if nprofiles is not None else int(rng.integers(2, 60))
        dt = dturns if dturns is not None else int(pick(rng, [1, 2, 3, 5, 7, 10, 12]))
        turns = (npr - 1) * dt
        if turns > max_turns and nprofiles is None:
            continue
        # limit the number of synchrotron radians: bounds error amplification
        Qs = min(Qs, maxphase / (2 * np.pi * max(turns, 1)))
        ac = accel if accel is not None else bool(rng.integers(2))
        s = rng.uniform(-smax, smax) if ac else 0.0
        cosphi = np.sqrt(1 - s * s)
        V = Qs ** 2 * 2 * np.pi * beta ** 2 * e0 / (h * abs(eta) * abs(q) * cosphi)
        # stay away from transition over the whole record
        dE = turns * abs(q) * V * abs(s)
        if dE > 0.3 * abs(gam - gt) * m or dE > 0.2 * (e0 - m):
            s, dE = 0.0, 0.0
            V = Qs ** 2 * 2 * np.pi * beta ** 2 * e0 / (h * abs(eta) * abs(q))
        bdot = V * s / (2 * np.pi * R * rho)
        du = dual if dual is not None else bool(rng.integers(2))
        hr = float(h_ratio if h_ratio is not None else pick(rng, [2, 2, 3, 4, 1.5, 2.5]))
        v2 = phi12 = 0.0
        if du:
            v2 = V * rng.uniform(0.02, 0.5) * np.sqrt(1 - s * s) / hr
            phi12 = rng.uniform(-np.pi, np.pi)
            if abs(V * s) + v2 > 0.93 * V:
                v2 = max(0.0, 0.5 * (0.93 * V - abs(V * s)))
        T0 = 2 * np.pi * R / (beta * C)
        vd = vdot if vdot is not None else (rng.random() < 0.3)
        v1dot = v2dot = 0.0
        if vd and turns:
            v1dot = rng.uniform(-0.1, 0.25) * V / (turns * T0)
            if du:
                v2dot = rng.uniform(-0.3, 0.2) * v2 / (turns * T0)
            if s and v1dot < 0:
                v1dot = -v1dot
        nb = nbins if nbins is not None else int(pick(rng, [20, 33, 64, 100, 128, 151, 200]))
        cov = rng.uniform(*cover)
        dtbin = T0 / h * cov / nb
        mref = int(rng.integers(npr)) if (ref and rng.random() < 0.3) else 0
        bref = int(rng.integers(npr)) if (ref and rng.random() < 0.5) else 0
        if v2dot > 0.1 * v2 / (max(turns, 1) * T0) and not mref:
            v2dot, v2 = 0.5 * v2 / (turns * T0), 0.0     # switched on during the record
        kw = dict(dturns=dt, vrf1=float(V), mean_orbit_rad=R, bending_rad=rho,
                  b0=float(b0), trans_gamma=gt, rest_energy=m, nprofiles=npr,
                  nbins=nb, dtbin=float(dtbin), h_num=h, charge=q,
                  bdot=float(bdot), vrf1dot=float(v1dot), vrf2=float(v2),
                  vrf2dot=float(v2dot), h_ratio=hr, phi12=float(phi12),
                  synch_part_x=float(nb * rng.uniform(0.4, 0.6)),
                  machine_ref_frame=mref, beam_ref_frame=bref,
                  snpt=int(pick(rng, [1, 2, 3, 4])))
        info = dict(ring=name, eta=eta, Qs=Qs, sinphi=s, turns=turns, T0=T0,
                    e0=e0, beta=beta, dual=v2 > 0, cover=cov)
        return kw, info
    raise RuntimeError('generator found no machine')


def bucket_machine(rng, min_height=3, **kw):
    """A machine whose image holds a usable reconstruction area (by the model:
    at least min_height bins high in the middle).  Returns machine, kwargs,
    info."""
    from vt import refs
    kw.setdefault('smax', 0.3)
    kw.setdefault('cover', (0.4, 0.8))
    for _ in range(60):
        k, info = machine_kwargs(rng, **kw)
        m = make_machine(k)
        lim = refs.phase_space_limits(m)
        if not lim['dEbin'] > 0 or not np.isfinite(lim['dEbin']):
            continue
        up = lim['jmax_lo'] - m.nbins / 2.0
        if (up >= min_height).sum() >= max(3, m.nbins // 6):
            return m, k, info
    raise RuntimeError('generator found no machine with a reconstruction area')


def make_machine(kw, **over):
    from longitudinal_tomography.tracking.machine import Machine
    k = dict(kw)
    k.update(over)
    return Machine(**k)


def distribution(rng, machine, info, n, spread=1.0):
    """Phase and energy offsets of n particles, inside and around the bucket."""
    turn = 0
    amp = np.sqrt(abs(machine.vrf1_at_turn[turn] * machine.q / machine.drift_coef[turn]))
    u = rng.uniform(0, spread, n)
    a = rng.uniform(0, 2 * np.pi, n)
    dphi = 2.4 * u * np.cos(a)
    denergy = 1.6 * amp * u * np.sin(a)
    return dphi, denergy


def waterfall(rng, nprof, nbins, style=None):
    """Non-negative profiles of very different shapes; no profile is empty."""
    style = style if style is not None else int(rng.integers(6))
    x = np.arange(nbins)
    w = np.zeros((nprof, nbins))
    for i in range(nprof):
        c = nbins / 2 + 0.15 * nbins * np.sin(i * 0.7 + style)
        s = max(0.6, nbins * (0.08 + 0.05 * np.cos(i * 0.5)))
        w[i] = np.exp(-0.5 * ((x - c) / s) ** 2)
    if style == 1:
        w = rng.random((nprof, nbins))
    elif style == 2:      # mostly empty
        w = np.where(rng.random((nprof, nbins)) < 0.15, rng.random((nprof, nbins)), 0.0)
        w[np.arange(nprof), rng.integers(nbins, size=nprof)] = 1.0
    elif style == 3:      # parabolic
        w = np.clip(w - 0.4, 0, None)
        w[np.arange(nprof), rng.integers(nbins, size=nprof)] += 0.1
    elif style == 4:      # very different scales per profile
        w *= 10.0 ** rng.uniform(-6, 6, (nprof, 1))
    elif style == 5:      # noise with negative excursions
        w += rng.normal(0, 0.03, w.shape)
        w[:, nbins // 2] += 0.2
    if style != 5:
        w = np.clip(w, 0, None)
    if style == 0:
        w += 1e-12
    return w


# sizes at and around the thresholds at which blocking, chunking, narrow
# integers or allocation classes would change the path taken
SIZES = [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 100, 127, 128,
         129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4096, 4097]
BIG = [8191, 10000, 16385, 32767, 32769, 65535, 65536, 65537, 100001, 131073]


def lay(rng, a, ro=True):
    """The same values in another memory layout (or in the same one): Fortran
    order, every second element of a larger array, reversed twice, a part of a
    larger array, or write-protected."""
    a = np.asarray(a)
    k = int(rng.integers(7))
    if a.ndim == 0 or k <= 1:
        return a
    if k == 2:
        return np.asfortranarray(a)
    if k == 3:
        big = np.empty(a.shape[:-1] + (a.shape[-1] * 2 + 1,), a.dtype)
        big[...] = np.nan if a.dtype.kind == 'f' else 7
        big[..., 1::2] = a
        return big[..., 1::2]
    if k == 4:
        return np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    if k == 5:
        big = np.empty(tuple(s + 2 for s in a.shape), a.dtype)
        big[...] = np.nan if a.dtype.kind == 'f' else 7
        part = big[tuple(slice(1, -1) for _ in a.shape)]
        part[...] = a
        return part
    if ro:
        b = a.copy()
        b.flags.writeable = False
        return b
    return a
