"""Synthetic measurements: a known beam, tracked with the reference model and
turned into an input file."""
import numpy as np
from vt import gen, refs, inputs
from vt.mon import Skip


def make(rng, i, npart=15000, r=None, niter=20, **o):
    """Returns dict(p=parameters, raw=data, m=machine, x, y=coordinates of the
    beam in bins at every profile, profiles)."""
    nb = int(gen.pick(rng, [32, 45, 60]))
    npr = int(rng.integers(10, 18))
    m, kw, info = gen.bucket_machine(rng, min_height=8, ring=i, nbins=nb, nprofiles=npr, vdot=o.pop('vdot', False),
                                     maxphase=6.0, qs=0.02, dturns=int(gen.pick(rng, [4, 5, 8])), max_turns=3000, **o)
    lim = refs.phase_space_limits(m)
    dEbin = lim['dEbin']
    r = r or int(rng.integers(1, 4))
    hw0 = m.h_num * m.omega_rev0[m.beam_ref_frame * m.dturns] * m.dtbin
    xo = m.phi0[m.beam_ref_frame * m.dturns] / hw0 - m.synch_part_x
    # the beam: one or two spots well inside the reconstruction area
    jm = lim['jmax_lo'] - nb / 2
    inside = np.where(jm > 0.3 * jm.max())[0]
    if inside.size < 6:
        raise Skip('narrow area')
    w = inside[-1] - inside[0]
    spots = int(rng.integers(1, 3))
    X, Y = [], []
    for _ in range(spots):
        cx = (inside[0] + inside[-1]) / 2 + w * rng.uniform(-0.15, 0.15)
        cy = nb / 2 + jm.max() * rng.uniform(-0.25, 0.25)
        n = npart // spots
        X.append(cx + rng.normal(0, max(0.05 * w, 0.7), n))
        Y.append(cy + rng.normal(0, max(0.1 * jm.max(), 0.7), n))
    X, Y = np.concatenate(X), np.concatenate(Y)
    d0 = m.h_num * m.omega_rev0[0] * m.dtbin
    dphi, de = (X + xo) * d0 - m.phi0[0], (Y - nb / 2) * dEbin
    nt = (npr - 1) * m.dturns
    xs, ys = refs.track(dphi, de, m.vrf1_at_turn * m.q, m.vrf2_at_turn * m.q, m.phi0, m.deltaE0, m.drift_coef, m.phi12,
                        m.h_ratio, m.dturns, 0, nt)
    om = m.omega_rev0[::m.dturns][:, None]
    x = (xs + m.phi0[::m.dturns][:, None]) / (m.h_num * om * m.dtbin) - xo
    y = ys / dEbin + nb / 2
    if not (np.all(x > 0) and np.all(x < nb) and np.all(y > 0) and np.all(y < nb)):
        raise Skip('the beam leaves the image')
    fine = np.array([np.histogram(v, bins=nb * r, range=(0, nb))[0] for v in x], float)
    sf, s0, s1 = (int(v) for v in rng.integers(0, 4, 3))
    nbr = nb * r
    full = np.zeros((npr + sf, nbr + s0 + s1))
    full[sf:, s0:s0 + nbr] = fine
    full[:sf] = rng.normal(0, 100, (sf, full.shape[1]))      # skipped frames hold anything
    if s0:
        full[:, :s0] = rng.normal(0, 100, (npr + sf, s0))
    if s1:
        full[:, -s1:] = rng.normal(0, 100, (npr + sf, s1))
    rec = int(rng.integers(0, npr - 1))
    p = dict(raw='pipe', outdir='/nonexistent/out', frames=npr + sf, skip_frames=sf, bins=nbr + s0 + s1,
             dtbin=kw['dtbin'] / r, dturns=kw['dturns'], skip_start=s0, skip_end=s1, min_bins=0, max_bins=0, rebin=r,
             synch_x=kw['synch_part_x'] * r, demax=-1e6, first=rec + 1, last=rec + 1, step=1, niter=niter, snpt=kw['snpt'], full=0,
             beam_ref=kw['beam_ref_frame'] + 1, mach_ref=kw['machine_ref_frame'] + 1,
             vrf1=kw['vrf1'], vrf1dot=kw['vrf1dot'], vrf2=kw['vrf2'], vrf2dot=kw['vrf2dot'], h=kw['h_num'],
             h_ratio=kw['h_ratio'], phi12=kw['phi12'], b0=kw['b0'], bdot=kw['bdot'], R=kw['mean_orbit_rad'],
             rho=kw['bending_rad'], gt=kw['trans_gamma'], m=kw['rest_energy'], q=kw['charge'], self=0,
             g=0.0, zn=0.0, pickup=float(10.0 ** rng.uniform(-2, 2)))
    return dict(p=p, raw=full.ravel(), full=full, fine=fine, m=m, kw=kw, info=info, x=x, y=y, rec=rec, nb=nb, r=r, dEbin=dEbin, lim=lim)
