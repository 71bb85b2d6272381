"""P13: from raw data to profiles: nothing lost, moved or invented."""
import numpy as np
from vt import gen, refs

E = 1.602176634e-19

RULE = """Every case draws raw data (recognisable values, noise, negative
excursions) and frame settings (skipped frames and bins on either side, none
included), rebin factors that do and do not divide the number of bins,
reference profiles and sampling times, and compares the waterfall with exact
slicing, subtracts the documented baseline, sums bins exactly, clips, and
checks bin width, synchronous position, number of bins and charge.  Relations:
rebinning in two steps, linearity, sums kept.  Inputs must be left alone.
Distinct cases differ in shape, cuts, factor or reference."""
ASSUMPTIONS = ['profiles of at least 20 bins (the baseline is the mean of the first 5 percent of the bins)',
               'rebin factors up to the number of bins']

QUICK = 4
KINDS = {
    'frames': ('plain', 400, 6000),
    'rebin': ('plain', 400, 6000),
    'profiles': ('plain', 300, 5000),
    'chain': ('plain', 150, 3000),
}


def run_frames(case, rng, mon):
    from longitudinal_tomography.utils.tomo_input import Frames
    nf = int(rng.integers(1, 40))
    nb = int(rng.integers(1, 200))
    sf = int(rng.integers(0, nf)) if rng.random() < 0.7 else 0
    s0 = int(rng.integers(0, nb)) if rng.random() < 0.7 else 0
    s1 = int(rng.integers(0, nb - s0)) if rng.random() < 0.7 else 0
    # every value says where it comes from
    raw = np.arange(nf * nb, dtype=float) + 0.25
    fr = Frames(framecount=nf, framelength=nb, skip_frames=sf, skip_bins_start=s0, skip_bins_end=s1, rebin=1, dtbin=1e-9)
    keep = raw.copy()
    src = [gen.lay(rng, raw), list(raw), tuple(raw)][case['i'] % 3]
    w = fr.to_waterfall(src)
    want = np.array([[(sf + i) * nb + s0 + j + 0.25 for j in range(nb - s0 - s1)] for i in range(nf - sf)])
    mon.equal(w, want.reshape(nf - sf, nb - s0 - s1), 'waterfall')
    mon.equal([fr.nprofs(), fr.nbins()], [nf - sf, nb - s0 - s1], 'announced shape')
    w += 5.0
    mon.equal(raw, keep, 'raw data left alone')
    fr.raw_data = raw
    got = fr.raw_data
    mon.equal(got, keep, 'stored raw data')
    got += 1
    mon.equal(fr.raw_data, keep, 'stored raw data changed by a reader')
    mon.state('frames', nf, nb, sf, s0, s1)


def run_rebin(case, rng, mon):
    from longitudinal_tomography.data import pre_process as pp, data_treatment as dt
    f = pp.rebin if case['i'] % 2 else dt.rebin
    npr = int(rng.integers(1, 12))
    r = int(rng.integers(1, 13))
    nb = int(rng.integers(r, 200))
    if case['i'] % 3 == 0:
        nb = r * int(rng.integers(1, 30))
    elif case['i'] % 9 == 1:
        r = int(rng.integers(13, 130))
        nb = r * int(rng.integers(1, 9))
    d = rng.normal(0, 1, (npr, nb)) * 10.0 ** rng.uniform(-3, 3)
    keep = d.copy()
    d = gen.lay(rng, d)
    dtb, sx = 10.0 ** rng.uniform(-10, -6), gen.pick(rng, [0.0, rng.uniform(0, nb), rng.uniform(0, nb)])
    out, dt2, sx2 = f(d, r, dtb, sx)
    want = refs.rebin(d, r)
    tol = 1e-12 * max(np.abs(d).max(), 1e-300) * nb
    mon.close(out, want, 'rebinned data', rtol=0, atol=tol)
    mon.close(dt2, dtb * r, 'bin width', rtol=1e-13)
    mon.close(sx2, sx / r, 'synchronous position', rtol=1e-13)
    mon.equal(d, keep, 'data left alone')
    two = f(d, r, dtb)
    mon.check(len(two) == 2, 'result without a synchronous position')
    mon.close(two[0], out, 'result without a synchronous position', rtol=0, atol=tol)
    mon.close(two[1], dtb * r, 'bin width', rtol=1e-13)
    mon.equal(f(d, 1, dtb)[0], d, 'factor 1')
    if nb % r == 0:
        mon.close(out.sum(axis=1), d.sum(axis=1), 'sum of a profile', rtol=0, atol=tol)
        k = int(rng.integers(1, 5))
        if (nb // r) % k == 0:
            a = f(f(d, r, dtb)[0], k, dtb)[0]
            mon.close(a, f(d, r * k, dtb)[0], 'two steps', rtol=0, atol=tol)
    else:
        c = np.full((npr, nb), 2.5)
        mon.close(f(c, r, dtb)[0], np.full((npr, nb // r + 1), 2.5 * r), 'constant data', rtol=1e-12)
    # bins do not mix between profiles
    p = int(rng.integers(npr))
    d2 = d.copy()
    d2[p] += 1.0
    o2 = f(d2, r, dtb)[0]
    other = np.arange(npr) != p
    mon.close(o2[other], out[other], 'profiles mix', rtol=0, atol=tol)
    mon.state('rebin', npr, nb, r)


def profile_setup(rng, i):
    kw, info = gen.machine_kwargs(rng, ring=i, max_turns=200, nbins=int(rng.integers(20, 200)))
    kw['pickup_sensitivity'] = 10.0 ** rng.uniform(-3, 3)
    kw['synch_part_x'] = float(rng.uniform(1, kw['nbins']))
    m = gen.make_machine(kw)
    w = gen.waterfall(rng, m.nprofiles, m.nbins) * 10.0 ** rng.uniform(-2, 4)
    w += rng.uniform(-2, 2) * np.abs(w).max() * (rng.random() < 0.7)
    return m, kw, info, w


def expect(w, ref, r):
    n = w.shape[1]
    k = n // 20
    base = sum(float(v) for v in w[ref, :k]) / k
    return np.clip(refs.rebin(w - base, r), 0, None), base


def run_profiles(case, rng, mon):
    from longitudinal_tomography.utils import tomo_input as ti
    m, kw, info, w = profile_setup(rng, case['i'])
    r = int(gen.pick(rng, [1, 1, 2, 3, 5, 7]))
    ts = kw['dtbin']
    keep = w.copy()
    w = gen.lay(rng, w)
    want, base = expect(w, m.beam_ref_frame, r)
    scale = np.abs(w).max() * r
    if want.sum() <= 1e-9 * scale:
        want = None
    from longitudinal_tomography import exceptions as ex
    if want is None:
        from vt.mon import Skip
        raise Skip('nothing above the baseline')
    explicit = case['i'] % 3 == 2
    sx = float(gen.pick(rng, [0.0, rng.uniform(0, m.nbins), float(rng.integers(m.nbins))])) if explicit else None
    P = ti.raw_data_to_profiles(w, m, r, ts, *([sx] if explicit else []))
    mon.close(P.waterfall, want, 'profiles', rtol=0, atol=1e-11 * scale)
    mon.check(P.waterfall.min() >= 0, 'negative value')
    mon.equal(w, keep, 'raw waterfall left alone')
    mon.close(m.dtbin, ts * r, 'bin width', rtol=1e-13)
    mon.close(m.synch_part_x, (sx if explicit else kw['synch_part_x']) / r, 'synchronous position', rtol=1e-13)
    nb = kw['nbins'] // r + bool(kw['nbins'] % r)
    mon.check(m.nbins == nb and m.synch_part_y == nb / 2.0, 'bins of the machine', got=(m.nbins, m.synch_part_y), want=nb)
    mon.check(P.sampling_time == ts, 'sampling time')
    P.calc_profilecharge()
    mon.close(P.profile_charge, want[m.beam_ref_frame].sum() * ts / (E * kw['pickup_sensitivity']), 'charge',
              rtol=1e-8, atol=1e-9 * scale * ts / (E * kw['pickup_sensitivity']))
    # counts of a digitiser: the same numbers held as integers
    counts = np.round((w - w.min()) / (np.ptp(w) + 1e-300) * 200)
    wantc = expect(counts, m.beam_ref_frame, r)[0]
    if wantc.sum() > 1:
        for dt in ('uint8', 'int16', 'uint16', 'int64'):
            Pc = ti.raw_data_to_profiles(counts.astype(dt), gen.make_machine(kw), r, ts)
            mon.close(Pc.waterfall, wantc, f'profiles of {dt} counts', rtol=0, atol=1e-9 * r)
        mon.ev('integer_counts')
    # an offset common to all data does not matter; a factor is carried through
    m2 = gen.make_machine(kw)
    off = rng.uniform(-3, 3) * scale
    P2 = ti.raw_data_to_profiles((w + off) * 4.0, m2, r, ts, *([sx] if explicit else []))
    mon.close(P2.waterfall, 4 * want, 'scaled and shifted data', rtol=0, atol=1e-10 * scale)
    mon.state('profiles', info['ring'], m.nprofiles, kw['nbins'], r, m.beam_ref_frame, explicit)


def run_chain(case, rng, mon):
    """Raw vector to profiles in one go; and each profile by itself."""
    from longitudinal_tomography.utils import tomo_input as ti
    m, kw, info, w = profile_setup(rng, case['i'])
    sf, s0, s1 = (int(v) for v in rng.integers(0, 6, 3))
    full = rng.normal(0, 1, (m.nprofiles + sf, m.nbins + s0 + s1))
    full[sf:, s0:s0 + m.nbins] = w
    fr = ti.Frames(framecount=full.shape[0], framelength=full.shape[1], skip_frames=sf, skip_bins_start=s0, skip_bins_end=s1,
                   rebin=1, dtbin=kw['dtbin'])
    wf = fr.to_waterfall(full.ravel())
    mon.equal(wf, w, 'waterfall')
    want, base = expect(w, m.beam_ref_frame, 1)
    if want.sum() <= 1e-9 * np.abs(w).max():
        return
    P = ti.raw_data_to_profiles(wf, m, fr.rebin, fr.sampling_time)
    mon.close(P.waterfall, want, 'profiles', rtol=0, atol=1e-11 * np.abs(w).max())
    # only the baseline couples the profiles
    k = int(rng.integers(m.nprofiles))
    if k != m.beam_ref_frame:
        w2 = w.copy()
        w2[k] = np.abs(w2[k]) + 3 * np.abs(w).max()
        m2 = gen.make_machine(kw)
        P2 = ti.raw_data_to_profiles(w2, m2, 1, kw['dtbin'])
        o = np.arange(m.nprofiles) != k
        mon.close(P2.waterfall[o], P.waterfall[o], 'other profiles changed', rtol=0, atol=1e-11 * np.abs(w).max())
    mon.state('chain', info['ring'], full.shape, sf, s0, s1)
