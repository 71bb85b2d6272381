"""Input files in the documented format (98 parameter lines, then raw data)."""
import numpy as np
from vt import gen

# line index -> name
LINES = {12: 'raw', 14: 'outdir', 16: 'frames', 18: 'skip_frames', 20: 'bins', 22: 'dtbin', 24: 'dturns',
         26: 'skip_start', 28: 'skip_end', 31: 'min_bins', 34: 'max_bins', 36: 'rebin', 39: 'synch_x', 41: 'demax',
         43: 'first', 45: 'last', 47: 'step', 49: 'niter', 51: 'snpt', 53: 'full', 55: 'beam_ref', 57: 'mach_ref',
         61: 'vrf1', 63: 'vrf1dot', 65: 'vrf2', 67: 'vrf2dot', 69: 'h', 71: 'h_ratio', 73: 'phi12', 75: 'b0', 77: 'bdot',
         79: 'R', 81: 'rho', 83: 'gt', 85: 'm', 87: 'q', 91: 'self', 93: 'g', 95: 'zn', 97: 'pickup'}


def params(rng, i, nbins=None, nprofiles=None, max_turns=300, **o):
    """Returns (parameter dict, machine kwargs, info)."""
    kw, info = gen.machine_kwargs(rng, ring=i, max_turns=max_turns, nbins=nbins, nprofiles=nprofiles, **o)
    sf, s0, s1 = (int(v) for v in rng.integers(0, 5, 3))
    npr = kw['nprofiles']
    first = int(rng.integers(1, max(2, npr)))
    last = int(rng.integers(first, npr + 1)) if npr > 1 else 1
    p = dict(raw='pipe', outdir='/nonexistent/out', frames=npr + sf, skip_frames=sf, bins=kw['nbins'] + s0 + s1,
             dtbin=kw['dtbin'], dturns=kw['dturns'], skip_start=s0, skip_end=s1, min_bins=int(rng.integers(0, 4)),
             max_bins=int(rng.integers(0, 4)), rebin=int(rng.integers(1, 5)), synch_x=kw['synch_part_x'],
             demax=float(gen.pick(rng, [-1e6, -1.0, 3.5e6])), first=first, last=last,
             step=int(rng.integers(1, last - first + 2)), niter=int(rng.integers(1, 40)), snpt=kw['snpt'],
             full=int(rng.integers(2)), beam_ref=kw['beam_ref_frame'] + 1, mach_ref=kw['machine_ref_frame'] + 1,
             vrf1=kw['vrf1'], vrf1dot=kw['vrf1dot'], vrf2=kw['vrf2'], vrf2dot=kw['vrf2dot'], h=kw['h_num'],
             h_ratio=kw['h_ratio'], phi12=kw['phi12'], b0=kw['b0'], bdot=kw['bdot'], R=kw['mean_orbit_rad'],
             rho=kw['bending_rad'], gt=kw['trans_gamma'], m=kw['rest_energy'], q=kw['charge'], self=int(rng.integers(2)),
             g=float(rng.uniform(0, 3)), zn=float(rng.uniform(0, 30)), pickup=float(10.0 ** rng.uniform(-2, 2)))
    return p, kw, info


def lines(p, rng=None):
    out = []
    for i in range(98):
        if i in LINES:
            v = p[LINES[i]]
            s = v if isinstance(v, str) else repr(v)
            if rng is not None and not isinstance(v, str) and rng.random() < 0.2:
                s = ' ' + s + '  '
        else:
            s = f'! line {i + 1} = 12.5'
        out.append(s)
    return out


def text(p, raw=None, rng=None, eol='\n'):
    ls = lines(p, rng)
    if raw is not None:
        ls += [f'{v!r}' for v in (float(x) for x in raw)]
    return eol.join(ls) + eol
