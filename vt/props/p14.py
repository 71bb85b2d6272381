"""P14: an input means the same machine and data however it is delivered."""
import io
import os
import sys
import numpy as np
from vt import inputs
from vt.mon import Skip

RULE = """Every case writes an input in the documented format (every parameter
different and recognisable, arbitrary comments, spaces, Unix or DOS line ends)
and delivers it as a file with the data appended, as a file that names a data
file, and through standard input with and without the data appended; machine,
frames and raw data must be exactly those written, and the same for every
route; a reader of standard input must take exactly the lines that belong to
it.  Further cases damage the input (missing files, missing or surplus data,
text among the data, missing parameters) and require the documented refusal.
Distinct cases differ in the parameters, route or damage."""
ASSUMPTIONS = []

QUICK = 5
KINDS = {
    'routes': ('plain', 150, 2500),
    'fields': ('plain', 300, 4000),
    'damage': ('plain', 200, 3000),
}


class Stdin:
    """Standard input that records what is taken from it."""

    def __init__(self, text):
        self.f, self.old, self.taken = io.StringIO(text), None, 0

    def __enter__(self):
        self.old, sys.stdin = sys.stdin, self
        return self

    def __exit__(self, *a):
        sys.stdin = self.old

    def readline(self, *a):
        s = self.f.readline(*a)
        self.taken += s.count('\n')
        return s

    def read(self, *a):
        s = self.f.read(*a)
        self.taken += s.count('\n')
        return s

    def readlines(self, *a):
        s = self.f.readlines(*a)
        self.taken += len(s)
        return s

    def __iter__(self):
        for s in self.f:
            self.taken += 1
            yield s

    def __getattr__(self, k):
        return getattr(self.f, k)


def check_machine(mon, m, fr, p, what):
    nb = p['bins'] - p['skip_start'] - p['skip_end']
    want = dict(output_dir=p['outdir'], dtbin=p['dtbin'], dturns=p['dturns'], synch_part_x=p['synch_x'], demax=p['demax'],
                filmstart=p['first'] - 1, filmstop=p['last'] - 1, filmstep=p['step'], niter=p['niter'], snpt=p['snpt'],
                full_pp_flag=bool(p['full']), beam_ref_frame=p['beam_ref'] - 1, machine_ref_frame=p['mach_ref'] - 1,
                vrf1=p['vrf1'], vrf1dot=p['vrf1dot'], vrf2=p['vrf2'], vrf2dot=p['vrf2dot'], h_num=p['h'],
                h_ratio=p['h_ratio'], phi12=p['phi12'], b0=p['b0'], bdot=p['bdot'], mean_orbit_rad=p['R'],
                bending_rad=p['rho'], trans_gamma=p['gt'], e_rest=p['m'], q=p['q'], self_field_flag=bool(p['self']),
                g_coupling=p['g'], zwall_over_n=p['zn'], pickup_sensitivity=p['pickup'],
                nprofiles=p['frames'] - p['skip_frames'], nbins=nb, synch_part_y=nb / 2.0)
    for k, v in want.items():
        mon.check(getattr(m, k) == v, f'{what}: machine.{k}', got=getattr(m, k), want=v)
    mon.close(m.min_dt, p['min_bins'] * p['dtbin'], f'{what}: min_dt', rtol=1e-12)
    mon.close(m.max_dt, (nb - p['max_bins']) * p['dtbin'], f'{what}: max_dt', rtol=1e-12)
    wf = dict(raw_data_path=p['raw'], nframes=p['frames'], skip_frames=p['skip_frames'], nbins_frame=p['bins'],
              skip_bins_start=p['skip_start'], skip_bins_end=p['skip_end'], rebin=p['rebin'], sampling_time=p['dtbin'])
    for k, v in wf.items():
        mon.check(getattr(fr, k) == v, f'{what}: frames.{k}', got=getattr(fr, k), want=v)
    mon.check(m.e0 is not None and len(m.e0) == (m.nprofiles - 1) * m.dturns + 1, f'{what}: machine is set up')


def setup(case, rng):
    p, kw, info = inputs.params(rng, case['i'], nbins=int(rng.integers(4, 40)), nprofiles=int(rng.integers(2, 12)))
    raw = rng.normal(0, 1, p['frames'] * p['bins']) * 10.0 ** rng.uniform(-3, 3)
    return p, kw, info, raw


def run_fields(case, rng, mon):
    from longitudinal_tomography.utils import tomo_input as ti
    p, kw, info, raw = setup(case, rng)
    ls = inputs.lines(p, rng)
    if case['i'] % 2:
        ls = [s + '\r\n' for s in ls]
    arr = np.array(ls) if case['i'] % 3 else list(ls)
    m, fr = ti.txt_input_to_machine(arr)
    mon.check(list(arr) == ls, 'the list of lines stays as it is')
    check_machine(mon, m, fr, p, 'parameters')
    mon.state('fields', info['ring'], p['frames'], p['bins'], p['first'], p['full'], p['self'], p['skip_frames'])


def run_routes(case, rng, mon):
    from longitudinal_tomography.utils import tomo_input as ti
    p, kw, info, raw = setup(case, rng)
    d = os.path.join(case['scratch'], f"r{case['i']}")
    os.makedirs(d)
    eol = '\r\n' if case['i'] % 4 == 3 else '\n'
    names = ['raw.dat', 'pipe_data.txt', 'pipe', 'with space.dat', 'pipeline', 'pipe.dat', 'a.pipe', 'PIPE']
    # a path from the root or, where the name cannot be mistaken, from the working directory
    name = names[case['i'] % 8]
    relative = name != 'pipe' and case['i'] // 8 % 2 == 0
    datafile = os.path.join(d, name)
    sep = [' ', '\n', '  \n'][case['i'] % 3]
    with open(datafile, 'w') as f:
        f.write(sep.join(repr(float(v)) for v in raw) + '\n')
    if sep == ' ':
        # several values in a line need a line per frame-independent layout: use one per line
        with open(datafile, 'w') as f:
            f.write('\n'.join(' %.17g ' % v for v in raw) + '\n')
    tpipe = inputs.text(p, raw, rng, eol)
    pf = dict(p, raw=name if relative else datafile)
    tfile = inputs.text(pf, None, rng, eol)

    def put(name, s):
        fn = os.path.join(d, name)
        with open(fn, 'w', newline='') as f:
            f.write(s)
        return fn
    got = {}
    here = os.getcwd()
    os.chdir(d)
    try:
        got['file with data'] = ti.get_user_input(put('a.dat', tpipe)), p
        got['file naming data'] = ti.get_user_input(put('b.dat', tfile)), pf
        rest = 'NEXT INPUT\n1\n2\n'
        with Stdin(tpipe + rest) as s:
            got['stdin with data'] = ti.get_user_input('stdin'), p
        mon.check(s.taken == 98 + len(raw), 'lines taken from standard input', got=s.taken, want=98 + len(raw))
        with Stdin(tfile + rest) as s:
            got['stdin naming data'] = ti.get_user_input(['stdin', ''][case['i'] % 2]), pf
        mon.check(s.taken == 98, 'lines taken from standard input', got=s.taken, want=98)
    finally:
        os.chdir(here)
    for what, ((par, data), pp) in got.items():
        mon.equal(data, raw, f'{what}: raw data')
        mon.check(len(par) == 98, f'{what}: parameters')
        m, fr = ti.txt_input_to_machine(par)
        check_machine(mon, m, fr, pp, what)
        w = fr.to_waterfall(data)
        mon.equal(w, raw.reshape(p['frames'], p['bins'])[p['skip_frames']:, p['skip_start']:p['bins'] - p['skip_end']],
                  f'{what}: waterfall')
    mon.ev('routes', 4)
    mon.state('routes', info['ring'], p['frames'], p['bins'], eol, name, relative)


def run_damage(case, rng, mon):
    from longitudinal_tomography.utils import tomo_input as ti
    from longitudinal_tomography import exceptions as ex
    p, kw, info, raw = setup(case, rng)
    d = os.path.join(case['scratch'], f"d{case['i']}")
    os.makedirs(d)
    fn = os.path.join(d, 'in.dat')
    how = case['i'] % 11

    def put(s, name='in.dat'):
        with open(os.path.join(d, name), 'w') as f:
            f.write(s)
        return os.path.join(d, name)
    k = int(rng.integers(1, len(raw) + 1))
    if how == 0:
        mon.raises(ex.InputError, lambda: ti.get_user_input(os.path.join(d, 'nothing.dat')), 'missing input file')
        mon.raises(ex.InputError, lambda: ti.get_user_input(d), 'a directory as input')
    elif how == 1:
        put(inputs.text(p, raw[:len(raw) - k]))
        mon.raises(ex.InputError, lambda: ti.get_user_input(fn), f'{k} values missing')
    elif how == 2:
        put(inputs.text(p, np.concatenate([raw, raw[:k]])))
        mon.raises(ex.InputError, lambda: ti.get_user_input(fn), f'{k} values too many')
    elif how == 3:
        ls = inputs.text(p, raw).split('\n')
        ls[98 + k - 1] = 'abc'
        put('\n'.join(ls))
        mon.raises(ex.InputError, lambda: ti.get_user_input(fn), 'text among the data')
    elif how == 4:
        mon.raises(FileNotFoundError, lambda: ti.get_user_input(put(inputs.text(dict(p, raw=os.path.join(d, 'no.dat'))))),
                   'missing data file')
    elif how == 5:
        df = put('\n'.join(repr(float(v)) for v in raw[:len(raw) - k]) + '\n1.0\n' * (k > 2), 'raw.dat')
        if len(raw) - k + (k > 2) == len(raw) or len(raw) - k == 0:
            raise Skip('complete')
        put(inputs.text(dict(p, raw=df)))
        mon.raises(Exception, lambda: ti.get_user_input(fn), 'data file with values missing')
    elif how == 9:
        df = put('\n'.join(repr(float(v)) for v in np.concatenate([raw, raw[:k]])) + '\n', 'raw.dat')
        put(inputs.text(dict(p, raw=df)))
        mon.raises(Exception, lambda: ti.get_user_input(fn), f'data file with {k} values too many')
    elif how == 10:
        ls = [repr(float(v)) for v in raw]
        ls[k - 1] = gen_pick(rng, ['abc', '1.2.3', '--', '1,5', '0x'])
        df = put('\n'.join(ls) + '\n', 'raw.dat')
        put(inputs.text(dict(p, raw=df)))
        mon.raises(Exception, lambda: ti.get_user_input(fn), f'text among the data of a data file ({ls[k - 1]})')
    elif how == 6:
        cut = int(rng.integers(0, 97))
        put('\n'.join(inputs.lines(p)[:cut]) + '\n')
        mon.raises(Exception, lambda: ti.get_user_input(fn), f'{cut} parameter lines')
    elif how == 7:
        ls = inputs.lines(p)
        mon.raises(ex.InputError, lambda: ti.txt_input_to_machine(ls[:-1]), '97 parameters')
        mon.raises(ex.InputError, lambda: ti.txt_input_to_machine(ls + ['1']), '99 parameters')
        mon.raises(ex.InputError, lambda: ti.txt_input_to_machine(98), 'no list')
    else:
        name = gen_pick(rng, ['frames', 'bins', 'dtbin', 'dturns', 'vrf1', 'q', 'niter', 'beam_ref'])
        ls = inputs.lines(p)
        idx = [i for i, n in inputs.LINES.items() if n == name][0]
        ls[idx] = 'x1.5'
        mon.raises(Exception, lambda: ti.txt_input_to_machine(ls), f'{name} is not a number')
        if name in ('frames', 'bins'):
            put('\n'.join(ls) + '\n' + '\n'.join(repr(float(v)) for v in raw))
            mon.raises(ex.InputError, lambda: ti.get_user_input(fn), f'{name} is not a number')
    mon.state('damage', how, p['frames'], p['bins'], k)


def gen_pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]
