"""P22: from the input to the phase-space image: the whole chain."""
import os
import re
import shutil
import subprocess
import sys
import numpy as np
from vt import gen, refs, inputs, phantom
from vt.mon import Skip
from vt.props.p15 import Fd1, drawn

RULE = """Known beams are tracked with the reference model through random machines
and written as input files (rebinned, with skipped frames and bins full of
garbage, files with appended data).  The complete run must find the beam again: overlap
with the known density, position, orientation.  The same
inputs go through the steps of the public interface one by one, through the shortcuts and through the command
line, and everything (axes, image, files written, messages) must agree with the
complete run; pedestals, scaled data, garbage in skipped parts and other
spellings of the input must not change the image.  The input files of the
repository, with their parameters varied, go the same ways.  Distinct cases differ in
machine, beam, frame settings or route."""
ASSUMPTIONS = ['recovery: at least about half a synchrotron period measured, 60 iterations, beam inside the bucket']

KINDS = {
    'phantom': ('plain', 120, 2500),
    'compose': ('plain', 120, 2500),
    'invariant': ('plain', 100, 2000),
    'shortcuts': ('plain', 80, 1500),
    'tomoscope': ('plain', 60, 1000),
    'example': ('plain', 48, 400),
    'cli': ('plain', 10, 100),
}


def write(case, d, name='in', p=None, raw=None, rng=None):
    f = os.path.join(case['scratch'], f"{name}-{case['kind']}{case['i']}.dat")
    with open(f, 'w') as o:
        o.write(inputs.text(p or d['p'], d['raw'] if raw is None else raw, rng))
    return f


def steps(path, rec=None):
    """The documented sequence of public calls."""
    from longitudinal_tomography.utils import tomo_input as tin
    from longitudinal_tomography.data import data_treatment as dt
    from longitudinal_tomography.tracking.tracking import Tracking
    from longitudinal_tomography.tracking import particles as pts
    from longitudinal_tomography.tomography.tomography import Tomography
    par, raw = tin.get_user_input(path)
    m, fr = tin.txt_input_to_machine(par)
    m.values_at_turns()
    w = fr.to_waterfall(raw)
    pr = tin.raw_data_to_profiles(w, m, fr.rebin, fr.sampling_time)
    pr.calc_profilecharge()
    if m.synch_part_x < 0:
        m.load_fitted_synch_part_x_ftn(dt.fit_synch_part_x(pr))
    rec = m.filmstart if rec is None else rec
    tr = Tracking(m)
    if m.self_field_flag:
        pr.calc_self_fields()
        tr.enable_self_fields(pr)
    x, y = tr.track(rec)
    if not m.self_field_flag:
        x, y = pts.physical_to_coords(x, y, m, tr.particles.xorigin, tr.particles.dEbin)
    x, y = pts.ready_for_tomography(x, y, m.nbins)
    to = Tomography(pr.waterfall, x, y)
    wt = to.run(niter=m.niter)
    img = refs.phase_space(x[:, rec], y[:, rec], wt, m.nbins)
    img = np.clip(img, 0, None)
    return dict(m=m, profiles=pr, xp=x, yp=y, tomo=to, weight=wt, image=img / img.sum(), rec=rec, tracker=tr,
                t=(np.arange(m.nbins) - m.synch_part_x) * m.dtbin, E=(np.arange(m.nbins) - m.synch_part_y) * m.dEbin)


def same(mon, got, s, what, tol=1e-9):
    mon.close(got[0], s['t'], what + ': time axis', rtol=1e-12, atol=1e-12 * s['m'].dtbin * s['m'].nbins)
    mon.close(got[1], s['E'], what + ': energy axis', rtol=1e-12, atol=1e-9 * s['m'].dEbin)
    mon.close(got[2], s['image'], what + ': image', rtol=1e-6, atol=tol)


def density(d, rec):
    nb = d['nb']
    h = np.histogram2d(d['x'][rec], d['y'][rec], bins=nb, range=((0, nb), (0, nb)))[0]
    return h / h.sum()


def run_phantom(case, rng, mon):
    import longitudinal_tomography.utils.tomo_run as tr
    d = phantom.make(rng, case['i'], niter=60)
    if d['info']['Qs'] * d['info']['turns'] < 0.6:
        raise Skip('short measurement')
    f = write(case, d)
    rec = d['rec']
    t, e, img = tr.run(f)
    os.remove(f)
    nb, m = d['nb'], d['m']
    mon.check(img.shape == (nb, nb) and t.shape == (nb,) and e.shape == (nb,), 'shapes')
    mon.close(img.sum(), 1.0, 'total', rtol=1e-9)
    mon.check(img.min() >= 0, 'no negative density')
    H = density(d, rec)
    l1 = np.abs(img - H).sum()
    mon.check(l1 < 1.05, 'the beam is not where it was put', distance=l1, rec=rec)
    # orientation
    for name, o in (('time', img[::-1]), ('energy', img[:, ::-1]), ('axes', img.T)):
        Ho = {'time': H[::-1], 'energy': H[:, ::-1], 'axes': H.T}[name]
        if np.abs(H - Ho).sum() > 1.6:
            mon.check(l1 < np.abs(o - H).sum(), f'{name} reversed', distance=l1)
            mon.ev('orientation_' + name)
    # physical axes
    ct, ce = (img.sum(1) * t).sum(), (img.sum(0) * e).sum()
    X, Y = d['x'][rec], d['y'][rec]
    wt, we = (X.mean() - 0.5 - m.synch_part_x) * m.dtbin, (Y.mean() - 0.5 - nb / 2) * d['dEbin']
    mon.close(ct, wt, 'mean time', rtol=0, atol=3.0 * m.dtbin)
    mon.close(ce, we, 'mean energy', rtol=0, atol=3.5 * d['dEbin'])
    mon.ev('overlap_percent', int(100 * (1 - l1 / 2)))
    mon.state('phantom', d['info']['ring'], nb, m.nprofiles, m.dturns, rec, d['r'], round(l1, 2))


def variant(case, d, rng):
    """Settings that steer the chain: fitted position, self-fields, iterations."""
    p = dict(d['p'])
    p['niter'] = int(gen.pick(rng, [1, 2, 7, 20]))
    p['snpt'] = int(rng.integers(1, 5))
    p['full'] = int(rng.random() < 0.2)
    kind = ['plain', 'fit', 'self', 'limits', 'demax'][case['i'] % 5]
    if kind == 'fit':
        p['synch_x'] = float(gen.pick(rng, [-1, -1, -0.25, -9.5]))
    elif kind == 'plain' and case['i'] % 3 == 1:
        p['niter'] = int(rng.integers(100, 140))
    elif kind == 'self':
        p.update(self=1, g=float(rng.uniform(0.5, 2)), zn=float(rng.uniform(0, 20)), pickup=1e6)
    elif kind == 'limits':
        p.update(min_bins=int(rng.integers(0, 4)) * d['r'], max_bins=int(rng.integers(0, 4)) * d['r'])
    elif kind == 'demax':
        p['demax'] = float(d['dEbin'] * d['nb'] / 2 * rng.uniform(0.8, 1.3))
    return kind, p


def attempt(fn):
    from longitudinal_tomography import exceptions as ex
    try:
        return fn(), None
    except ex.TomoException as e:
        return None, type(e).__name__
    except RuntimeError as e:
        if 'reduced to zeroes' not in str(e):
            raise
        return None, 'reduced to zeroes'


def run_compose(case, rng, mon):
    import longitudinal_tomography.utils.tomo_run as tr
    d = phantom.make(rng, case['i'] // 5, npart=3000)
    kind, p = variant(case, d, rng)
    if kind == 'plain' and case['i'] % 3 == 0:
        p['synch_x'] = 0
    f = write(case, d, p=p, rng=rng)
    rec = None if rng.random() < 0.5 else int(rng.integers(0, d['m'].nprofiles - 1))
    s, es = attempt(lambda: steps(f, rec))
    plot = case['i'] % 3 == 1
    if plot:
        import matplotlib.pyplot as plt
        plt.close('all')
    r, er = attempt(lambda: tr.run(f, reconstruct_profile=rec, **(dict(plot=True) if plot else {})))
    mon.check(es == er, 'refused alike', steps=es, run=er)
    os.remove(f)
    if plot and not er:
        mon.check(len(plt.get_fignums()) == 1, 'one figure', got=plt.get_fignums())
        drawn(mon, plt.figure(plt.get_fignums()[0]), s['image'], s['tomo'].diff, s['profiles'].waterfall[s['rec']], rtol=1e-6, atol=1e-9)
        plt.close('all')
    mon.state('compose', kind, d['info']['ring'], d['nb'], d['r'], rec, p['niter'], es)
    if es:
        raise Skip(es)
    if kind == 'self':
        mon.check(s['tracker'].self_field_flag, 'self-fields used')
        mon.ev('with_self_fields')
    same(mon, r, s, f'{kind}')


def run_invariant(case, rng, mon):
    import longitudinal_tomography.utils.tomo_run as tr
    d = phantom.make(rng, case['i'], npart=3000)
    f = write(case, d)
    t, e, img = tr.run(f)
    kind = ['scale', 'pedestal', 'garbage', 'spelling', 'separate', 'again', 'outdir', 'film', 'pickup'][case['i'] % 9]
    p, full, tol = dict(d['p']), d['full'].copy(), 1e-9
    sf, s0, s1 = p['skip_frames'], p['skip_start'], p['skip_end']
    wd = os.path.join(case['scratch'], f"wd{case['i']}")
    if kind == 'scale':
        full[sf:] = full[sf:] * 2.0 ** int(rng.integers(-6, 7))
    elif kind == 'pedestal':
        full[sf:, s0:full.shape[1] - s1] += float(2.0 ** int(rng.integers(0, 8)))
    elif kind == 'garbage':
        full[:sf] = 1e9
        full[:, :s0] = -1e6
        if s1:
            full[:, -s1:] = 777.0
    elif kind == 'outdir':
        p['outdir'] = gen.pick(rng, ['/nonexistent/elsewhere/', 'here', '.'])
    elif kind == 'film':
        p.update(last=p['frames'] - sf - 1, step=1)
    elif kind == 'pickup':
        p['pickup'] = p['pickup'] * 3.0
    raw = full.ravel()
    if kind == 'separate':
        os.makedirs(wd, exist_ok=True)
        g = os.path.join(wd, 'data.txt')
        with open(g, 'w') as o:
            o.write('\n'.join(repr(float(v)) for v in raw) + '\n')
        p['raw'] = g
        f2 = write(case, d, 'b', p=p, raw=[])
    else:
        f2 = write(case, d, 'b', p=p, raw=raw, rng=rng if kind == 'spelling' else None)
    t2, e2, img2 = tr.run(f2)
    mon.close(t2, t, f'{kind}: time axis', rtol=1e-12)
    mon.close(e2, e, f'{kind}: energy axis', rtol=1e-12)
    mon.close(img2, img, f'{kind}: image', rtol=1e-6, atol=tol)
    os.remove(f)
    os.remove(f2)
    shutil.rmtree(wd, ignore_errors=True)
    mon.state('invariant', kind, d['info']['ring'], d['nb'], d['r'])


def run_shortcuts(case, rng, mon):
    from longitudinal_tomography import shortcuts as sc
    d = phantom.make(rng, case['i'], npart=3000)
    kind, p = variant(dict(case, i=[0, 1, 3, 4][case['i'] % 4]), d, rng)
    if kind == 'plain' and case['i'] % 8 == 0:
        p['synch_x'] = 0
    f = write(case, d, p=p)
    rec = None if rng.random() < 0.4 else int(rng.integers(0, d['m'].nprofiles - 1))
    if float(p['synch_x']) >= 0:
        # a given position is taken as it is, whatever becomes of the reconstruction
        m, e = attempt(lambda: sc.read_input_file(f)[0])
        if not e:
            mon.close(m.synch_part_x, float(p['synch_x']) / int(p['rebin']), 'given synchronous position', rtol=1e-12)
    s, es = attempt(lambda: steps(f, rec))
    if es:
        os.remove(f)
        raise Skip(es)
    m, w = sc.read_input_file(f)
    os.remove(f)
    mon.close(w, s['profiles'].waterfall, 'profiles', rtol=1e-12)
    for k in ('nbins', 'dtbin', 'synch_part_x', 'nprofiles', 'dturns', 'filmstart'):
        mon.close(getattr(m, k), getattr(s['m'], k), k, rtol=1e-12)
    log = []
    x, y = sc.track(m, rec, callback=lambda a, b: log.append(a)) if rng.random() < 0.5 else (sc.track(m, rec) if rec is not None else sc.track(m))
    # a particle on the border of two bins may fall on either side
    mon.check(x.shape == s['xp'].shape, 'number of particles', got=str(x.shape), want=str(s['xp'].shape))
    mon.equal(x, s['xp'], 'positions')
    mon.equal(y, s['yp'], 'energies')
    n = m.niter
    to = sc.tomogram(w, x, y, n)
    mon.close(to.weight, s['weight'], 'weights', rtol=1e-6, atol=1e-9 * np.abs(s['weight']).max())
    mon.close(to.diff, s['tomo'].diff, 'discrepancies', rtol=1e-6, atol=1e-12)
    mon.check(len(to.diff) == n + 1, 'number of discrepancies')
    mon.state('shortcuts', kind, d['info']['ring'], d['nb'], rec, n)


def run_example(case, rng, mon):
    """The measurements that come with the repository (a part of the frames,
    other rebinning, other profiles), against the model of every stage."""
    import longitudinal_tomography.utils.tomo_run as tr
    from vt.props import p13
    where = os.path.join(os.environ.get('VT_REPO', '/repo'), '__EXAMPLES', 'input_files')
    files = sorted(os.listdir(where)) if os.path.isdir(where) else []
    if not files:
        raise Skip('no examples')
    name = files[case['i'] % len(files)]
    ls = open(os.path.join(where, name)).read().split('\n')
    old = {n: ls[k].strip() for k, n in inputs.LINES.items()}
    F, B = int(old['frames']), int(old['bins'])
    s0, s1 = int(old['skip_start']), int(old['skip_end'])
    raw = np.array([float(v) for v in ' '.join(ls[98:]).split()])
    keep = int(rng.integers(5, min(16, F)))
    skip = int(rng.integers(0, F - keep))
    reb = int(old['rebin']) * int(rng.integers(1, 3))
    rec = int(rng.integers(keep - 1))
    ref = int(rng.integers(keep))
    new = dict(old, raw='pipe', outdir='/nonexistent/out', frames=skip + keep, skip_frames=skip, rebin=reb, snpt=int(rng.integers(1, 3)),
               niter=int(gen.pick(rng, [1, 5, 12])), first=rec + 1, last=rec + 1, step=1, beam_ref=ref + 1, mach_ref=1,
               dturns=min(int(old['dturns']), 60))
    for k, n in inputs.LINES.items():
        ls[k] = str(new[n])
    f = os.path.join(case['scratch'], f"ex{case['i']}.dat")
    with open(f, 'w') as o:
        o.write('\n'.join(ls[:98]) + '\n' + '\n'.join(repr(float(v)) for v in raw[:(skip + keep) * B]) + '\n')
    s, es = attempt(lambda: steps(f))
    r, er = attempt(lambda: tr.run(f))
    os.remove(f)
    mon.check(es == er, 'refused alike', steps=es, run=er)
    mon.state('example', name, keep, skip, reb, rec, es)
    if es:
        raise Skip(es)
    same(mon, r, s, name)
    w = raw[:(skip + keep) * B].reshape(skip + keep, B)[skip:, s0:B - s1]
    prof, base = p13.expect(w, ref, reb)
    mon.close(s['profiles'].waterfall, prof, f'{name}: profiles', rtol=0, atol=1e-9 * np.abs(w).max() * reb)
    out = refs.conditioned(s['xp'], prof, int(new['niter']))
    (wt, hist, rcr), tol = out
    mon.close(s['weight'], wt, f'{name}: weights', rtol=0, atol=tol[0] + 1e-8 * wt.max())
    mon.close(s['tomo'].diff, hist, f'{name}: discrepancies', rtol=0, atol=tol[1] + 1e-10)
    mon.check(hist[-1] <= hist[0], 'the iteration approaches the data')
    mon.close(r[2].sum(), 1.0, 'total', rtol=1e-9)
    mon.check(r[2].min() >= 0 and r[2].shape == (s['m'].nbins, s['m'].nbins), 'image')
    mon.ev('measured_profiles', keep)


def numbers(path):
    return np.array([[float(v) for v in ln.split()] for ln in open(path)])


def listing(dirs):
    out = {}
    for k in dirs:
        for n in os.listdir(k):
            with open(os.path.join(k, n), 'rb') as f:
                out[os.path.join(k, n)] = f.read()
    return out


def expected_files(mon, s, where, got):
    """What the Tomoscope mode has to leave behind."""
    m = s['m']
    want = {}
    film = None
    for film in range(m.filmstart, m.filmstop + 1, m.filmstep):
        y = s['yp'][:, film]
        ok = (y >= 0) & (y < m.nbins)
        im = np.clip(refs.phase_space(s['xp'][ok, film], y[ok], s['weight'][ok], m.nbins), 0, None)
        want[f'image{film + 1:03d}.data'] = im.ravel()[:, None] / im.sum()
        want[f'profile{film + 1:03d}.data'] = s['tomo'].waterfall[film][:, None]
    want[f'd{film + 1:03d}.data'] = np.column_stack([np.arange(len(s['tomo'].diff)), s['tomo'].diff])
    names = {os.path.basename(k) for k in got}
    mon.check(names == set(want), 'files written', got=sorted(names), want=sorted(want))
    for n, v in want.items():
        mon.close(numbers(os.path.join(where, n)), v, n, rtol=1e-5, atol=1e-9 * np.abs(v).max())
    mon.ev('files', len(want))


def draw_films(p, rng, npr):
    first = int(rng.integers(1, npr - 1))
    last = int(rng.integers(first, npr + 1))
    p.update(first=first, last=last, step=int(rng.integers(1, last - first + 2)))


def messages(mon, text, s):
    """Standard output of the Tomoscope mode (Python and C++ each have their
    own buffer, so only the order within each is looked at)."""
    ls = [x.strip() for x in text.split('\n')]
    mon.check(ls.count('Start') == 1, 'start message', got=ls[:3])
    mon.check(sum('plotinfo' in x for x in ls) == 1, 'plot information')
    pos = sorted(int(g.group(2)) - 1 for g in (re.match(r'Tracking from time slice\s+(\d+) to\s+(\d+)', x) for x in ls) if g)
    rec = s['rec']
    mon.check(set(pos) >= set(range(s['m'].nprofiles)) - {rec}, 'profiles reported', got=pos, rec=rec)


def run_tomoscope(case, rng, mon):
    import longitudinal_tomography.utils.tomo_run as tr
    d = phantom.make(rng, case['i'], npart=3000)
    p = dict(d['p'])
    draw_films(p, rng, d['m'].nprofiles)
    p['niter'] = int(rng.integers(1, 15))
    a = os.path.join(case['scratch'], f"a{case['i']}")
    b = os.path.join(case['scratch'], f"b{case['i']}")
    for k in (a, b):
        os.makedirs(k)
    p['outdir'] = a + gen.pick(rng, ['', '/'])
    f = write(case, d, p=p)
    rec = None if rng.random() < 0.6 else int(rng.integers(0, d['m'].nprofiles - 1))
    s, es = attempt(lambda: steps(f, rec))
    if es:
        raise Skip(es)
    override = bool(rng.integers(2))
    where = b if override else a
    with Fd1(os.path.join(case['scratch'], f"o{case['i']}")) as cap:
        r = tr.run(f, reconstruct_profile=rec, output_dir=b if override else gen.pick(rng, [None, '']), tomoscope=True)
    same(mon, r, s, 'Tomoscope mode')
    expected_files(mon, s, where, listing([a, b]))
    mon.check(not listing([a if override else b]), 'nothing in the other directory')
    messages(mon, cap.text, s)
    for k in (a, b):
        shutil.rmtree(k)
    mon.state('tomoscope', d['info']['ring'], d['nb'], p['first'], p['last'], p['step'], override)


def run_cli(case, rng, mon):
    d = phantom.make(rng, case['i'], npart=2000)
    p = dict(d['p'])
    draw_films(p, rng, d['m'].nprofiles)
    p['niter'] = int(rng.integers(1, 8))
    out = os.path.join(case['scratch'], f"c{case['i']}")
    os.makedirs(out)
    over = bool(rng.integers(2))
    p['outdir'] = '/nonexistent/out' if over else out
    f = write(case, d, p=p)
    s, es = attempt(lambda: steps(f))
    if es:
        raise Skip(es)
    stdin = bool(case['i'] % 2)
    quiet = case['i'] % 5 == 4
    args = ['stdin' if stdin else f] + ([] if quiet else [gen.pick(rng, ['-t', '--tomoscope'])])
    if over:
        args += [gen.pick(rng, ['-o', '--output']), out]
    code = ('import sys\nsys.path.insert(0, %r)\nfrom vt import env\nenv.install(%r)\nimport runpy\n'
            'sys.argv = ["tomo"] + %r\nrunpy.run_module("longitudinal_tomography", run_name="__main__", alter_sys=False)\n'
            % (os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), case['so'], args))
    pr = subprocess.run([sys.executable, '-c', code], stdin=open(f) if stdin else subprocess.DEVNULL, text=True,
                        stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=case['scratch'], timeout=300)
    mon.check(pr.returncode == 0, 'command line', rc=pr.returncode, err=pr.stderr[-1500:])
    if quiet:
        mon.check(not os.listdir(out), 'nothing written without being asked')
    else:
        expected_files(mon, s, out, listing([out]))
        messages(mon, pr.stdout, s)
    # refused inputs end with an error
    bad = dict(p, dtbin=-1.0)
    g = write(case, d, 'bad', p=bad)
    pr = subprocess.run([sys.executable, '-c', code.replace(repr(args), repr([g]))], stdin=subprocess.DEVNULL, text=True,
                        stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=case['scratch'], timeout=300)
    mon.check(pr.returncode != 0, 'a refused input ends with an error')
    shutil.rmtree(out)
    mon.state('cli', stdin, over, quiet, d['info']['ring'])
