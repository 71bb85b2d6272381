"""P15: what is written or shown is what was computed."""
import os
import re
import sys
import numpy as np
from vt import gen, refs

RULE = """Every case draws profiles, images, discrepancies or self-field
voltages (signs, zeros, exponents from 1e-150 to 1e150, long arrays, more than
a hundred profiles), writes them through each public writer into an empty
directory that may already hold older files of the same names, and compares the
directory afterwards byte by byte with the documented format: the right file
names, one value per line, in order, nothing else touched, inputs unchanged.
The text for the plot information, the messages on standard output of the
tracking and of the reconstruction and the data shown in the figure are
compared in the same way.  Distinct cases differ in writer, shape, index or
kind of values."""
ASSUMPTIONS = []

QUICK = 4
KINDS = {
    'files': ('plain', 300, 5000),
    'image': ('plain', 120, 2000),
    'plotinfo': ('plain', 150, 2500),
    'messages': ('plain', 120, 2000),
    'show': ('plain', 40, 500),
}


class Fd1:
    """Everything written to file descriptor 1 and to sys.stdout meanwhile."""

    def __init__(self, path):
        self.path = path

    def __enter__(self):
        sys.stdout.flush()
        self.old = os.dup(1)
        f = os.open(self.path, os.O_CREAT | os.O_TRUNC | os.O_WRONLY, 0o600)
        os.dup2(f, 1)
        os.close(f)
        return self

    def __exit__(self, *a):
        sys.stdout.flush()
        os.dup2(self.old, 1)
        os.close(self.old)
        with open(self.path) as f:
            self.text = f.read()


def values(rng, shape, i):
    v = rng.normal(0, 1, shape)
    st = i % 5
    if st == 1:
        v = v * 10.0 ** rng.uniform(-150, 150, shape)
    elif st == 2:
        v = np.where(rng.random(shape) < 0.5, 0.0, v)
    elif st == 3:
        v = np.round(v * 1e7) / 1e7 * 10.0 ** rng.integers(-5, 5)
    elif st == 4:
        v = rng.integers(-5, 50, shape).astype(float)
    return v


def sci(x):
    return '%.7E' % x


def setup_dir(case, rng, names):
    d = os.path.join(case['scratch'], f"{case['kind']}{case['i']}")
    os.makedirs(d)
    old = {}
    for n in ['keep.txt'] + list(names):
        if n == 'keep.txt' or rng.random() < 0.5:
            old[n] = 'old contents\n' * int(rng.integers(1, 4000))
            with open(os.path.join(d, n), 'w') as f:
                f.write(old[n])
    return d, old


def check_dir(mon, d, old, want, what):
    """Only the wanted files are new or changed, and they are exact."""
    have = sorted(os.listdir(d))
    mon.check(have == sorted(set(old) | set(want)), f'{what}: files', got=str(have), want=str(sorted(set(old) | set(want))))
    for n in have:
        with open(os.path.join(d, n)) as f:
            got = f.read()
        exp = want.get(n, old.get(n))
        if got != exp:
            a, b = got.split('\n'), exp.split('\n')
            k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            mon.fail(f'{what}: contents of {n}', line=k, got=repr(a[k:k + 2]), want=repr(b[k:k + 2]), lines=f'{len(a)} {len(b)}')
        mon.ev('files')
    mon.ev('checks')


def run_files(case, rng, mon):
    from longitudinal_tomography.compat import fortran as ftn, tomoscope as tsc
    from longitudinal_tomography.utils import tomo_output as out
    i = case['i']
    nprof, nb = int(gen.pick(rng, [1, 2, 9, 40, 130])), int(gen.pick(rng, [1, 2, 9, 10, 11, 60, 100, 205]))
    v = values(rng, (nprof, nb), i)
    rec = int(rng.integers(nprof))
    num = '%03d' % (rec + 1)
    d1 = values(rng, int(gen.pick(rng, [1, 2, 10, 11, 21, 100, 101, 150])), i)
    how = i % 9
    names = {0: 'profile', 1: 'profile', 2: 'image', 3: 'image', 4: 'd', 5: 'd', 6: 'd', 7: 'profile'}
    name = 'vself.data' if how == 8 else names[how] + num + '.data'
    d, old = setup_dir(case, rng, [name])
    kv, kd = v.copy(), d1.copy()
    if how == 0:
        ftn.save_profile(v, rec, d)
        text = ''.join(f' {sci(x)}\n' for x in v[rec])
    elif how == 1:
        out.save_profile_ftn(v, rec, output_dir=d)
        text = ''.join(f' {sci(x)}\n' for x in v[rec])
    elif how in (2, 3):
        (ftn.save_phase_space if how == 2 else out.save_phase_space_ftn)(v, rec, d)
        text = ''.join(f'  {sci(x)}\n' for x in v.flatten())
    elif how in (4, 5):
        (ftn.save_difference if how == 4 else out.save_difference_ftn)(d1, d, rec)
        text = ''.join('         %3d  %s\n' % (k, sci(x)) for k, x in enumerate(d1))
    elif how == 6:
        tsc.save_difference(d1, d, rec)
        text = ''.join(('           ' if k < 10 else '          ') + '%d  %s\n' % (k, sci(x)) for k, x in enumerate(d1))
    elif how == 7:
        tsc.save_profile(v[rec], rec, d)
        text = ''.join(f' {sci(x)}\n' for x in v[rec])
    else:
        (ftn.save_self_volt_profile if i % 2 else out.save_self_volt_profile_ftn)(v, d)
        text = ''.join(f' {sci(x)}\n' for x in v.flatten())
    check_dir(mon, d, old, {name: text}, f'writer {how}')
    mon.equal(v, kv, 'values are left alone')
    mon.equal(d1, kd, 'discrepancies are left alone')
    mon.state('files', how, nprof, nb, rec, len(d1), i % 5)


def run_image(case, rng, mon):
    """Images made from particles and written in tomoscope mode."""
    from longitudinal_tomography.compat import tomoscope as tsc
    from longitudinal_tomography.utils import tomo_output as out
    n, nprof, nb = int(gen.pick(rng, gen.SIZES[:22])), int(gen.pick(rng, [1, 2, 7])), int(gen.pick(rng, [2, 5, 16, 33]))
    xp = rng.integers(nb, size=(n, nprof))
    yp = rng.integers(nb, size=(n, nprof))
    if case['i'] % 2:
        xp, yp = xp.astype(np.int32), yp.astype(np.int32)
    w = rng.random(n) + 0.1
    if case['i'] % 3 == 0:
        w[rng.random(n) < 0.2] *= -0.01
        w[0] = 1.0
    film = int(rng.integers(nprof))
    keep = xp.copy(), yp.copy(), w.copy()
    im = np.zeros((nb, nb))
    np.add.at(im, (xp[:, film], yp[:, film]), w)
    im = np.clip(im, 0, None)
    im = im / im.sum()
    got = out.create_phase_space_image(xp, yp, w, nb, film)
    mon.close(got, im, 'image of the particles', rtol=1e-9, atol=1e-15)
    name = 'image%03d.data' % (film + 1)
    d, old = setup_dir(case, rng, [name])
    tsc.save_image(xp, yp, w, nb, film, d)
    check_dir(mon, d, old, {name: ''.join(f'  {sci(x)}\n' for x in np.asarray(got).flatten())}, 'saved image')
    back = np.loadtxt(os.path.join(d, name)).reshape(nb, nb)
    mon.close(back, im, 'file read back', rtol=1e-7, atol=1e-15)
    for a, b in zip(keep, (xp, yp, w)):
        mon.equal(b, a, 'inputs are left alone')
    mon.state('image', n, nprof, nb, film)


def run_plotinfo(case, rng, mon):
    from longitudinal_tomography.compat import fortran as ftn
    from longitudinal_tomography.utils import tomo_output as out
    from longitudinal_tomography import exceptions as ex
    from longitudinal_tomography.tracking.particles import Particles
    m, kw, info = gen.bucket_machine(rng, max_turns=400)
    m.filmstart = int(rng.integers(m.nprofiles))
    m.filmstop = m.nprofiles - 1
    m.values_at_turns()
    p = Particles()
    if case['i'] % 3 == 0:
        m.beam_ref_frame = m.filmstart
        p.homogeneous_distribution(m, m.filmstart)
    else:
        p.dEbin, p.imin, p.imax = float(10.0 ** rng.uniform(1, 6)), int(rng.integers(50)), int(rng.integers(50, 200))
    charge = float(10.0 ** rng.uniform(5, 13))
    fit = case['i'] % 2
    if fit:
        vals = rng.uniform(0, 150, 3)
        if rng.random() < 0.3:
            vals[int(rng.integers(3))] = 0.0    # a fit that touches the edge is still a fit
        m.load_fitted_synch_part_x_ftn(tuple(float(v) for v in vals))
        mon.check(m.synch_part_x == vals[0], 'the fit sets the synchronous position')
        want_fit = (vals[1], vals[2], vals[0])
    else:
        want_fit = (0.0, 0.0, 0.0)
    s = (ftn.write_plotinfo if case['i'] % 4 < 2 else out.write_plotinfo_ftn)(m, p, charge)
    mon.check(isinstance(s, str), 'text')
    rec = m.filmstart
    phi = m.phi0[rec * m.dturns]
    want = [' plotinfo.data',
            'Number of profiles used in each reconstruction,', f' profilecount = {m.nprofiles}',
            'Width (in pixels) of each image = length (in bins) of each profile,', f' profilelength = {m.nbins}',
            'Width (in s) of each pixel = width of each profile bin,', ' dtbin = %.4E' % m.dtbin,
            'Height (in eV) of each pixel,', ' dEbin = %.4E' % p.dEbin,
            'Number of elementary charges in each image,', ' eperimage = %.3E' % charge,
            'Position (in pixels) of the reference synchronous point:', ' xat0 =  %.3f' % m.synch_part_x,
            ' yat0 =  %.3f' % (m.nbins / 2.0),
            'Foot tangent fit results (in bins):', ' tangentfootl =    %.3f' % want_fit[0],
            ' tangentfootu =    %.3f' % want_fit[1], ' fit xat0 =   %.3f' % want_fit[2],
            'Synchronous phase (in radians):', ' phi0( %d) = %.4f' % (rec + 1, phi),
            'Horizontal range (in pixels) of the region in phase space of map elements:',
            ' imin( %d) =   %d and imax( %d) =  %d' % (rec + 1, p.imin, rec + 1, p.imax)]
    got = s.split('\n')
    for k, (a, b) in enumerate(zip(got, want)):
        mon.check(a.strip() == b.strip() and re.split(r'\s+', a) == re.split(r'\s+', b), f'line {k}', got=a, want=b)
    mon.check(len(got) == len(want), 'number of lines', got=len(got), want=len(want))
    q = Particles()
    mon.raises(ex.EnergyBinningError, lambda: ftn.write_plotinfo(m, q, charge), 'without energy bins')
    q.dEbin = 1.0
    mon.raises(ex.PhaseLimitsError, lambda: ftn.write_plotinfo(m, q, charge), 'without limits')
    mon.state('plotinfo', info['ring'], m.nprofiles, rec, fit, case['i'] % 3)


def run_messages(case, rng, mon):
    """Fortran-style progress on standard output."""
    from longitudinal_tomography.tracking.tracking import Tracking
    from longitudinal_tomography.tomography.tomography import Tomography
    from longitudinal_tomography.cpp_routines import libtomo
    from longitudinal_tomography.compat import fortran as ftn
    from longitudinal_tomography.utils import tomo_output as out
    f = os.path.join(case['scratch'], f"m{case['i']}")
    how = case['i'] % 3

    def line(a, b):
        return f' Tracking from time slice  {a + 1} to  {b + 1},   0.000% went outside the image width.'
    if how == 0:
        kw, info = gen.machine_kwargs(rng, nprofiles=int(rng.integers(2, 15)), nbins=40)
        m = gen.make_machine(kw)
        m.values_at_turns()
        rec = int(rng.integers(m.nprofiles - 1))
        n = int(gen.pick(rng, [1, 5, 70]))
        d = gen.distribution(rng, m, info, n)
        charge = 1.5e10
        quiet = case['i'] % 2
        with Fd1(f) as cap:
            t = Tracking(m)
            if not quiet:
                t.enable_fortran_output(charge)
            t.track(rec, init_distr=d)
        got = [s for s in cap.text.split('\n') if s]
        want = [] if quiet else [line(rec, p) for p in range(rec + 1, m.nprofiles)] + [line(rec, p) for p in range(rec - 1, -1, -1)]
        tr = [s for s in got if 'Tracking from' in s]
        mon.check(tr == want, 'messages of the tracking', got=str(tr[:3]), want=str(want[:3]), n=f'{len(tr)} {len(want)}')
        if quiet:
            mon.check(not got, 'silent without the Fortran output', got=str(got[:2]))
        mon.ev('messages', len(got))
        if case['i'] % 4 == 1:
            # the routine itself says nothing unless asked
            f4 = np.float32 if case['i'] % 8 == 1 else np.float64
            nt = m.dturns * (m.nprofiles - 1)
            x, y = np.zeros((m.nprofiles, n), f4), np.zeros((m.nprofiles, n), f4)
            a = [np.asarray(z, f4) for z in (m.vrf1_at_turn, m.vrf2_at_turn, m.phi0, m.deltaE0, m.drift_coef)]
            p12 = 0.0 if rng.random() < 0.5 else np.zeros(nt + 1, f4)
            ask = bool(case['i'] % 16 < 8)
            with Fd1(f) as cap:
                libtomo.kick_and_drift(x, y, np.array(d[1], f4), np.array(d[0], f4), *a, p12, m.h_ratio, m.dturns, rec, 0, nt, n,
                                       *([True] if ask else []))
            got = [s for s in cap.text.split('\n') if s]
            want = [line(rec, p) for p in range(rec + 1, m.nprofiles)] + [line(rec, p) for p in range(rec - 1, -1, -1)]
            mon.check(got == (want if ask else []), 'messages of the tracking routine', got=str(got[:3]), n=len(got), asked=ask)
        mon.state('track', m.nprofiles, rec, quiet, m.dturns)
    elif how == 1:
        n, nprof, nb = int(rng.integers(5, 200)), int(rng.integers(1, 6)), int(rng.integers(3, 20))
        xp = rng.integers(nb, size=(n, nprof)).astype(np.int32)
        wf = refs.normalise(refs.project(xp, 0.1 + rng.random(n), nprof, nb))
        niter = int(gen.pick(rng, [1, 2, 9, 10, 25]))
        verbose = bool(case['i'] % 2)
        from longitudinal_tomography.tomography.tomography_multibunch import Tomography as Multi
        import contextlib
        import io
        route = int(rng.integers(6))
        one = np.zeros(1, np.int32), np.array([nb], np.int32)
        vb = {'verbose': verbose} if verbose or rng.random() < 0.5 else {}
        text = io.StringIO()
        with Fd1(f) as cap, contextlib.redirect_stdout(text):
            if route == 0:
                libtomo.reconstruct_multi(xp, wf, one[0], one[1], one[0], niter, nb, n, nprof, 1, **vb)
            elif route == 1:
                Multi(wf, xp).run(one[0], one[0], one[1], niter=niter, **vb)
            elif route == 2:
                Multi(wf, xp).run_hybrid([0], [(-1, nb)], niter=niter, **vb)
            elif route == 3:
                Tomography(wf, xp).run_hybrid(niter=niter, **vb)
            elif case['i'] % 4 < 2:
                libtomo.reconstruct(xp, wf, niter, nb, n, nprof, **vb)
            else:
                Tomography(wf, xp).run(niter=niter, **vb)
        want = (' Iterating...' + ''.join('%3d' % (k + 1) for k in range(niter)) + ' Done!') if verbose else ''
        got = re.sub(r'\s+', ' ', cap.text + text.getvalue()).strip()
        mon.check(got == re.sub(r'\s+', ' ', want).strip(), 'messages of the reconstruction', got=cap.text[:200], want=want[:200])
        mon.ev('messages', niter if verbose else 1)
        mon.state('reconstruct', niter, verbose, n, nprof, route)
    else:
        a, b = int(rng.integers(200)), int(rng.integers(200))
        with Fd1(f) as cap:
            import io
            old, sys.stdout = sys.stdout, io.StringIO()
            try:
                (ftn.print_tracking_status if case['i'] % 2 else out.print_tracking_status_ftn)(a, b)
                got = sys.stdout.getvalue()
            finally:
                sys.stdout = old
        mon.check(got == line(a, b) + '\n', 'tracking status', got=got, want=line(a, b))
        mon.ev('messages')
        mon.state('status', a, b)


def drawn(mon, fig, im, diff, prof, rtol=1e-9, atol=1e-14):
    """What a figure of a reconstruction has to show."""
    nb = im.shape[0]
    imgs = [(ax, i) for ax in fig.axes for i in ax.images]
    mon.check(len(imgs) == 1, 'one image')
    ax, i = imgs[0]
    mon.close(np.asarray(i.get_array()), im.T, 'shown image', rtol=rtol, atol=atol)
    # the first index is the horizontal one, whichever way the axes run
    ext, org = i.get_extent(), i.origin
    mon.check(org == 'lower' and ext[1] > ext[0], 'orientation', got=str((org, ext)))
    lines = {}
    for a in fig.axes:
        for ln in a.lines:
            lines.setdefault(id(a), []).append(ln)
    sets = list(lines.values())
    found = {'proj_t': False, 'proj_e': False, 'meas': False, 'diff': False}
    for ls in sets:
        for ln in ls:
            x, y = np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)

            def eq(a, b):
                return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol)
            idx = np.arange(nb)
            if eq(x, idx) and eq(y, im.sum(axis=1)):
                found['proj_t'] = True
            if eq(x, idx) and eq(y, prof / prof.sum()):
                found['meas'] = True
            if eq(y, idx) and eq(x, im.sum(axis=0)):
                found['proj_e'] = True
            if eq(y, diff) and eq(x, np.arange(len(diff))):
                found['diff'] = True
    mon.check(all(found.values()), 'curves shown', got=str(found))
    mon.ev('curves', 4)


def run_show(case, rng, mon):
    from longitudinal_tomography.utils import tomo_output as out
    import matplotlib.pyplot as plt
    nb = int(gen.pick(rng, [2, 5, 20, 33]))
    im = rng.random((nb, nb)) * np.linspace(0, 1, nb)[:, None]
    im /= im.sum()
    diff = rng.random(int(rng.integers(1, 30)))
    prof = rng.random(nb) * 10.0 ** rng.uniform(-3, 9)
    keep = im.copy(), diff.copy(), prof.copy()
    if case['i'] % 3:
        fig = plt.figure()
        out.show(im, diff, prof, fig)
    else:
        before = set(plt.get_fignums())
        out.show(im, diff, prof)
        new = set(plt.get_fignums()) - before
        mon.check(len(new) == 1, 'one new figure', n=len(new))
        fig = plt.figure(new.pop())
    try:
        drawn(mon, fig, im, diff, prof)
    finally:
        plt.close(fig)
    for a, b in zip(keep, (im, diff, prof)):
        mon.equal(b, a, 'inputs are left alone')
    mon.state('show', nb, len(diff), case['i'] % 3 > 0)
