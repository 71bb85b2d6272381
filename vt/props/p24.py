"""P24: cutting waterfalls and dropping empty profiles."""
import numpy as np
from vt import gen
from vt.mon import Skip

RULE = """Every case draws a waterfall (one bunch or several, with noise, steps or
bunches at the borders; array, list of profiles or other memory order) and asks for
cuts, cuts it, and drops empty profiles.  The proposed cuts must enclose every change above
the threshold by exactly the margin (or end at the border); cutting must return
exactly the asked bins, count negative right edges from the end and refuse everything
else; the filter must keep exactly the profiles with beam, in order, normalised by the total, and take
the same columns out of the coordinates.  Distinct cases differ in shape, content, margin,
edges or pattern of empty profiles."""
ASSUMPTIONS = ['the limit of the cut to the right may include one bin more than the margin', 'profiles with beam differ by at most 10% in charge; empty ones hold less than a thousandth of it']

QUICK = 5
KINDS = {
    'cuts': ('plain', 500, 9000),
    'cut': ('plain', 400, 7000),
    'filter': ('plain', 500, 9000),
    'together': ('plain', 150, 2500),
}


def beam(rng, npr, nb):
    kind = gen.pick(rng, ['gauss', 'two', 'step', 'left', 'right', 'spike', 'sine'])
    x = np.arange(nb)
    w = np.zeros((npr, nb))
    c = nb * rng.uniform(0.2, 0.8)
    s = rng.uniform(1.0, max(1.5, nb / 6))
    for i in range(npr):
        ci = c + 0.03 * nb * np.sin(i * 0.8)
        if kind == 'gauss':
            w[i] = np.exp(-0.5 * ((x - ci) / s) ** 2)
        elif kind == 'two':
            w[i] = np.exp(-0.5 * ((x - 0.3 * nb) / s) ** 2) + np.exp(-0.5 * ((x - 0.75 * nb) / s) ** 2)
        elif kind == 'step':
            w[i] = (x > ci) & (x < ci + s + 2)
        elif kind == 'left':
            w[i] = np.exp(-x / s)
        elif kind == 'right':
            w[i] = np.exp(-(nb - 1 - x) / s)
        elif kind == 'spike':
            w[i, int(c)] = 1 + 0.01 * i
        else:
            w[i] = np.sin(x * 0.3 + i)
    if rng.random() < 0.3:
        w = w + rng.normal(0, 0.003, w.shape)
    return kind, w * 10.0 ** rng.uniform(-5, 8)


def form(rng, w):
    """The same data as array, list, tuple or in another memory order."""
    f = gen.pick(rng, ['array', 'list', 'tuple', 'rows', 'fortran', 'strided'])
    if f == 'list':
        return f, w.tolist()
    if f == 'tuple':
        return f, tuple(map(tuple, w))
    if f == 'rows':
        return f, [r.copy() for r in w]
    if f == 'fortran':
        return f, np.asfortranarray(w)
    if f == 'strided':
        b = np.full((w.shape[0], w.shape[1] * 2), np.nan)
        b[:, ::2] = w
        return f, b[:, ::2]
    return f, w


def run_cuts(case, rng, mon):
    from longitudinal_tomography.data import pre_process as pp
    npr, nb = int(rng.integers(1, 12)), int(gen.pick(rng, [2, 3, 5, 12, 40, 41, 100, 257, 400]))
    kind, w = beam(rng, npr, nb)
    exact = case['i'] % 5 == 0
    if exact:        # whole numbers: changes can be compared exactly
        kind, w = 'whole', np.where(rng.random((npr, nb)) < 0.3, rng.integers(0, 4, (npr, nb)), 0).astype(float)
        if nb > 4:
            w[:, :int(rng.integers(nb // 2))] = 0
            w[:, nb - int(rng.integers(nb // 2)):] = 0
    f, given = form(rng, w)
    margin = int(gen.pick(rng, [0, 1, 2, 5, 20, 20, 60, 1000]))
    d = np.zeros(nb - 1)
    for r in w:
        d += np.abs(np.diff(r))
    quiet = d.min() == 0
    d -= d.min()
    thr = None
    t = 0.3 * d.max()
    if rng.random() < 0.4:
        thr = float(d.max() * rng.uniform(0, 1.2))
        t = thr
    if exact and rng.random() < 0.7:
        thr = t = gen.pick(rng, [0, 0.0, float(rng.integers(0, max(2, d.max() + 1)))])
    elif np.min(np.abs(d - t)) <= 1e-9 * max(d.max(), 1e-300):
        raise Skip('a change on the threshold')
    kw = {}
    if thr is not None:
        kw['threshold'] = thr
    if margin != 20 or rng.random() < 0.5:
        kw['margin'] = margin
    w0 = w.copy()
    left, right = pp.get_cuts(given, **kw)
    mon.equal(w, w0, 'data after asking for cuts')
    mon.check(isinstance(left, int) and isinstance(right, int), 'cuts are integers', got=str((type(left), type(right))))
    mon.check(0 <= left < right <= nb, 'cuts inside of the waterfall', left=left, right=right, n=nb)
    act = np.where(d > t)[0]
    if act.size == 0:
        mon.check((left, right) == (0, nb), 'nothing above the threshold: all of it', left=left, right=right, n=nb)
        mon.ev('nothing_active')
    else:
        a, b = int(act[0]), int(act[-1]) + 1           # bins of the first and the last change
        mon.check(left == max(0, a - margin), 'left cut', left=left, first=a, margin=margin)
        want = min(nb, b + 1 + margin)
        mon.check(want <= right <= min(nb, want + 1) or (right == nb and nb - (b + 2) <= margin), 'right cut', right=right, last=b, margin=margin, n=nb)
        mon.ev('interior_cuts', left > 0 and right < nb)
        # what is cut away holds no change above the threshold
        mon.check(not np.any(d[:max(left - 1, 0)] > t) and not np.any(d[right:] > t), 'cut-away part holds beam')
    if exact:        # digitised data: any integer type, on any pedestal
        for dt, up in (('uint8', 250), ('int8', -128), ('int8', 120), ('uint16', 65000), ('int16', -32768), ('int32', 2 ** 30),
                       ('uint32', 2 ** 32 - 8), ('int64', 2 ** 44 + 1)):
            l2, r2 = pp.get_cuts((w.astype('int64') + up).astype(dt), **kw)
            mon.check((l2, r2) == (left, right), 'cuts of integers', type=dt, pedestal=up, got=str((l2, r2)), want=str((left, right)))
    # usable as they are
    c = pp.cut_waterfall(given, left, right)
    mon.equal(c, w[:, left:right], 'waterfall cut as proposed')
    # relations
    if thr is None:
        mon.equal(np.array(pp.get_cuts(w * 4.0, **kw)), np.array([left, right]), 'cuts of scaled data')
        k = int(rng.integers(1, 30))
        if left > 0 and right < nb:
            pad = np.hstack([np.repeat(w[:, :1], k, 1), w, np.repeat(w[:, -1:], k, 1)])
            if quiet:
                l2, r2 = pp.get_cuts(pad, **kw)
                mon.check((l2, r2) == (left + k, right + k), 'cuts of data with quiet bins added', got=str((l2, r2)), want=str((left + k, right + k)))
                mon.ev('padded')
    mon.state('cuts', kind, f, nb, margin, thr is None, left > 0, right < nb)


def run_cut(case, rng, mon):
    from longitudinal_tomography.data import pre_process as pp
    npr, nb = int(rng.integers(1, 9)), int(gen.pick(rng, [1, 2, 3, 7, 20, 64]))
    w = rng.normal(size=(npr, nb))
    f, given = form(rng, w)
    w0 = w.copy()
    pool = [0, 1, nb - 1, nb, nb + 1, -1, -nb, -nb - 1, nb // 2, -(nb // 2), int(rng.integers(-nb - 3, nb + 4))]
    for _ in range(12):
        l, r = int(gen.pick(rng, pool)), int(gen.pick(rng, pool))
        end = r if r >= 0 else nb + r
        ok = 0 <= l < end and -nb <= r <= nb
        if ok:
            got = pp.cut_waterfall(given, l, r)
            mon.check(isinstance(got, np.ndarray), 'cut is an array', got=str(type(got)))
            mon.equal(got, w0[:, l:end], f'cut')
            mon.ev('cut_negative' if r < 0 else 'cut')
            if r < 0:
                mon.equal(pp.cut_waterfall(given, l, end), got, 'the same edge counted from the left')
        else:
            mon.raises(ValueError, lambda: pp.cut_waterfall(given, l, r), f'cut {l}:{r} of {nb} bins')
        mon.state('cut', nb, l, r, f)
    mon.equal(w, w0, 'data after cutting')
    # cutting in steps is cutting once
    if nb >= 7:
        a, b = 1, nb - 1
        c, d = 1, b - a - 1
        mon.equal(pp.cut_waterfall(pp.cut_waterfall(given, a, b), c, d), w[:, a + c:a + d], 'two cuts')


def frames(rng, npr, nb):
    """Waterfall and the pattern of profiles with beam."""
    pat = gen.pick(rng, ['none', 'leading', 'leading', 'trailing', 'any', 'single'])
    good = np.ones(npr, bool)
    k = int(rng.integers(1, max(2, int(npr * 0.6))))
    if pat == 'leading':
        good[:k] = False
    elif pat == 'trailing':
        good[-k:] = False
    elif pat == 'any':
        good[rng.permutation(npr)[:k]] = False
    elif pat == 'single':
        good[rng.integers(npr)] = False
    w = rng.random((npr, nb)) + 0.01
    w /= w.sum(1, keepdims=True)
    w *= rng.uniform(0.95, 1.05, (npr, 1))
    n = int((~good).sum())
    noise = rng.normal(0, 1, (n, nb))
    noise -= noise.mean(1, keepdims=True)
    w[~good] = noise / nb * 0.2 + rng.uniform(0, 1e-3 / npr, (n, 1)) / nb
    return pat, good, w * 10.0 ** rng.uniform(-6, 6)


def run_filter(case, rng, mon):
    from longitudinal_tomography.data import pre_process as pp
    npr, nb = int(rng.integers(4, 40)), int(gen.pick(rng, [3, 10, 50, 200]))
    pat, good, w = frames(rng, npr, nb)
    n = int(rng.integers(1, 50))
    xp, yp = rng.integers(0, nb, (n, npr)), rng.integers(0, nb, (n, npr))
    if rng.random() < 0.3:
        xp, yp = rng.uniform(0, nb, (n, npr)), rng.uniform(0, nb, (n, npr))
    w0, x0, y0 = w.copy(), xp.copy(), yp.copy()
    removed = int((~good).sum())
    want = w[good] / w.sum()
    rec = int(rng.integers(npr))
    if pat in ('leading',) and rng.random() < 0.7:
        rec = int(rng.integers(removed, npr))
    for coords in (False, True):
        for r in (None, rec):
            a = (w, xp, yp) if coords else (w,)
            k = {} if r is None else dict(rec_prof=r)
            if r is not None and r < removed:
                mon.raises(ValueError, lambda: pp.filter_profiles(*a, **k), 'profile would become negative')
                continue
            out = pp.filter_profiles(*a, **k)
            mon.check(len(out) == 1 + 2 * coords + (r is not None), 'number of results', got=len(out))
            mon.close(out[0], want, 'profiles with beam', rtol=1e-9, atol=1e-15)
            if coords:
                mon.equal(out[1], x0[:, good], 'x of the profiles with beam')
                mon.equal(out[2], y0[:, good], 'y of the profiles with beam')
            if r is not None:
                mon.check(out[-1] == r - removed, 'moved profile', got=out[-1], want=r - removed)
                if pat == 'leading':
                    mon.close(out[0][out[-1]], w0[r] / w0.sum(), 'the moved profile is the same one', rtol=1e-9, atol=1e-15)
                    mon.ev('leading_moved')
    mon.equal(w, w0, 'profiles after the filter')
    mon.equal(xp, x0, 'x after the filter')
    mon.equal(yp, y0, 'y after the filter')
    mon.raises(ValueError, lambda: pp.filter_profiles(w, xp), 'x without y')
    mon.raises(ValueError, lambda: pp.filter_profiles(w, None, yp), 'y without x')
    mon.ev('removed', removed)
    mon.state('filter', pat, npr, nb, removed, rec)


def run_together(case, rng, mon):
    """Find the cuts, cut, drop empty profiles: what is left is exactly the
    part of the record with beam."""
    from longitudinal_tomography.data import pre_process as pp
    npr, core = int(rng.integers(4, 25)), int(rng.integers(8, 60))
    pat, good, w = frames(rng, npr, core)
    w = np.where(good[:, None], w, 0)
    a, b = int(rng.integers(0, 60)), int(rng.integers(0, 60))
    full = np.hstack([np.zeros((npr, a)), w, np.zeros((npr, b))])
    margin = int(gen.pick(rng, [0, 3, 20]))
    l, r = pp.get_cuts(full, margin=margin)
    c = pp.cut_waterfall(full, l, r)
    lost = full.sum() - c.sum()
    mon.check(abs(lost) < 1e-9 * full.sum() or margin < 2, 'cut loses beam', lost=lost / full.sum())
    out = pp.filter_profiles(c)[0]
    mon.check(out.shape[0] == good.sum(), 'profiles left', got=out.shape[0], want=int(good.sum()))
    mon.close(out.sum(), 1.0, 'total after the filter', rtol=1e-9)
    mon.close(out * c.sum(), full[good][:, l:r], 'what is left', rtol=1e-9, atol=1e-12 * w.max())
    mon.ev('chains')
    mon.state('together', pat, a > 20, b > 20, margin)
