"""Wrappers that make a function wrong under one condition (mutation campaign)."""
import functools
import numpy as np


def arrays(a, k):
    for v in list(a) + list(k.values()):
        if isinstance(v, np.ndarray):
            yield v
        elif isinstance(v, (list, tuple)):
            for u in v:
                if isinstance(u, np.ndarray):
                    yield u


def hurt_array(x):
    if x.size and x.dtype.kind in 'fiu' and x.flags.writeable:
        i = np.unravel_index(x.size - 1, x.shape)
        # the last element that is not zero
        nz = np.flatnonzero(x)
        if len(nz):
            i = np.unravel_index(nz[-1], x.shape)
        x[i] = x[i] * 1.01 + (x.dtype.kind != 'f')
        return True
    return False


def hurt(r):
    if isinstance(r, np.ndarray) and r.ndim:
        r = r.copy()
        hurt_array(r)
        return r
    if isinstance(r, (float, np.floating)):
        return type(r)(r * 1.01)
    if isinstance(r, (tuple, list)):
        out = list(r)
        for i, v in enumerate(out):
            if isinstance(v, (np.ndarray, float, np.floating)):
                out[i] = hurt(v)
                return type(r)(out) if type(r) in (tuple, list) else r
        return r
    if isinstance(r, dict):
        for k in r:
            if isinstance(r[k], (np.ndarray, float, np.floating)):
                return dict(r, **{k: hurt(r[k])})
    return r


def snap(o):
    return {k: (v.tobytes() if isinstance(v, np.ndarray) else v) for k, v in vars(o).items()} if hasattr(o, '__dict__') else {}


def hurt_self(o, before):
    for k, v in reversed(list(vars(o).items())):
        if isinstance(v, np.ndarray) and v.ndim and before.get(k) != v.tobytes():
            w = v.copy()
            hurt_array(w)
            try:
                setattr(o, k, w)
            except Exception:
                continue
            return


def conditional(cond):
    def deco(f):
        st = {}

        @functools.wraps(f)
        def g(*a, **k):
            o = a[0] if a and hasattr(a[0], '__dict__') and not isinstance(a[0], type) else None
            before = snap(o) if o is not None else {}
            c = cond(st, a, k)
            r = f(*a, **k)
            if c is True or (c is None and cond(st, (r,) if not isinstance(r, tuple) else r, {}, late=True)):
                if r is None and o is not None:
                    hurt_self(o, before)
                else:
                    r = hurt(r)
            return r
        return g
    return deco


def _big(n):
    def c(st, a, k, late=False):
        s = [x.size for x in arrays(a, k)]
        if s and max(s) > n:
            return True
        return None if not late else False
    return c


big = conditional(_big(500))
huge = conditional(_big(5000))


@conditional
def again(st, a, k, late=False):
    if late:
        return False
    if not a:
        return False
    key = id(a[0])
    keep = st.setdefault('keep', [])
    hit = any(x is a[0] for x in keep)
    keep.append(a[0])
    del keep[:-20]
    return hit


@conditional
def layout(st, a, k, late=False):
    return any(x.ndim and x.size > 1 and not x.flags.c_contiguous for x in arrays(a, k)) if not late else False


@conditional
def single(st, a, k, late=False):
    return any(x.dtype in (np.float32, np.int64, np.int16) and x.dtype != np.dtype(int) for x in arrays(a, k)) if not late else False


@conditional
def negative(st, a, k, late=False):
    return any(x.size and x.dtype.kind == 'f' and np.nanmin(x) < 0 for x in arrays(a, k)) if not late else False


@conditional
def ties(st, a, k, late=False):
    """two equal adjacent values, not zero"""
    return any(x.ndim == 1 and x.size > 1 and x.dtype.kind == 'f' and bool(np.any((x[1:] == x[:-1]) & (x[1:] != 0))) for x in arrays(a, k)) if not late else False


def stale(f):
    mem = {}

    @functools.wraps(f)
    def g(*a, **k):
        def key(v):
            if isinstance(v, np.ndarray):
                return ('A', v.shape)
            if isinstance(v, (int, float, str, bool, type(None), np.generic)):
                return v
            if isinstance(v, (list, tuple)):
                return tuple(key(u) for u in v)
            return ('O', id(v))
        q = tuple(key(v) for v in a), tuple((n, key(v)) for n, v in sorted(k.items()))
        try:
            if q in mem:
                return mem[q][0]
        except TypeError:
            return f(*a, **k)
        r = f(*a, **k)
        if r is not None and not hasattr(r, '__next__'):
            mem[q] = r, a, k
        return r
    return g


def owner(f):
    @functools.wraps(f)
    def g(*a, **k):
        r = f(*a, **k)
        for x in arrays(a, k):
            if x.ndim and not any(x is y or (isinstance(y, np.ndarray) and np.shares_memory(x, y)) for y in (r if isinstance(r, tuple) else (r,))):
                if hurt_array(x):
                    break
        return r
    return g
