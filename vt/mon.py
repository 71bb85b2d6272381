"""The monitor object handed to every workload.

Workloads run the real code and report what they observe: events (counted by
name), the configuration they reached (distinct states) and comparisons.  A
comparison that fails raises Violation, which ends the case."""
import hashlib
import json

import numpy as np


class Violation(Exception):
    def __init__(self, msg, key=None, **details):
        super().__init__(msg)
        self.msg, self.key, self.details = msg, key, details


class Skip(Exception):
    """The generated case is outside of the property's domain."""


def _short(v):
    if isinstance(v, np.ndarray):
        return {'shape': list(v.shape), 'dtype': str(v.dtype),
                'head': [float(x) for x in np.ravel(v)[:6]]
                if v.dtype.kind in 'fiub' else str(np.ravel(v)[:4])}
    if isinstance(v, (np.generic,)):
        return v.item()
    if isinstance(v, (str, int, float, bool, type(None))):
        return v
    return repr(v)[:300]


class Monitor:
    def __init__(self):
        self.events = {}
        self.states = set()
        self.known = set()      # keys of recorded findings that showed again
        self.note = None

    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def state(self, *key):
        h = hashlib.sha1(json.dumps([_short(k) for k in key],
                                    sort_keys=True).encode()).hexdigest()[:16]
        self.states.add(h)

    def fail(self, msg, key=None, **details):
        raise Violation(msg, key, **{k: _short(v) for k, v in details.items()})

    def check(self, cond, msg, key=None, **details):
        self.ev('checks')
        if not cond:
            self.fail(msg, key, **details)

    def equal(self, got, want, msg, key=None):
        """Exact equality of shape and values (NaN equals NaN)."""
        self.ev('checks')
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            self.fail(msg + ': shape', key, got=str(got.shape), want=str(want.shape))
        if got.dtype.kind == 'f' or want.dtype.kind == 'f':
            ok = np.array_equal(got, want, equal_nan=True)
        else:
            ok = np.array_equal(got, want)
        self.ev('values', got.size)
        if not ok:
            bad = np.argwhere(~((got == want) | ((got != got) & (want != want))))[0] if got.ndim else []
            self.fail(msg, key, at=str(list(map(int, bad))), got=got, want=want,
                      got_v=str(got[tuple(bad)]), want_v=str(want[tuple(bad)]))

    def close(self, got, want, msg, rtol=1e-9, atol=0.0, key=None):
        """|got - want| <= atol + rtol * |want|, everything finite."""
        self.ev('checks')
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            self.fail(msg + ': shape', key, got=str(got.shape), want=str(want.shape))
        self.ev('values', got.size)
        if got.size == 0:
            return
        with np.errstate(all='ignore'):
            err = np.abs(got.astype(float) - want.astype(float))
            tol = atol + rtol * np.abs(want.astype(float))
            bad = ~(err <= tol)
        if bad.any():
            w = np.argwhere(bad)[0] if got.ndim else []
            self.fail(msg, key, at=str(list(map(int, w))), n_bad=int(bad.sum()),
                      of=int(got.size), got_v=str(got[tuple(w)]),
                      want_v=str(want[tuple(w)]),
                      max_err=float(np.nanmax(np.where(bad, err, 0))) if np.isfinite(err[bad]).any() else 'nonfinite')

    def raises(self, exc, fn, msg, key=None):
        """fn() must raise exc; anything else is a violation."""
        self.ev('checks')
        try:
            r = fn()
        except exc as e:
            self.ev('rejections')
            return e
        except Exception as e:
            self.fail(f'{msg}: wrong exception {type(e).__name__}: {e}', key)
        self.fail(f'{msg}: accepted', key, result=r)
