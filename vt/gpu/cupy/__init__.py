"""A stand-in for CuPy on a machine without a GPU: arrays that live in "device"
memory (a NumPy array nobody outside can reach without asking), the rules CuPy
has about mixing host and device arrays, and kernels that are the repository's
.cu files compiled for an emulated device (vt/gpu/cuda)."""
import builtins as _b
import ctypes as _ct
import os as _os
import sys as _sys
import types as _types
import numpy as _np


def _host(x):
    return isinstance(x, _np.ndarray) and x.ndim > 0


def _un(x):
    """Arguments of a device operation: device arrays and scalars only."""
    if isinstance(x, ndarray):
        return x._a
    if _host(x):
        raise TypeError(f'Unsupported type {type(x)}')
    if isinstance(x, (list, tuple)):
        return type(x)(_un(v) for v in x)
    if isinstance(x, slice):
        return slice(_un(x.start), _un(x.stop), _un(x.step))
    return x


def _wrap(r):
    if isinstance(r, _np.ndarray):
        return ndarray(_array=r)
    if isinstance(r, _np.generic):
        return ndarray(_array=_np.array(r))
    if isinstance(r, (list, tuple)) and _b.any(isinstance(v, (_np.ndarray, _np.generic)) for v in r):
        return type(r)(_wrap(v) for v in r) if type(r) in (list, tuple) else tuple(_wrap(v) for v in r)
    return r


def _plain(x):
    """Anything to NumPy; only for array()."""
    if isinstance(x, ndarray):
        return x._a
    if isinstance(x, (list, tuple)):
        return [_plain(v) for v in x]
    return x


class ndarray:
    __array_priority__ = 100

    def __init__(self, shape=None, dtype=float, _array=None):
        if _array is None:
            _array = _np.empty(shape, dtype)
            _scribble(_array)
        self._a = _array

    def __class_getitem__(cls, item):
        return _types.GenericAlias(cls, item)

    shape = property(lambda s: s._a.shape)
    dtype = property(lambda s: s._a.dtype)
    ndim = property(lambda s: s._a.ndim)
    size = property(lambda s: s._a.size)
    nbytes = property(lambda s: s._a.nbytes)
    itemsize = property(lambda s: s._a.itemsize)
    strides = property(lambda s: s._a.strides)
    flags = property(lambda s: s._a.flags)
    T = property(lambda s: _wrap(s._a.T))
    real = property(lambda s: _wrap(s._a.real))

    def get(self, *a, **k):
        return self._a.copy()

    def item(self, *a):
        return self._a.item(*a)

    def tolist(self):
        return self._a.tolist()

    def __array__(self, *a, **k):
        raise TypeError('Implicit conversion to a NumPy array is not allowed. Please use `.get()` to construct a NumPy array explicitly.')

    def __array_ufunc__(self, ufunc, method, *args, **kw):
        out = kw.pop('out', None)
        if out is not None:
            kw['out'] = tuple(_un(v) for v in out)
        r = getattr(ufunc, method)(*[_un(v) for v in args], **{k: (v if k == 'out' else _un(v)) for k, v in kw.items()})
        if out is not None:
            return out[0]
        return _wrap(r)

    def __array_function__(self, func, types, args, kw):
        return _wrap(func(*[_un(v) for v in args], **{k: _un(v) for k, v in kw.items()}))

    def __len__(self):
        return len(self._a)

    def __iter__(self):
        return (_wrap(v) for v in self._a)

    def __bool__(self):
        return bool(self._a)

    def __float__(self):
        return float(self._a)

    def __int__(self):
        return int(self._a)

    def __index__(self):
        return self._a.__index__()

    def __repr__(self):
        return 'device ' + repr(self._a)

    def __getitem__(self, i):
        return _wrap(self._a[_un(i)])

    def __setitem__(self, i, v):
        self._a[_un(i)] = _un(v)

    def __copy__(self):
        return _wrap(self._a.copy())

    def __deepcopy__(self, memo):
        return _wrap(self._a.copy())

    def copy(self, order='C'):
        return _wrap(self._a.copy(order))

    def fill(self, v):
        self._a.fill(_un(v))


def _binary(name):
    def op(self, other):
        return _wrap(getattr(self._a, name)(_un(other)))
    return op


def _inplace(name):
    def op(self, other):
        getattr(self._a, name)(_un(other))
        return self
    return op


for _n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'matmul', 'and', 'or', 'xor', 'lshift', 'rshift'):
    setattr(ndarray, f'__{_n}__', _binary(f'__{_n}__'))
    setattr(ndarray, f'__r{_n}__', _binary(f'__r{_n}__'))
    if _n != 'matmul':
        setattr(ndarray, f'__i{_n}__', _inplace(f'__i{_n}__'))
for _n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
    setattr(ndarray, f'__{_n}__', _binary(f'__{_n}__'))
ndarray.__hash__ = None
for _n in ('neg', 'pos', 'abs', 'invert'):
    setattr(ndarray, f'__{_n}__', (lambda m: lambda self: _wrap(getattr(self._a, m)()))(f'__{_n}__'))
for _n in ('reshape', 'flatten', 'ravel', 'astype', 'sum', 'min', 'max', 'any', 'all', 'clip', 'mean', 'transpose', 'argmax', 'argmin',
           'argsort', 'cumsum', 'round', 'dot', 'repeat', 'take', 'nonzero', 'squeeze', 'view', 'prod', 'std', 'var', 'swapaxes',
           'conj', 'diagonal', 'ptp', 'searchsorted', 'sort'):
    if hasattr(_np.ndarray, _n):
        setattr(ndarray, _n, (lambda m: lambda self, *a, **k: _wrap(getattr(self._a, m)(*[_un(v) for v in a],
                                                                                        **{q: _un(v) for q, v in k.items()})))(_n))


class _Ufunc:
    def __init__(self, f):
        self._f = f
        self.__name__ = f.__name__

    def __call__(self, *a, out=None, **k):
        if out is not None:
            self._f(*[_un(v) for v in a], out=_un(out), **k)
            return out
        return _wrap(self._f(*[_un(v) for v in a], **{q: _un(v) for q, v in k.items()}))

    def at(self, a, i, b=None):
        self._f.at(a._a, _un(i), *(() if b is None else (_un(b),)))

    def reduce(self, a, *r, **k):
        return _wrap(self._f.reduce(_un(a), *r, **k))


def _func(f):
    def g(*a, **k):
        return _wrap(f(*[_un(v) for v in a], **{q: _un(v) for q, v in k.items()}))
    g.__name__ = getattr(f, '__name__', 'f')
    return g


for _n in dir(_np):
    _f = getattr(_np, _n)
    if _n.startswith('_') or _n in ('ndarray', 'test', 'matrix', 'memmap', 'recarray', 'nditer', 'vectorize', 'errstate', 'asmatrix'):
        continue
    if isinstance(_f, _np.ufunc):
        globals()[_n] = _Ufunc(_f)
    elif isinstance(_f, type):
        if issubclass(_f, (_np.generic, _np.dtype)):
            globals()[_n] = _f
    elif callable(_f) and not isinstance(_f, _types.ModuleType):
        globals()[_n] = _func(_f)
pi, e, inf, nan, newaxis = _np.pi, _np.e, _np.inf, _np.nan, None


def array(obj, dtype=None, copy=True, order='K', ndmin=0, **k):
    return _wrap(_np.array(_plain(obj), dtype=dtype, copy=True if copy else None, order=order, ndmin=ndmin))


def asarray(obj, dtype=None, order=None, **k):
    if isinstance(obj, ndarray) and (dtype is None or obj.dtype == dtype):
        return obj
    return array(obj, dtype)


def ascontiguousarray(obj, dtype=None):
    if isinstance(obj, ndarray):
        return _wrap(_np.ascontiguousarray(obj._a, dtype))
    return _wrap(_np.array(_np.ascontiguousarray(_plain(obj), dtype)))


asanyarray = asarray


def asnumpy(a, *r, **k):
    return a.get() if isinstance(a, ndarray) else _np.asarray(a)


def get_array_module(*a):
    return _sys.modules[__name__] if _b.any(isinstance(v, ndarray) for v in a) else _np


def _scribble(a):
    """Memory nobody wrote to holds what was there before."""
    a.view(_np.uint8 if a.dtype != bool else bool).reshape(-1)[...] = 0x7f if a.dtype != bool else True


def empty(shape, dtype=float, order='C'):
    a = _np.empty(shape, dtype, order)
    if a.size and a.ndim:
        _scribble(a)
    return _wrap(a)


def empty_like(p, dtype=None, **k):
    return empty(p.shape, dtype or p.dtype)


# ---------------------------------------------------------------- the device
class _Runtime(_types.ModuleType):
    class CUDARuntimeError(RuntimeError):
        pass

    @staticmethod
    def getDeviceProperties(dev):
        return {'name': 'emulated device', 'multiProcessorCount': 4}

    @staticmethod
    def getDeviceCount():
        return 1


class Device:
    def __init__(self, device=0):
        if device != 0:
            raise _Runtime.CUDARuntimeError('cudaErrorInvalidDevice: invalid device ordinal')
        self.id = device

    def use(self):
        pass

    def synchronize(self):
        pass

    compute_capability = '75'
    attributes = property(lambda s: {'MultiProcessorCount': 4, 'MaxThreadsPerBlock': int(_os.environ.get('VT_GPU_BLOCK', '32'))})

    def __index__(self):
        return self.id


class RawKernel:
    """Arguments travel as CuPy sends them: an array as its address, a Python
    int as 64 bits, a Python float as a double, NumPy scalars as they are; the
    kernel reads as many bytes as its own parameter type has."""
    launches = 0
    threads = 0

    def __init__(self, lib, name):
        self.name = name
        try:
            self._f = getattr(lib, 'vt_launch_' + name)
        except AttributeError:
            raise _Runtime.CUDARuntimeError(f'CUDA_ERROR_NOT_FOUND: named symbol not found ({name})')
        self._nargs = _ct.c_int.in_dll(lib, 'vt_nargs_' + name).value

    def __call__(self, grid, block, args, **k):
        g, b = (tuple(int(v) for v in d) + (1,) * (3 - len(d)) for d in (grid, block))
        lim = Device(0).attributes['MaxThreadsPerBlock']
        if b[0] * b[1] * b[2] > _b.max(lim, 32) or _b.min(g) < 1 or _b.min(b) < 1:
            raise _Runtime.CUDARuntimeError(f'CUDA_ERROR_INVALID_VALUE: invalid argument (grid {g}, block {b})')
        if len(args) != self._nargs:
            raise _Runtime.CUDARuntimeError(f'{self.name}: {len(args)} arguments for {self._nargs} parameters')
        keep = []
        for a in args:
            if isinstance(a, ndarray):
                v = _ct.c_void_p(a._a.ctypes.data)
            elif isinstance(a, (bool, _np.bool_)):
                v = _ct.c_uint64(int(a))
            elif isinstance(a, int):
                v = _ct.c_int64(a)
            elif isinstance(a, float) and not isinstance(a, _np.generic):
                v = _ct.c_double(a)
            elif isinstance(a, _np.generic):
                # what lies behind a smaller scalar is not zero
                v = (_ct.c_ubyte * 8)(*([0x7f] * 8))
                raw = a.tobytes()
                _ct.memmove(v, raw, _b.min(8, len(raw)))
            else:
                raise TypeError(f'Unsupported type {type(a)}')
            keep.append(v)
        ptr = (_ct.c_void_p * len(keep))(*[_ct.addressof(v) for v in keep])
        RawKernel.launches += 1
        RawKernel.threads += g[0] * g[1] * g[2] * b[0] * b[1] * b[2]
        if self._f((_ct.c_uint * 3)(*g), (_ct.c_uint * 3)(*b), ptr):
            raise _Runtime.CUDARuntimeError('launch failed')


class RawModule:
    def __init__(self, code=None, path=None, **k):
        path = _os.path.realpath(path)
        if not _os.path.isfile(path):
            raise _Runtime.CUDARuntimeError('CUDA_ERROR_FILE_NOT_FOUND: file not found')
        self._lib = _ct.CDLL(path)

    def get_function(self, name):
        return RawKernel(self._lib, name)


cuda = _types.ModuleType('cupy.cuda')
cuda.Device = Device
cuda.runtime = _Runtime('cupy.cuda.runtime')
cuda.get_current_stream = lambda: _types.SimpleNamespace(synchronize=lambda: None)
_sys.modules['cupy.cuda'] = cuda
_sys.modules['cupy.cuda.runtime'] = cuda.runtime


def _tested(f):
    def g(*a, **k):
        f(*[asnumpy(v) for v in a], **k)
    return g


testing = _types.ModuleType('cupy.testing')
for _n in ('assert_allclose', 'assert_array_equal', 'assert_array_almost_equal', 'assert_array_less'):
    setattr(testing, _n, _tested(getattr(_np.testing, _n)))
_sys.modules['cupy.testing'] = testing
