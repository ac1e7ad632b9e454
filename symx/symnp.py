"""A numpy look-alike over symbolic scalars.

SymArray is an object-dtype ndarray subclass (so views, slicing, broadcasting and
aliasing are numpy's own), with element kinds 'f' (R), 'i' (int/I), 'b' (bool/B).
build_numpy() returns a module object that replaces `numpy` for executed code.
"""
import types, math, builtins
from fractions import Fraction
import numpy as np
from .core import (z3, R, I, B, E, ite, b_and, b_or, b_not, mkB, smax, smin, sqrt, EngineError,
                   is_special, INF, NAN, frac, _tob)
from . import core, funcs

FLOATS = ('f', 'f4', 'f8', 'd', 'float', 'float64', 'float32', 'double')


class _SymType(type):
    def __instancecheck__(cls, x):
        return cls._inst(x)
    def __subclasscheck__(cls, c):
        return type.__subclasscheck__(cls, c)


class sym_float(metaclass=_SymType):
    kind = 'f'
    def __new__(cls, x=0.0):
        if isinstance(x, str):
            return R(frac(float(x)))
        if isinstance(x, np.ndarray):
            if x.size != 1:
                raise TypeError("only length-1 arrays can be converted to Python scalars")
            return R.of(asym(x).reshape(-1)[0])
        return R.of(x)
    @staticmethod
    def _inst(x):
        return isinstance(x, (R, builtins.float))


class sym_int(metaclass=_SymType):
    kind = 'i'
    def __new__(cls, x=0, *a):
        if isinstance(x, str):
            return builtins.int(x, *a)
        if isinstance(x, np.ndarray):
            if x.size != 1:
                raise TypeError("only length-1 arrays can be converted to Python scalars")
            x = asym(x).reshape(-1)[0]
        return cast_scalar(x, 'i')
    @staticmethod
    def _inst(x):
        return isinstance(x, (builtins.int, I))


class sym_bool(metaclass=_SymType):
    kind = 'b'
    def __new__(cls, x=False):
        return builtins.bool(x)
    @staticmethod
    def _inst(x):
        return isinstance(x, (builtins.bool, B))


class np_int_(sym_int):
    """np.int_: also converts arrays elementwise"""
    def __new__(cls, x=0):
        if isinstance(x, (np.ndarray, list, tuple)):
            return asym(x).astype(int, copy=False)
        return cast_scalar(x, 'i')


class np_float64(sym_float):
    def __new__(cls, x=0.0):
        if isinstance(x, (np.ndarray, list, tuple)):
            return asym(x).astype(float, copy=False)
        return sym_float(x)


class np_bool_(sym_bool):
    def __new__(cls, x=False):
        if isinstance(x, (np.ndarray, list, tuple)):
            return asym(x).astype(bool, copy=False)
        return cast_scalar(x, 'b')


def kind_of_dtype(d):
    if d is None:
        return None
    if isinstance(d, type) and hasattr(d, 'kind') and isinstance(d.kind, str):
        return d.kind
    if d is builtins.float or d in FLOATS:
        return 'f'
    if d is builtins.int:
        return 'i'
    if d is builtins.bool:
        return 'b'
    if d is builtins.object:
        return 'O'
    if isinstance(d, _Dtype):
        return d.kind
    k = np.dtype(d).kind
    return {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b', 'O': 'O'}.get(k, k)


class _Dtype:
    def __init__(self, kind):
        self.kind = kind
        self.type = {'f': np_float64, 'i': np_int_, 'b': np_bool_}.get(kind, object)
        self.name = {'f': 'float64', 'i': 'int64', 'b': 'bool'}.get(kind, 'object')
    def __eq__(self, o):
        try:
            return kind_of_dtype(o) == self.kind
        except TypeError:
            return False
    def __hash__(self):
        return hash(self.kind)
    def __repr__(self):
        return "dtype('%s')" % self.name


def cast_scalar(x, kind):
    if kind == 'f':
        return R.of(x)
    if kind == 'i':
        if isinstance(x, (R, float, np.floating, Fraction)):
            x = R.of(x)
            if is_special(x.p):
                raise (ValueError if x.p != x.p else OverflowError)("cannot convert float to integer")
            return x.trunc()
        if isinstance(x, B):
            return x._i()
        if isinstance(x, I):
            return x
        return builtins.int(x)
    if kind == 'b':
        return _tob(x)
    return x


def kind_of(x):
    if isinstance(x, SymArray):
        return x.kind
    if isinstance(x, np.ndarray):
        return {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b'}.get(x.dtype.kind, 'O')
    if isinstance(x, (R, float, np.floating, Fraction)):
        return 'f'
    if isinstance(x, (bool, B, np.bool_)):
        return 'b'
    if isinstance(x, (int, I, np.integer)):
        return 'i'
    return 'O'


_RANK = {'b': 0, 'i': 1, 'f': 2, 'O': 3}


def join_kind(ks):
    ks = [k for k in ks if k is not None]
    return max(ks, key=lambda k: _RANK.get(k, 3)) if ks else 'f'


def _infer(arr):
    ks = set(kind_of(v) for v in arr.reshape(-1))
    return join_kind(ks) if ks else 'f'


def mk(arr, kind=None):
    """wrap object ndarray"""
    a = arr.view(SymArray)
    if kind is None:
        kind = _infer(arr)
        if kind in 'fib':
            flat = arr.reshape(-1)
            if any(kind_of(v) != kind for v in flat):
                out = np.empty(arr.shape, dtype=object)
                for ix in np.ndindex(arr.shape):
                    out[ix] = cast_scalar(arr[ix], kind)
                a = out.view(SymArray)
    a._kind = kind
    return a


def asym(x, kind=None):
    if isinstance(x, SymArray):
        if kind is not None and kind != x.kind:
            return x.astype(kind_type(kind))
        return x
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return mk(x, kind)
        k = kind or kind_of(x)
        out = np.empty(x.shape, dtype=object)
        for ix in np.ndindex(x.shape):
            out[ix] = cast_scalar(x[ix].item() if k != 'f' else float(x[ix]), k)
        return mk(out, k)
    if isinstance(x, (list, tuple)):
        parts = [asym(v) if isinstance(v, (list, tuple, np.ndarray)) else v for v in x]
        if any(isinstance(v, np.ndarray) and v.ndim > 0 for v in parts):
            parts = [asym(v) for v in parts]
            shp = parts[0].shape
            for p in parts:
                if p.shape != shp:
                    raise ValueError("setting an array element with a sequence: inhomogeneous shape")
            k = kind or join_kind([p.kind for p in parts if p.size] or [parts[0].kind])
            out = np.empty((len(parts),) + shp, dtype=object)
            for i, p in enumerate(parts):
                for ix in np.ndindex(shp):
                    out[(i,) + ix] = cast_scalar(p.view(np.ndarray)[ix], k)
            return mk(out, k)
        out = np.empty(len(parts), dtype=object)
        parts = [v.reshape(-1)[0] if isinstance(v, np.ndarray) else v for v in parts]
        k = kind or (join_kind([kind_of(v) for v in parts]) if parts else 'f')
        for i, v in enumerate(parts):
            out[i] = cast_scalar(v, k)
        return mk(out, k)
    if isinstance(x, (range,)):
        return asym(list(x), kind)
    out = np.empty((), dtype=object)
    k = kind or kind_of(x)
    out[()] = cast_scalar(x, k)
    return mk(out, k)


def kind_type(k):
    return {'f': sym_float, 'i': sym_int, 'b': sym_bool, 'O': object}[k]


def _raw(a):
    return a.view(np.ndarray)


def ew(fn, *args, kind=None):
    """elementwise with broadcasting; scalars in -> scalar out"""
    if not any(isinstance(a, (np.ndarray, list, tuple)) for a in args):
        return fn(*args)
    arrs = [_raw(asym(a)) for a in args]
    bs = np.broadcast_arrays(*arrs)
    shape = bs[0].shape
    out = np.empty(shape, dtype=object)
    for ix in np.ndindex(shape):
        out[ix] = fn(*[b[ix] for b in bs])
    if shape == ():
        return out[()]
    if kind is None and out.size == 0:
        kind = join_kind([kind_of(asym(a)) for a in args])
    return mk(out, kind)


def _conv_index_one(ix, n=None):
    if isinstance(ix, (I,)):
        return builtins.int(ix)
    if isinstance(ix, (B,)):
        return builtins.bool(ix)
    if isinstance(ix, R):
        raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
    if isinstance(ix, SymArray):
        raw = _raw(ix)
        if ix.kind == 'b':
            out = np.zeros(ix.shape, dtype=bool)
            for j in np.ndindex(ix.shape):
                out[j] = builtins.bool(raw[j])
            return out
        if ix.kind == 'i':
            out = np.zeros(ix.shape, dtype=np.intp)
            for j in np.ndindex(ix.shape):
                out[j] = builtins.int(raw[j])
            return out
        if ix.size == 0:
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    if isinstance(ix, list):
        if len(ix) == 0:
            return np.zeros(0, dtype=np.intp)
        return _conv_index_one(asym(ix))
    if isinstance(ix, slice):
        def c(v):
            if isinstance(v, I):
                return builtins.int(v)
            if isinstance(v, np.ndarray) and v.ndim == 0:
                return c(v[()])
            if isinstance(v, R):
                raise TypeError("slice indices must be integers or None or have an __index__ method")
            return v
        return slice(c(ix.start), c(ix.stop), c(ix.step))
    return ix


MASK_ITE = True


def conv_index(ix):
    if isinstance(ix, tuple):
        return tuple(_conv_index_one(i) for i in ix)
    return _conv_index_one(ix)


class SymArray(np.ndarray):
    __array_priority__ = 1000

    def __array_finalize__(self, obj):
        self._kind = getattr(obj, '_kind', None)

    @property
    def kind(self):
        if self._kind is None:
            self._kind = _infer(_raw(self))
        return self._kind

    @property
    def dtype(self):
        return _Dtype(self.kind)

    # numpy C code reached directly
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        name = ufunc.__name__
        f = UFUNCS.get(name)
        if f is None:
            raise EngineError("ufunc %s not modelled" % name)
        if method == '__call__':
            return f(*inputs, **(dict(kw, out=out[0]) if out is not None else kw))
        if out is not None: raise EngineError("ufunc %s.%s with out= not modelled" % (name, method))
        return getattr(f, method)(*inputs, **kw)

    def __array_function__(self, func, types_, args, kwargs):
        return call_np(func, args, kwargs)

    def __getitem__(self, ix):
        ix = conv_index(ix)
        k = self._kind
        r = np.ndarray.__getitem__(self, ix)
        if isinstance(r, np.ndarray) and isinstance(r, SymArray):
            r._kind = self.kind
        return r

    def __setitem__(self, ix, val):
        if MASK_ITE and isinstance(ix, SymArray) and ix.shape == self.shape and ix.ndim and ix.kind == 'b' and self._masked_set(ix, val):
            return
        ix = conv_index(ix)
        k = self.kind
        if isinstance(val, (list, tuple, np.ndarray)):
            v = asym(val)
            if v.kind != k:
                v = v.astype(kind_type(k))
            raw = _raw(v).copy()
            if raw.ndim == 0:
                np.ndarray.__setitem__(_raw(self), ix, raw[()])
                return
            tgt = np.ndarray.__getitem__(_raw(self), ix)
            if not isinstance(tgt, np.ndarray):
                if raw.size == 1:
                    np.ndarray.__setitem__(_raw(self), ix, raw.reshape(-1)[0])
                    return
                raise ValueError("setting an array element with a sequence.")
            np.ndarray.__setitem__(_raw(self), ix, raw)
        else:
            np.ndarray.__setitem__(_raw(self), ix, cast_scalar(val, k))

    def _masked_set(self, mask, val):
        """a[mask] = scalar without splitting the path"""
        if isinstance(val, SymArray) and val.ndim == 0: val = _raw(val)[()]
        if isinstance(val, (list, tuple, np.ndarray)): return False
        m, a = _raw(mask).reshape(-1), _raw(self)
        if not any(isinstance(x, B) for x in m): return False
        k = self.kind
        if k not in 'fib': return False
        v = cast_scalar(val, k)
        if isinstance(v, R) and is_special(v.p): return False
        flat = a.reshape(-1)
        if any(isinstance(o, R) and is_special(o.p) for o, x in zip(flat, m) if isinstance(x, B)): return False
        for i, jx in enumerate(np.ndindex(a.shape)):
            x = m[i]
            if isinstance(x, B):
                a[jx] = ite(x, v, a[jx])
            elif x:
                a[jx] = v
        return True

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self.shape[0]):
            yield self[i]

    def __contains__(self, v):
        return builtins.bool(np_any(self == v))

    def __bool__(self):
        if self.size != 1:
            if self.size == 0:
                return False
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        return builtins.bool(_raw(self).reshape(-1)[0])

    def __int__(self):
        return builtins.int(_raw(self).reshape(-1)[0]) if self.size == 1 else np.ndarray.__int__(self)
    def __index__(self):
        if self.size == 1 and self.ndim == 0 and self.kind in 'ib':
            return builtins.int(_raw(self)[()])
        raise TypeError("only integer scalar arrays can be converted to a scalar index")
    def __float__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return builtins.float(_raw(self).reshape(-1)[0])

    def astype(self, t, copy=True, **kw):
        k = kind_of_dtype(t)
        if k == self.kind:
            return self.copy() if copy else self
        return ew(lambda v: cast_scalar(v, k), self, kind=k) if self.ndim else mk(_raw(asym(cast_scalar(_raw(self)[()], k))), k)

    def copy(self, order='C'):
        r = np.ndarray.copy(self)
        r._kind = self.kind
        return r

    def __deepcopy__(self, memo):
        return self.copy()
    def __copy__(self):
        return self.copy()

    def __reduce__(self):
        return (_rebuild, (_raw(self).shape, list(_raw(self).reshape(-1)), self.kind))

    def sum(self, axis=None, **kw): return np_sum(self, axis=axis)
    def prod(self, axis=None, **kw): return np_prod(self, axis=axis)
    def mean(self, axis=None, **kw): return np_mean(self, axis=axis)
    def std(self, axis=None, **kw): return np_std(self)
    def max(self, axis=None, **kw): return np_max(self, axis=axis)
    def min(self, axis=None, **kw): return np_min(self, axis=axis)
    def any(self, axis=None, **kw): return np_any(self, axis=axis)
    def all(self, axis=None, **kw): return np_all(self, axis=axis)
    def cumsum(self, axis=None, **kw): return np_cumsum(self)
    def argmax(self, axis=None, **kw): return np_argmax(self)
    def argmin(self, axis=None, **kw): return np_argmin(self)
    def argsort(self, axis=-1, **kw): return np_argsort(self)
    def sort(self, axis=-1, **kw): self[...] = np_sort(self)
    def dot(self, o): return np_dot(self, o)
    def round(self, decimals=0): return np_round(self, decimals)
    def clip(self, lo, hi): return np_clip(self, lo, hi)
    def nonzero(self): return np_nonzero(self)
    def conj(self): return self
    def fill(self, v): self[...] = v
    def repeat(self, n, axis=None): return np_repeat(self, n, axis)
    def searchsorted(self, v, side='left'): return np_searchsorted(self, v, side)
    def take(self, ix, axis=None): return np_take(self, ix, axis)
    def compress(self, c, axis=None): return OVERRIDES['compress'](c, self, axis)
    def put(self, ix, v, mode=None): _put(self, ix, v)
    def cumprod(self, axis=None, **kw): return OVERRIDES['cumprod'](self, axis)
    def ptp(self, axis=None): return OVERRIDES['ptp'](self, axis)
    def diagonal(self, *a, **k): return mk(_raw(self).diagonal(*a, **k), self.kind)
    def trace(self): return OVERRIDES['trace'](self)

    def choose(self, c, **k): return OVERRIDES['choose'](self, c)
    def item(self, *a):
        return _raw(self).item(*a)
    def tolist(self): return _raw(self).tolist()
    @property
    def real(self): return self

    def __repr__(self):
        return "SymArray(%s)" % (_raw(self).tolist(),)
    __str__ = __repr__
    def __format__(self, spec): return repr(self)


def _rebuild(shape, flat, kind):
    out = np.empty(len(flat), dtype=object)
    for i, v in enumerate(flat):
        out[i] = v
    return mk(out.reshape(shape), kind)


# ---- elementwise operators -------------------------------------------------
def _num(x):
    return x._i() if isinstance(x, B) else (builtins.int(x) if isinstance(x, (bool, np.bool_)) else x)


def _add(a, b):
    if isinstance(a, (B, bool, np.bool_)) and isinstance(b, (B, bool, np.bool_)): return b_or(a, b)
    return _num(a) + _num(b)
def _sub(a, b):
    if isinstance(a, (B, bool, np.bool_)) and isinstance(b, (B, bool, np.bool_)):
        raise TypeError("numpy boolean subtract, the `-` operator, is not supported")
    return _num(a) - _num(b)
def _mul(a, b):
    if isinstance(a, (B, bool, np.bool_)) and isinstance(b, (B, bool, np.bool_)): return b_and(a, b)
    if isinstance(a, B) and isinstance(b, R): return ite(a, b, R(Fraction(0))) if not is_special(b.p) else (b if a else R(Fraction(0)))
    if isinstance(b, B) and isinstance(a, R): return ite(b, a, R(Fraction(0))) if not is_special(a.p) else (a if b else R(Fraction(0)))
    return _num(a) * _num(b)
def _div(a, b):
    return core.div(R.of(_num(a)), R.of(_num(b)))
def _fdiv(a, b):
    a, b = _num(a), _num(b)
    if isinstance(a, (int, I)) and isinstance(b, (int, I)):
        return core.int_floordiv(a, b) if isinstance(a, I) or isinstance(b, I) else a // b
    return R.of(a) // R.of(b)
def _mod(a, b):
    a, b = _num(a), _num(b)
    return a % b if not (isinstance(a, float) or isinstance(b, float)) else R.of(a) % R.of(b)
def _fmod(a, b):
    a, b = R.of(_num(a)), R.of(_num(b))
    return a - b * R.of(core.div(a, b).trunc())
def _pow(a, b):
    a, b = _num(a), _num(b)
    if isinstance(a, (int, I)) and isinstance(b, (int, I)): return a ** builtins.int(b)
    return R.of(a) ** b
def _neg(a): return -_num(a)
def _inv(a):
    if isinstance(a, (B, bool, np.bool_)): return b_not(a)
    return -a - 1
def _and(a, b):
    if isinstance(a, int) and not isinstance(a, bool) and isinstance(b, int): return a & b
    return b_and(a, b)
def _or(a, b): return b_or(a, b)
def _xor(a, b):
    return mkB(z3.simplify(z3.Xor(core.bz(_tob(a)), core.bz(_tob(b)))))
def _c(name):
    f = core._CMP[name]
    def g(a, b):
        if isinstance(a, (B, bool)) and isinstance(b, (B, bool)) and name in ('eq', 'ne'):
            e = mkB(z3.simplify(core.bz(a) == core.bz(b)))
            return e if name == 'eq' else b_not(e)
        return f(_num(a), _num(b)) if not isinstance(a, float) and not isinstance(b, float) else f(R.of(a), R.of(b))
    return g


def _wrap2(fn, kind=None):
    def op(a, b):
        return ew(fn, a, b, kind=kind)
    return op


_BIN = dict(add=_add, sub=_sub, mul=_mul, truediv=_div, floordiv=_fdiv, mod=_mod, pow=_pow)
_BITS = {'and': _and, 'or': _or, 'xor': _xor}


def _scalarish(o):
    return isinstance(o, (R, I, B, int, float, bool, np.ndarray, np.generic, list, tuple, Fraction))


def _install():
    def mkbin(fn, kind=None):
        def f(self, o):
            if not _scalarish(o): return NotImplemented
            return ew(fn, self, o, kind=kind)
        def r(self, o):
            if not _scalarish(o): return NotImplemented
            return ew(fn, o, self, kind=kind)
        def i(self, o):
            res = ew(fn, self, o, kind=kind)
            if isinstance(res, np.ndarray) and _RANK[res.kind] > _RANK[self.kind]:
                raise TypeError("Cannot cast ufunc output from dtype('%s') to dtype('%s') with casting rule 'same_kind'" % (res.dtype.name, self.dtype.name))
            if isinstance(res, np.ndarray) and res.shape != self.shape:
                raise ValueError("non-broadcastable output operand")
            self[...] = res
            return self
        return f, r, i
    for n, fn in list(_BIN.items()) + list(_BITS.items()):
        f, r, i = mkbin(fn)
        setattr(SymArray, '__%s__' % n, f)
        setattr(SymArray, '__r%s__' % n, r)
        setattr(SymArray, '__i%s__' % n, i)
    for n in core._CMP:
        fn = _c(n)
        def f(self, o, fn=fn, n=n):
            if not _scalarish(o):
                return NotImplemented
            return ew(fn, self, o, kind='b')
        setattr(SymArray, '__%s__' % n, f)
    SymArray.__neg__ = lambda self: ew(_neg, self)
    SymArray.__pos__ = lambda self: self.copy()
    SymArray.__invert__ = lambda self: ew(_inv, self)
    SymArray.__abs__ = lambda self: ew(abs, self)
    SymArray.__matmul__ = lambda self, o: np_dot(self, o)
    SymArray.__hash__ = None
_install()


# scalars with arrays: R * ndarray etc. come here through reflected operators of
# SymArray; for plain ndarrays convert first.
def _install_scalar():
    for n, fn in list(_BIN.items()):
        for cls in (R, I, B):
            for pre in ('', 'r'):
                m = '__%s%s__' % (pre, n)
                old = getattr(cls, m, None)
                def f(self, o, old=old, fn=fn, pre=pre):
                    if isinstance(o, np.ndarray):
                        return ew(fn, self, asym(o)) if pre == '' else ew(fn, asym(o), self)
                    if old is None:
                        return NotImplemented
                    return old(self, o)
                setattr(cls, m, f)
    for n in core._CMP:
        fn = _c(n)
        for cls in (R, I, B):
            m = '__%s__' % n
            old = getattr(cls, m)
            def f(self, o, old=old, fn=fn):
                if isinstance(o, np.ndarray):
                    return ew(fn, self, asym(o), kind='b')
                return old(self, o)
            setattr(cls, m, f)
    for n, fn in _BITS.items():
        for pre in ('', 'r'):
            m = '__%s%s__' % (pre, n)
            old = getattr(B, m)
            def f(self, o, old=old, fn=fn):
                if isinstance(o, np.ndarray):
                    return ew(fn, self, asym(o))
                return old(self, o)
            setattr(B, m, f)
_h = R.__hash__, I.__hash__, B.__hash__
_install_scalar()
R.__hash__, I.__hash__, B.__hash__ = _h


# ---- numpy functions -------------------------------------------------------
class _Ufunc:
    """a numpy ufunc: elementwise call, out=, where=, and the methods at, reduce, accumulate, outer"""
    def __init__(self, fn, nin, kind):
        self.fn, self.nin, self.nout, self.kind = fn, nin, 1, kind
        self.__name__ = 'ufunc'

    def __call__(self, *args, out=None, where=True, dtype=None, casting=None, **k):
        if k: raise EngineError('ufunc argument %s not modelled' % sorted(k))
        if len(args) > self.nin: out = args[self.nin]
        if isinstance(out, tuple): out = out[0]
        args = args[:self.nin]
        if where is not True:
            w = conv_index(asym(where))
            bs = np.broadcast_arrays(w, *[_raw(asym(v)) for v in args])
            tgt = out if out is not None else np_zeros(bs[0].shape)
            w = np.broadcast_to(w, tgt.shape)
            vs = [np.broadcast_to(v, tgt.shape) for v in bs[1:]]
            for ix in np.ndindex(tgt.shape):
                if w[ix]: tgt[ix] = self.fn(*[v[ix] for v in vs])
            return tgt
        r = ew(self.fn, *args, kind=self.kind)
        if dtype is not None: r = asym(r).astype(dtype)[()]
        if out is not None:
            out[...] = r
            return out
        return r

    def at(self, a, ix, *v):
        ix = conv_index(ix)
        if isinstance(ix, tuple):
            ixs = [tuple(int(k) for k in t) for t in zip(*[q.reshape(-1) for q in np.broadcast_arrays(*ix)])]
            shp = np.broadcast_arrays(*ix)[0].shape
        elif isinstance(ix, slice): ixs = list(range(*ix.indices(len(a)))); shp = (len(ixs),)
        else:
            ix = np.asarray(ix)
            if ix.dtype == bool: ix = np.flatnonzero(ix)
            shp = ix.shape; ixs = [int(k) for k in ix.reshape(-1)]
        if v: vs = np.broadcast_to(_raw(asym(v[0])), shp).reshape(-1)
        for j, i in enumerate(ixs):
            a[i] = self(a[i], vs[j]) if v else self(a[i])

    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False, **k):
        a = asym(a)
        red = {'add': np_sum, 'multiply': np_prod, 'maximum': np_max, 'minimum': np_min, 'fmax': np_max, 'fmin': np_min, 'logical_and': np_all, 'logical_or': np_any}.get(self.__name__)
        if red is not None: return red(a, axis=axis, keepdims=keepdims, **k)
        if k or keepdims: raise EngineError('ufunc %s.reduce arguments not modelled' % self.__name__)
        if axis is None: a, axis = a.reshape(-1), 0
        a = np.moveaxis(a, axis, 0)
        if not len(a): raise EngineError('ufunc %s.reduce of nothing not modelled' % self.__name__)
        r = a[0]
        for i in range(1, len(a)): r = self(r, a[i])
        return r

    def accumulate(self, a, axis=0, **k):
        a = asym(a).copy()
        b = np.moveaxis(a, axis, 0)
        for i in range(1, len(b)): b[i] = self(b[i - 1], b[i])
        return a

    def outer(self, a, b):
        a, b = asym(a), asym(b)
        return self(a.reshape(a.shape + (1,) * b.ndim), b)


def _f1(fn, kind='f'):
    return _Ufunc(fn, 1, kind)


def _f2(fn, kind=None):
    return _Ufunc(fn, 2, kind)


def _axis_reduce(fn):
    def g(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None, **kw):
        a = asym(a)
        if where is not None:
            a = a[np.broadcast_to(conv_index(asym(where)), a.shape)]
        if initial is not None and axis is None:
            return fn([cast_scalar(initial, a.kind)] + list(_raw(a).reshape(-1)), a.kind)
        if axis is None:
            return fn(list(_raw(a).reshape(-1)), a.kind)
        raw = np.moveaxis(_raw(a), axis, -1)
        o = np.empty(raw.shape[:-1], dtype=object)
        for ix in np.ndindex(o.shape):
            o[ix] = fn(list(raw[ix]), a.kind)
        if o.shape == ():
            return o[()]
        r = mk(o)
        if keepdims:
            r = r.reshape(tuple(1 if i == axis % a.ndim else s for i, s in enumerate(a.shape)))
        return r
    return g


def _sum(vs, kind):
    acc = R(Fraction(0)) if kind == 'f' else 0
    if kind == 'b':
        nsym = [v for v in vs if isinstance(v, B)]
        acc = builtins.sum(1 for v in vs if not isinstance(v, B) and v)
        if nsym:
            return I.mk(z3.simplify(z3.Sum([z3.If(v.e, z3.IntVal(1), z3.IntVal(0)) for v in nsym] + [z3.IntVal(acc)])))
        return acc
    for v in vs:
        acc = acc + v
    return acc
def _prod(vs, kind):
    acc = R(Fraction(1)) if kind == 'f' else 1
    for v in vs:
        acc = acc * _num(v)
    return acc
def _maxl(vs, kind):
    if not vs:
        raise ValueError("zero-size array to reduction operation maximum which has no identity")
    if kind == 'b': return b_or(*vs)
    acc = vs[0]
    for v in vs[1:]:
        acc = smax(acc, v)
    return acc
def _minl(vs, kind):
    if not vs:
        raise ValueError("zero-size array to reduction operation minimum which has no identity")
    if kind == 'b': return b_and(*vs)
    acc = vs[0]
    for v in vs[1:]:
        acc = smin(acc, v)
    return acc


np_sum = _axis_reduce(_sum)
np_prod = _axis_reduce(_prod)
np_max = _axis_reduce(_maxl)
np_min = _axis_reduce(_minl)
np_any = _axis_reduce(lambda vs, k: b_or(*vs))
np_all = _axis_reduce(lambda vs, k: b_and(*vs))
def _mean(vs, k):
    if not vs:
        return R(NAN)
    return R.of(_sum(vs, k)) / len(vs)
np_mean = _axis_reduce(_mean)
def np_std(a, axis=None, **kw):
    a = asym(a).reshape(-1)
    m = np_mean(a)
    return sqrt(np_mean((a - m) ** 2))
def np_var(a, **kw):
    a = asym(a).reshape(-1)
    return np_mean((a - np_mean(a)) ** 2)


def np_cumsum(a, axis=None, **kw):
    a = asym(a)
    vs = list(_raw(a).reshape(-1))
    if axis is not None and a.ndim > 1:
        r = asym(a).copy()
        q = np.moveaxis(r, axis, 0)
        for i in range(1, len(q)): q[i] = q[i - 1] + q[i]
        return r
    out = []
    acc = R(Fraction(0)) if a.kind == 'f' else 0
    for v in vs:
        acc = acc + _num(v)
        out.append(acc)
    return asym(out, 'f' if a.kind == 'f' else 'i')


def np_diff(a, n=1, axis=-1):
    a = asym(a)
    for _ in range(n):
        if a.ndim == 1:
            a = a[1:] - a[:-1]
        else:
            raw = np.moveaxis(_raw(a), axis, 0)
            a = mk(np.moveaxis(_raw(mk(raw[1:], a.kind) - mk(raw[:-1], a.kind)), 0, axis), a.kind)
    return a


def np_argsort(a, axis=-1, **kw):
    vs = list(_raw(asym(a)).reshape(-1))
    idx = list(range(len(vs)))
    # stable insertion sort, forking on comparisons
    for i in range(1, len(idx)):
        j = i
        while j > 0 and builtins.bool(_num(vs[idx[j]]) < _num(vs[idx[j - 1]])):
            idx[j], idx[j - 1] = idx[j - 1], idx[j]
            j -= 1
    return asym(idx, 'i')


def np_sort(a, axis=-1, **kw):
    a = asym(a)
    ix = np_argsort(a)
    return a.reshape(-1)[ix]


def np_argmax(a, axis=None):
    vs = list(_raw(asym(a)).reshape(-1))
    if not vs:
        raise ValueError("attempt to get argmax of an empty sequence")
    best = 0
    for i in range(1, len(vs)):
        if builtins.bool(_num(vs[i]) > _num(vs[best])):
            best = i
    return best


def np_argmin(a, axis=None):
    vs = list(_raw(asym(a)).reshape(-1))
    if not vs:
        raise ValueError("attempt to get argmin of an empty sequence")
    best = 0
    for i in range(1, len(vs)):
        if builtins.bool(_num(vs[i]) < _num(vs[best])):
            best = i
    return best


def np_nonzero(a):
    a = asym(a)
    m = _conv_index_one(ew(_tob, a, kind='b') if a.kind != 'b' else a)
    return tuple(asym(v) for v in np.nonzero(m))


def np_where(c, *args):
    if not args:
        return np_nonzero(c)
    x, y = args
    k = join_kind([kind_of(asym(x)), kind_of(asym(y))])
    return ew(lambda c_, a, b: ite(_tob(c_), cast_scalar(a, k), cast_scalar(b, k)), c, x, y, kind=k)


def np_interp(x, xp, fp, left=None, right=None, period=None):
    xp = list(_raw(asym(xp, 'f')).reshape(-1)); fp = list(_raw(asym(fp, 'f')).reshape(-1))
    if len(xp) == 0:
        raise ValueError("array of sample points is empty")
    l = fp[0] if left is None else R.of(left)
    r = fp[-1] if right is None else R.of(right)
    def one(v):
        v = R.of(v)
        if is_special(v.p): return v
        # numpy: j = last index with xp[j] <= v
        res = ite(v < xp[0], l, r)
        if builtins.bool(v < xp[0]): return l
        if builtins.bool(v > xp[-1]): return r
        for j in range(len(xp) - 1, -1, -1):
            if builtins.bool(xp[j] <= v):
                if j == len(xp) - 1: return fp[-1]
                if builtins.bool(v == xp[j]): return fp[j]
                return fp[j] + (fp[j + 1] - fp[j]) * core.div(v - xp[j], xp[j + 1] - xp[j])
        return l
    return ew(one, x, kind='f')


def np_searchsorted(a, v, side='left', sorter=None):
    a = list(_raw(asym(a)).reshape(-1))
    def one(x):
        n = [(_num(t) < x) if side == 'left' else (_num(t) <= x) for t in a]
        return _sum([_tob(t) for t in n], 'b')
    return ew(one, v, kind='i')


def np_digitize(x, bins, right=False):
    return np_searchsorted(bins, x, 'left' if right else 'right')


def np_bincount(x, weights=None, minlength=0):
    x = [builtins.int(v) for v in asym(x).reshape(-1)]
    n = builtins.max([minlength] + [v + 1 for v in x])
    if weights is None:
        out = asym([0] * n, 'i')
        for v in x: out[v] = out[v] + 1
    else:
        w = asym(weights, 'f').reshape(-1)
        out = np_zeros(n)
        for v, ww in zip(x, w): out[v] = out[v] + ww
    return out


def np_histogram(a, bins=10, range=None, weights=None, density=None):
    a = asym(a, 'f').reshape(-1)
    if isinstance(bins, (int, I)):
        nb = builtins.int(bins)
        lo, hi = (np_min(a), np_max(a)) if range is None else (R.of(range[0]), R.of(range[1]))
        edges = np_linspace(lo, hi, nb + 1)
    else:
        edges = asym(bins, 'f'); nb = len(edges) - 1
    out = np_zeros(nb) if weights is not None else asym([0] * nb, 'i')
    for k_, v in enumerate(a):
        w = 1 if weights is None else asym(weights, 'f').reshape(-1)[k_]
        for j in builtins.range(nb):
            inb = (v >= edges[j]) and ((v < edges[j + 1]) if j < nb - 1 else (v <= edges[j + 1]))
            if builtins.bool(inb):
                out[j] = out[j] + w
                break
    if density:
        raise EngineError('histogram density')
    return out, edges


def _shape(s):
    if isinstance(s, (int, I, np.integer)):
        s = builtins.int(s)
        return s
    if isinstance(s, R):
        raise TypeError("'float' object cannot be interpreted as an integer")
    if isinstance(s, np.ndarray):
        s = tuple(s)
    return tuple(_shape(v) for v in s)


def _const(v):
    def g(shape=(), dtype=None, order=None, **kw):
        k = kind_of_dtype(dtype) or 'f'
        sh = _shape(shape)
        out = np.empty(sh, dtype=object)
        cv = cast_scalar(v, k if k != 'O' else 'f')
        for ix in np.ndindex(out.shape):
            out[ix] = cv
        return mk(out, k)
    return g


np_zeros = _const(0)
np_ones = _const(1)


def np_full(shape, v, dtype=None, **kw):
    k = kind_of_dtype(dtype) or kind_of(v)
    r = np_zeros(shape, dtype=kind_type(k))
    r[...] = v
    return r


def _like(f):
    def g(a, dtype=None, **kw):
        a = asym(a)
        return f(a.shape, dtype=dtype if dtype is not None else kind_type(a.kind))
    return g


def np_array(x, dtype=None, copy=True, ndmin=0, **kw):
    k = kind_of_dtype(dtype)
    if isinstance(x, (str, dict)) or x is None or isinstance(x, types.FunctionType):
        return np.array(x)
    if isinstance(x, np.ndarray) and not isinstance(x, SymArray) and x.dtype.kind not in 'fiubO':
        return np.array(x)
    if isinstance(x, (list, tuple)) and any(isinstance(v, str) for v in x):
        return np.array(x)
    if isinstance(x, (map, zip, filter)) or isinstance(x, types.GeneratorType):
        raise EngineError("np.array of an iterator")
    r = asym(x, k)
    r = r.copy() if r is x or (isinstance(x, np.ndarray) and np.shares_memory(_raw(r), x.view(np.ndarray))) else r
    while r.ndim < ndmin:
        r = r[None]
    return r


def np_asarray(x, dtype=None, **kw):
    k = kind_of_dtype(dtype)
    if isinstance(x, SymArray) and (k is None or k == x.kind):
        return x
    return np_array(x, dtype)


def np_arange(*args, dtype=None, **kw):
    args = list(args)
    if len(args) == 4:
        dtype = args.pop()
    start, step = 0, 1
    if len(args) == 1: stop = args[0]
    elif len(args) == 2: start, stop = args
    else: start, stop, step = args
    if 'step' in kw: step = kw['step']
    if all(isinstance(v, (int, I, np.integer)) for v in (start, stop, step)):
        k = kind_of_dtype(dtype) or 'i'
        return asym([cast_scalar(v, k) for v in builtins.range(builtins.int(start), builtins.int(stop), builtins.int(step))], k)
    k = kind_of_dtype(dtype) or 'f'
    start, stop, step = R.of(start), R.of(stop), R.of(step)
    n = core.div(stop - start, step).ceil()
    n = builtins.max(0, builtins.int(n))
    return asym([cast_scalar(start + step * i, k) for i in builtins.range(n)], k) if n else np_zeros(0, dtype=kind_type(k))


def np_linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, **kw):
    n = builtins.int(num)
    a, b = R.of(a), R.of(b)
    d = (n - 1) if endpoint else n
    step = core.div(b - a, R.of(d)) if d else R(NAN)
    out = [a + step * i if d else a for i in builtins.range(n)]
    if endpoint and n > 1: out[-1] = b
    r = asym(out, 'f') if n else np_zeros(0)
    return (r, step) if retstep else r


class NotModelled:
    """a value nobody is expected to use (any use stops the check)"""
    def __init__(self, why): self.__dict__['why'] = why
    def _no(self, *a, **k): raise EngineError(self.__dict__['why'])
    __getattr__ = __len__ = __iter__ = __getitem__ = __array__ = __add__ = __mul__ = __rmul__ = __radd__ = __sub__ = __eq__ = __bool__ = _no


def np_logspace(a, b, num=50, **kw):
    if num > 500: return NotModelled('numpy.logspace with %d points' % num)
    return ew(lambda v: R(Fraction(10)) ** v, np_linspace(a, b, num))


def np_round(x, decimals=0, **kw):
    if decimals:
        return ew(lambda v: round(R.of(v), builtins.int(decimals)), x, kind='f')
    def one(v):
        if isinstance(v, (int, I)) and not isinstance(v, bool): return v
        v = R.of(v)
        if is_special(v.p): return v
        return R.of(v.rint())
    return ew(one, x)


def _flo(m):
    def one(v):
        v = R.of(v)
        if is_special(v.p): return v
        return R.of(getattr(v, m)())
    return one


def np_clip(a, lo=None, hi=None, out=None, a_min=None, a_max=None, **kw):
    r = a
    lo = a_min if lo is None else lo
    hi = a_max if hi is None else hi
    if lo is not None: r = ew(smax, r, lo)
    if hi is not None: r = ew(smin, r, hi)
    if out is not None:
        out[...] = r
        return out
    return r


def np_repeat(a, n, axis=None):
    a = asym(a)
    if axis not in (None, 0):
        raise EngineError('repeat axis')
    if isinstance(n, (list, tuple, np.ndarray)):
        n = [builtins.int(v) for v in asym(n).reshape(-1)]
        if any(v < 0 for v in n):
            raise ValueError("repeats may not contain negative values.")
        if len(n) == 1: n = n[0]
        r = np.repeat(_raw(a), n, axis=axis)
    else:
        r = np.repeat(_raw(a), builtins.int(n), axis=axis)
    return mk(r, a.kind)


def np_take(a, ix, axis=None, **kw):
    a = asym(a)
    ix = ix if isinstance(ix, np.ndarray) else asym(ix)
    ix = _conv_index_one(ix)
    r = np.take(_raw(a), ix, axis=axis)
    if not isinstance(r, np.ndarray): return r
    if r.ndim == 0: return r[()]
    return mk(r, a.kind)


def np_dot(a, b):
    a, b = asym(a), asym(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.ndim == 1 and b.ndim == 1:
        if a.shape != b.shape:
            raise ValueError("shapes not aligned")
        return _sum([_mul(x, y) for x, y in zip(_raw(a), _raw(b))], join_kind([a.kind, b.kind]))
    r = np.dot(_raw(a), _raw(b))
    return mk(r) if isinstance(r, np.ndarray) else r


def np_modf(x):
    def fr(v):
        v = R.of(v); return v - R.of(v.trunc())
    def ip(v):
        return R.of(R.of(v).trunc())
    return ew(fr, x, kind='f'), ew(ip, x, kind='f')


def np_isclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    return ew(lambda x, y: abs(R.of(x) - R.of(y)) <= R.of(atol) + R.of(rtol) * abs(R.of(y)), a, b, kind='b')


def np_append(a, v, axis=None):
    a, v = asym(a), asym(v)
    if axis is None:
        return np_concatenate([a.reshape(-1), v.reshape(-1)])
    return np_concatenate([a, v], axis)


def np_concatenate(seq, axis=0, **kw):
    seq = [asym(s) for s in seq]
    k = join_kind([s.kind for s in seq])
    seq = [s if s.kind == k else s.astype(kind_type(k)) for s in seq]
    return mk(np.concatenate([_raw(s) for s in seq], axis=axis), k)


def np_stack(seq, axis=0, **kw):
    seq = [asym(s) for s in seq]
    k = join_kind([s.kind for s in seq])
    return mk(np.stack([_raw(s.astype(kind_type(k))) for s in seq], axis=axis), k)


def np_unique(a, return_index=False, return_inverse=False, return_counts=False, **kw):
    a = asym(a)
    s = np_sort(a)
    out = []
    cnt = []
    for v in s:
        if out and builtins.bool(out[-1] == v):
            cnt[-1] += 1
        else:
            out.append(v); cnt.append(1)
    res = [asym(out, a.kind)]
    if return_index:
        ii = []
        for o in out:
            for j, v in enumerate(a.reshape(-1)):
                if builtins.bool(v == o):
                    ii.append(j); break
        res.append(asym(ii, 'i'))
    if return_inverse:
        inv = []
        for v in a.reshape(-1):
            for j, o in enumerate(out):
                if builtins.bool(v == o):
                    inv.append(j); break
        res.append(asym(inv, 'i'))
    if return_counts:
        res.append(asym(cnt, 'i'))
    return res[0] if len(res) == 1 else tuple(res)


def np_squeeze(a, axis=None):
    if isinstance(a, (R, I, B, int, float)): return asym(a)
    a = asym(a)
    r = np.squeeze(_raw(a), axis=axis)
    return mk(np.asarray(r, dtype=object) if not isinstance(r, np.ndarray) else r, a.kind)


def np_isnan(x):
    return ew(lambda v: isinstance(v, R) and is_special(v.p) and v.p != v.p or (isinstance(v, float) and v != v), x, kind='b')
def np_isinf(x):
    return ew(lambda v: isinstance(v, R) and is_special(v.p) and v.p in (INF, -INF), x, kind='b')
def np_isfinite(x):
    return ew(lambda v: not (isinstance(v, R) and is_special(v.p)) , x, kind='b')


def np_sign(x):
    def one(v):
        if isinstance(v, (int, I)): return ite(v > 0, 1, ite(v < 0, -1, 0))
        return ite(v > 0, R(Fraction(1)), ite(v < 0, R(Fraction(-1)), R(Fraction(0))))
    return ew(one, x)


def np_trapz(y, x=None, dx=1.0, axis=-1):
    y = asym(y, 'f')
    if x is None:
        d = R.of(dx)
        return np_sum(d * (y[1:] + y[:-1]) / 2)
    d = np_diff(asym(x, 'f'))
    return np_sum(d * (y[1:] + y[:-1]) / 2)


def np_count_nonzero(a, **kw):
    return np_sum(ew(_tob, asym(a), kind='b'), axis=kw.get('axis'))


def np_array_equal(a, b, **kw):
    a, b = asym(a), asym(b)
    if a.shape != b.shape: return False
    return np_all(a == b)


def np_allclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    return np_all(np_isclose(a, b, rtol, atol))


def np_setdiff(a, b):
    return [v for v in np_unique(a) if not builtins.any(builtins.bool(v == w) for w in b)]


def np_cross(a, b, **kw):
    a, b = asym(a), asym(b)
    if a.shape[-1] == 2:
        return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
    return np_stack([a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1],
                     a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2],
                     a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]], axis=-1)


def np_meshgrid(*xs, indexing='xy', **kw):
    rs = np.meshgrid(*[_raw(asym(x)) for x in xs], indexing=indexing)
    return [mk(r, asym(x).kind) for r, x in zip(rs, xs)]


def np_isin(a, b, **kw):
    b = asym(b)
    return ew(lambda v: b_or(*[v == w for w in b.reshape(-1)]) if b.size else False, asym(a), kind='b')


def np_select(conds, choices, default=0):
    r = default
    for c, ch in reversed(list(zip(conds, choices))):
        r = np_where(c, ch, r)
    return r


def np_piecewise(x, condlist, funclist, *a, **k):
    x = asym(x)
    out = np_zeros(x.shape, dtype=kind_type(x.kind))
    fl = list(funclist); cl = [asym(c) for c in condlist]
    if len(fl) == len(cl) + 1:
        rest = np_zeros(x.shape, dtype=bool)
        for c in cl: rest = rest | c
        cl.append(~rest)
    for c, f in zip(cl, fl):
        m = conv_index(c)
        out[m] = f(x[m]) if callable(f) else f
    return out


def np_vectorize(f, *a, **k):
    return lambda *args: ew(f, *args)


def np_polyval(p, x):
    r = 0 * x
    for c in asym(p):
        r = r * x + c
    return r


def np_outer(a, b):
    a, b = asym(a).reshape(-1), asym(b).reshape(-1)
    return a[:, None] * b[None, :]


UFUNCS = dict(
    add=_f2(_add), subtract=_f2(_sub), multiply=_f2(_mul), divide=_f2(_div), true_divide=_f2(_div),
    floor_divide=_f2(_fdiv), mod=_f2(_mod), remainder=_f2(_mod), fmod=_f2(_fmod), power=_f2(_pow), float_power=_f2(_pow),
    negative=_f1(_neg, None), positive=_f1(lambda v: v, None), absolute=_f1(lambda v: abs(_num(v)), None), abs=_f1(lambda v: abs(_num(v)), None),
    fabs=_f1(lambda v: abs(R.of(v))), sqrt=_f1(lambda v: sqrt(v)), square=_f1(lambda v: _num(v) * _num(v), None),
    cbrt=_f1(lambda v: funcs.ufpow(R.of(v), R(Fraction(1, 3)))),
    reciprocal=_f1(lambda v: 1 / R.of(v)),
    exp=_f1(funcs.exp), expm1=_f1(funcs.expm1), log=_f1(funcs.log), log10=_f1(funcs.log10), log1p=_f1(funcs.log1p),
    log2=_f1(lambda v: funcs.log(v, 'log2', math.log2)),
    sin=_f1(funcs.sin), cos=_f1(funcs.cos), tan=_f1(funcs.tan), arcsin=_f1(funcs.arcsin), arccos=_f1(funcs.arccos),
    arctan=_f1(funcs.arctan), arctan2=_f2(lambda a, b: funcs.arctan2(a, b), 'f'), tanh=_f1(funcs.tanh), sinh=_f1(funcs.sinh), cosh=_f1(funcs.cosh),
    hypot=_f2(lambda a, b: sqrt(R.of(a) * R.of(a) + R.of(b) * R.of(b)), 'f'),
    floor=_f1(_flo('floor')), ceil=_f1(_flo('ceil')), trunc=_f1(_flo('trunc')), rint=_f1(_flo('rint')),
    maximum=_f2(smax), minimum=_f2(smin), fmax=_f2(smax), fmin=_f2(smin),
    logical_and=_f2(lambda a, b: b_and(a, b), 'b'), logical_or=_f2(lambda a, b: b_or(a, b), 'b'), logical_xor=_f2(_xor, 'b'),
    logical_not=_f1(lambda v: b_not(_tob(v)), 'b'), invert=_f1(_inv, None), bitwise_not=_f1(_inv, None),
    bitwise_and=_f2(_and), bitwise_or=_f2(_or), bitwise_xor=_f2(_xor),
    equal=_f2(_c('eq'), 'b'), not_equal=_f2(_c('ne'), 'b'), less=_f2(_c('lt'), 'b'), less_equal=_f2(_c('le'), 'b'),
    greater=_f2(_c('gt'), 'b'), greater_equal=_f2(_c('ge'), 'b'),
    isnan=np_isnan, isinf=np_isinf, isfinite=np_isfinite, sign=np_sign, signbit=_f1(lambda v: v < 0, 'b'),
    deg2rad=_f1(lambda v: R.of(v) * funcs.PI / 180), rad2deg=_f1(lambda v: R.of(v) * 180 / funcs.PI),
    copysign=_f2(lambda a, b: ite(R.of(b) >= 0, abs(R.of(a)), -abs(R.of(a))), 'f'),
    heaviside=_f2(lambda a, b: ite(R.of(a) > 0, R(Fraction(1)), ite(R.of(a) < 0, R(Fraction(0)), R.of(b))), 'f'),
)

STRUCT = ['rollaxis', 'array_split', 'resize', 'diagonal', 'reshape', 'transpose', 'ravel', 'atleast_1d', 'atleast_2d', 'expand_dims', 'broadcast_to', 'tile', 'flip', 'fliplr',
          'flipud', 'roll', 'swapaxes', 'moveaxis', 'rot90', 'diag', 'triu', 'tril', 'delete', 'take_along_axis', 'copy']

OVERRIDES = dict(
    sum=np_sum, prod=np_prod, max=np_max, amax=np_max, min=np_min, amin=np_min, any=np_any, all=np_all, mean=np_mean, average=None,
    std=np_std, var=np_var, cumsum=np_cumsum, diff=np_diff, argsort=np_argsort, sort=np_sort, argmax=np_argmax, argmin=np_argmin,
    nonzero=np_nonzero, where=np_where, interp=np_interp, searchsorted=np_searchsorted, digitize=np_digitize, bincount=np_bincount,
    histogram=np_histogram, zeros=np_zeros, ones=np_ones, empty=np_zeros, full=np_full, zeros_like=_like(np_zeros), ones_like=_like(np_ones),
    empty_like=_like(np_zeros), array=np_array, asarray=np_asarray, ascontiguousarray=np_asarray, asfortranarray=np_asarray, asanyarray=np_asarray,
    arange=np_arange, linspace=np_linspace, logspace=np_logspace, round=np_round, around=np_round, round_=np_round, clip=np_clip,
    repeat=np_repeat, take=np_take, dot=np_dot, matmul=np_dot, inner=np_dot, vdot=np_dot, modf=np_modf, isclose=np_isclose, append=np_append,
    concatenate=np_concatenate, hstack=lambda s, **k: np_concatenate([v if v.ndim else v.reshape(1) for v in map(asym, s)], axis=0 if asym(s[0]).ndim <= 1 else 1),
    vstack=lambda s, **k: np_concatenate([v if v.ndim > 1 else v.reshape(1, -1) for v in map(asym, s)], axis=0),
    stack=np_stack, unique=np_unique, squeeze=np_squeeze, trapz=np_trapz, count_nonzero=np_count_nonzero, array_equal=np_array_equal,
    allclose=np_allclose, cross=np_cross, meshgrid=np_meshgrid, isin=np_isin, in1d=np_isin, select=np_select, piecewise=np_piecewise,
    vectorize=np_vectorize, polyval=np_polyval, outer=np_outer, nan_to_num=lambda a, **k: ew(lambda v: R(Fraction(0)) if is_special(R.of(v).p) else v, a),
    int_=np_int_, int64=np_int_, int32=np_int_, intp=np_int_, float64=np_float64, double=np_float64, float_=np_float64, float32=np_float64,
    bool_=np_bool_, integer=sym_int, floating=sym_float, full_like=lambda a, v, **k: np_full(asym(a).shape, v, dtype=kind_type(asym(a).kind)),
    nansum=np_sum, nanmax=np_max, nanmin=np_min, flatnonzero=lambda a: np_nonzero(asym(a).reshape(-1))[0],
    fromiter=lambda it, dtype=None, **k: asym(list(it), kind_of_dtype(dtype)),
    isscalar=lambda x: isinstance(x, (R, I, B, int, float, str, bool)),
    shape=lambda a: asym(a).shape, size=lambda a: asym(a).size, ndim=lambda a: asym(a).ndim,
    iscomplexobj=lambda a: False, real=lambda a: a, imag=lambda a: 0 * a,
    split=lambda a, n, axis=0: [mk(s, asym(a).kind) for s in np.split(_raw(asym(a)), n if isinstance(n, int) else [int(v) for v in n], axis=axis)],
    ix_=lambda *a: np.ix_(*[conv_index(asym(v)) for v in a]),
    errstate=np.errstate, seterr=np.seterr, ndarray=np.ndarray, newaxis=None, pi=funcs.PI, e=R(frac(math.e)), inf=R(INF), nan=R(NAN), infty=R(INF),
    NaN=R(NAN), Inf=R(INF), dtype=lambda d: _Dtype(kind_of_dtype(d)), iterable=np.iterable,
)


def _copyto(dst, src, casting=None, where=True):
    if where is True: dst[...] = src
    else:
        w = conv_index(asym(where))
        dst[w] = asym(np.broadcast_to(_raw(asym(src)), dst.shape))[w]


def _place(a, mask, vals):
    ix = np.flatnonzero(conv_index(asym(mask)))
    v = _raw(asym(vals)).reshape(-1)
    for j, i in enumerate(ix): a[np.unravel_index(i, a.shape)] = v[j % len(v)]


def _putmask(a, mask, vals):
    v = _raw(asym(vals)).reshape(-1)
    for i in np.flatnonzero(conv_index(asym(mask))): a[np.unravel_index(i, a.shape)] = v[i % len(v)]


def _put(a, ix, vals, mode=None):
    v = _raw(asym(vals)).reshape(-1)
    for j, i in enumerate(np.atleast_1d(conv_index(asym(ix, 'i')))): a[np.unravel_index(int(i) % a.size, a.shape)] = v[j % len(v)]


def _columns(seq):
    return np_concatenate([v if v.ndim > 1 else v.reshape(-1, 1) for v in map(asym, seq)], axis=1)


def _insert(a, i, v, axis=None):
    a, v = asym(a), asym(v)
    if axis is None: a, axis = a.reshape(-1), 0
    k = join_kind([a.kind, v.kind]) if a.kind != v.kind else a.kind
    return mk(np.insert(_raw(a), conv_index(i), _raw(v), axis=axis), a.kind)


def _divmod(a, b):
    return UFUNCS['floor_divide'](a, b), UFUNCS['mod'](a, b)
UFUNCS['divmod'] = _divmod


def _einsum(spec, *ops, **k):
    if '->' not in spec or '.' in spec or k: raise EngineError('einsum %s not modelled' % spec)
    ins, out = spec.replace(' ', '').split('->')
    ins = ins.split(','); ops = [asym(o) for o in ops]
    dim = {}
    for t, o in zip(ins, ops):
        for c, n in zip(t, o.shape): dim[c] = n
    rest = [c for c in dim if c not in out]
    res = np.empty([dim[c] for c in out], dtype=object)
    for ix in np.ndindex(res.shape):
        tot = 0
        for jx in np.ndindex(tuple(dim[c] for c in rest)):
            at = dict(zip(out, ix)); at.update(zip(rest, jx))
            p = None
            for t, o in zip(ins, ops):
                v = _raw(o)[tuple(at[c] for c in t)]
                p = v if p is None else p * v
            tot = tot + p
        res[ix] = tot
    return mk(res, join_kind([o.kind for o in ops])) if out else res[()]


def _apply(f, axis, a, *args, **k):
    a = np.moveaxis(asym(a), axis, -1)
    return np_stack([asym(f(a[ix], *args, **k)) for ix in np.ndindex(a.shape[:-1])]).reshape(a.shape[:-1] + asym(f(a[(0,) * (a.ndim - 1)], *args, **k)).shape)


def _median(a, axis=None, **k):
    if axis is not None or k: raise EngineError('median arguments not modelled')
    v = np_sort(asym(a).reshape(-1)); n = len(v)
    return v[n // 2] * R(Fraction(1)) if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2


def _pad(a, width, mode='constant', constant_values=0, **k):
    a = asym(a)
    if mode not in ('constant', 'edge') or k: raise EngineError('pad %s not modelled' % mode)
    if mode == 'edge': return mk(np.pad(_raw(a), width, mode='edge'), a.kind)
    return mk(np.pad(_raw(a), width, mode='constant', constant_values=cast_scalar(constant_values, a.kind)), a.kind)


def _eye(n, m=None, k=0, dtype=float, **kw):
    return np_array(np.eye(n, m, k).tolist(), dtype=dtype)


class _RC:
    def __init__(self, col): self.col = col
    def __getitem__(self, ix):
        parts = []
        for v in ix if isinstance(ix, tuple) else (ix,):
            if isinstance(v, slice): v = np_arange(v.start or 0, v.stop, v.step or 1) if not isinstance(v.step, complex) else np_linspace(v.start, v.stop, int(abs(v.step)))
            v = asym(v)
            if self.col: v = v.reshape(-1, 1) if v.ndim < 2 else v
            elif v.ndim == 0: v = v.reshape(1)
            parts.append(v)
        return np_concatenate(parts, axis=1 if self.col else 0)


def _lexsort(keys, axis=-1):
    keys = [asym(k) for k in keys]
    ix = list(range(len(keys[0])))
    for k in keys: ix = [ix[int(j)] for j in np_argsort(asym([k[i] for i in ix], k.kind), kind='stable')]
    return asym(ix, 'i')


def _issubdtype(a, b):
    k = kind_of_dtype(a)
    if b in (np.number, 'number'): return k in 'fi'
    if b in (sym_float, np.floating, float): return k == 'f'
    if b in (sym_int, np.integer, int): return k == 'i'
    if b in (np.bool_, bool): return k == 'b'
    raise EngineError('issubdtype %s not modelled' % (b,))


OVERRIDES.update(
    compress=lambda c, a, axis=None: mk(np.compress(conv_index(asym(c)), _raw(asym(a)), axis=axis), asym(a).kind), copyto=_copyto, place=_place, putmask=_putmask, put=_put, extract=lambda c, a: asym(a).reshape(-1)[conv_index(asym(c).reshape(-1))],
    argwhere=lambda a: mk(np.stack([_raw(v) for v in np_nonzero(a)], axis=-1), 'i') if asym(a).ndim else None,
    column_stack=_columns, row_stack=OVERRIDES['vstack'], dstack=lambda s: np_concatenate([v.reshape((1, -1, 1)) if v.ndim == 1 else v[:, :, None] if v.ndim == 2 else v for v in map(asym, s)], axis=2),
    insert=_insert, divmod=_divmod, fix=UFUNCS['trunc'], cumprod=lambda a, axis=None, **k: UFUNCS['multiply'].accumulate(asym(a) if axis is not None else asym(a).reshape(-1), axis or 0),
    ptp=lambda a, axis=None, **k: np_max(a, axis=axis) - np_min(a, axis=axis), eye=_eye, identity=_eye, r_=_RC(False), c_=_RC(True), s_=np.s_,
    ediff1d=lambda a, to_end=None, to_begin=None: np_concatenate([asym(v).reshape(-1) for v in (to_begin, np_diff(asym(a).reshape(-1)), to_end) if v is not None]),
    einsum=_einsum, apply_along_axis=_apply, median=_median, pad=_pad, trace=lambda a, **k: np_sum(asym(a).diagonal()),
    setdiff1d=lambda a, b, **k: asym(np_setdiff(a, b), asym(a).kind), union1d=lambda a, b: np_unique(np_concatenate([asym(a).reshape(-1), asym(b).reshape(-1)])),
    intersect1d=lambda a, b, **k: asym([v for v in np_unique(a) if builtins.any(builtins.bool(v == w) for w in asym(b).reshape(-1))], asym(a).kind),
    choose=lambda c, choices, **k: np_select([asym(c) == i for i in range(len(choices))], choices), lexsort=_lexsort, issubdtype=_issubdtype,
    ndindex=np.ndindex, ndenumerate=lambda a: ((ix, _raw(asym(a))[ix]) for ix in np.ndindex(asym(a).shape)), unravel_index=lambda i, s: np.unravel_index(conv_index(i), s),
)


def np_average(a, axis=None, weights=None, **kw):
    if weights is None: return np_mean(a, axis)
    return np_sum(asym(a) * asym(weights)) / np_sum(asym(weights))
OVERRIDES['average'] = np_average


for _n, _u in UFUNCS.items():
    if isinstance(_u, _Ufunc): _u.__name__ = _n


def call_np(func, args, kwargs):
    name = getattr(func, '__name__', None)
    f = OVERRIDES.get(name) or UFUNCS.get(name)
    if f is not None:
        return f(*args, **kwargs)
    if name in STRUCT:
        return _struct(name)(*args, **kwargs)
    raise EngineError("numpy.%s is not modelled" % name)


def _struct(name):
    real = getattr(np, name)
    def g(a, *args, **kw):
        a = asym(a)
        args = [conv_index(x) if not isinstance(x, (tuple, list)) else tuple(conv_index(v) for v in x) for x in args]
        r = real(_raw(a), *args, **kw)
        if isinstance(r, np.ndarray):
            return mk(r, a.kind)
        return r
    g.__name__ = name
    return g


class _Linalg(types.ModuleType):
    pass


def build_numpy(random_mod):
    m = types.ModuleType('numpy')
    m.__dict__.update(UFUNCS)
    for s in STRUCT:
        m.__dict__[s] = _struct(s)
    m.__dict__.update(OVERRIDES)
    m.random = random_mod
    la = types.ModuleType('numpy.linalg')
    def norm(x, ord=None, axis=None, **kw):
        x = asym(x, 'f')
        if axis is None:
            return sqrt(np_sum(x * x))
        return ew(sqrt, np_sum(x * x, axis=axis))
    la.norm = norm
    m.linalg = la
    m.__version__ = np.__version__
    def missing(name):
        def f(*a, **k):
            raise EngineError("numpy.%s is not modelled" % name)
        f.__name__ = name
        return f
    for n in np.__all__ if hasattr(np, '__all__') else dir(np):
        if n not in m.__dict__ and not n.startswith('_'):
            v = getattr(np, n, None)
            if isinstance(v, type) and issubclass(v, (Exception,)) or isinstance(v, types.ModuleType):
                m.__dict__[n] = v
            elif isinstance(v, type):
                m.__dict__[n] = v
            elif callable(v):
                m.__dict__[n] = missing(n)
            else:
                m.__dict__[n] = v
    m.__all__ = [n for n in m.__dict__ if not n.startswith('_') and n not in ('max', 'min', 'round', 'linalg', 'random', 'abs', 'int_x') or n in ('sum', 'any', 'all')]
    # numpy 1.26 star-import exports sum/any/all/max/min/round/abs? (max, min, round, abs are not in __all__)
    real_all = set(np.__all__)
    m.__all__ = [n for n in m.__dict__ if n in real_all]
    return m


# ---- MATLAB files (scipy.io stand-ins) ---------------------------------------
def matcopy(v):
    """what a MATLAB file keeps of a value"""
    if isinstance(v, (str, type(None))):
        if v is None:
            raise TypeError("Could not convert None (type <class 'NoneType'>) to array")
        return v
    if isinstance(v, dict):
        return {k: matcopy(x) for k, x in v.items()}
    if isinstance(v, np.ndarray) and v.dtype.kind in 'US' if not isinstance(v, SymArray) else False:
        return v.copy()
    if isinstance(v, (list, tuple)) and any(isinstance(x, str) for x in v):
        return list(v)
    a = asym(v)
    if a.kind == 'b':
        a = a.astype(sym_int)
    a = a.copy()
    return a


def matview(v):
    if isinstance(v, str):
        return np.array([v])
    if isinstance(v, (list, dict)) or (isinstance(v, np.ndarray) and not isinstance(v, SymArray)):
        return v
    a = asym(v)
    if a.kind == 'b': a = a.astype(sym_int)
    if a.ndim == 0: return a.reshape(1, 1).copy()
    if a.ndim == 1: return a.reshape(1, -1).copy()
    return a.copy()


def matsqueeze(v):
    v = matview(v)
    return np_squeeze(v) if isinstance(v, SymArray) else v
