"""numpy facade whose arrays can hold symbolic scalars (engine.sym).

`shim` behaves as the numpy module.  Float/complex arrays are object arrays of
python floats / symbolic terms (class SArr); integer, bool and string arrays stay
native unless they contain symbolic values.
"""
import builtins
import functools
import itertools
import math
import types
import numpy as np
from . import sym
from .sym import (SR, SB, SC, S, is_sym, s_add, s_sub, s_mul, s_div, s_neg, s_abs, s_sqrt, s_cmp, s_max,
                  s_min, s_pow, s_mod, s_floordiv, sb_and, sb_or, sb_not, ite, cast, dtkind, tobool, Unsupported)


class _ArrMeta(type):
    def __instancecheck__(cls, x):
        return issubclass(type(x), np.ndarray)


class SArr(np.ndarray, metaclass=_ArrMeta):
    __array_priority__ = 500

    # ------------------------------------------------------------ protocol
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return _ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types_, args, kwargs):
        return _dispatch(func, args, kwargs)

    def __array_finalize__(self, obj):
        pass

    # ------------------------------------------------------------ operators
    def __add__(self, o): return _op2(s_add, np.add, self, o)
    def __radd__(self, o): return _op2(s_add, np.add, o, self)
    def __sub__(self, o): return _op2(s_sub, np.subtract, self, o)
    def __rsub__(self, o): return _op2(s_sub, np.subtract, o, self)
    def __mul__(self, o): return _op2(s_mul, np.multiply, self, o)
    def __rmul__(self, o): return _op2(s_mul, np.multiply, o, self)
    def __truediv__(self, o): return _op2(s_div, np.true_divide, self, o)
    def __rtruediv__(self, o): return _op2(s_div, np.true_divide, o, self)
    def __floordiv__(self, o): return _op2(s_floordiv, np.floor_divide, self, o)
    def __rfloordiv__(self, o): return _op2(s_floordiv, np.floor_divide, o, self)
    def __mod__(self, o): return _op2(s_mod, np.mod, self, o)
    def __rmod__(self, o): return _op2(s_mod, np.mod, o, self)
    def __pow__(self, o): return _op2(s_pow, np.power, self, o)
    def __rpow__(self, o): return _op2(s_pow, np.power, o, self)
    def __neg__(self): return _op1(s_neg, np.negative, self)
    def __pos__(self): return self.copy()
    def __abs__(self): return _op1(s_abs, np.abs, self)
    def __lt__(self, o): return _cmp('lt', np.less, self, o)
    def __le__(self, o): return _cmp('le', np.less_equal, self, o)
    def __gt__(self, o): return _cmp('gt', np.greater, self, o)
    def __ge__(self, o): return _cmp('ge', np.greater_equal, self, o)
    def __eq__(self, o):
        if o is None:
            return wrap(np.zeros(self.shape, dtype=bool))
        return _cmp('eq', np.equal, self, o)
    def __ne__(self, o):
        if o is None:
            return wrap(np.ones(self.shape, dtype=bool))
        return _cmp('ne', np.not_equal, self, o)
    __hash__ = None
    def __and__(self, o): return _op2(_and2, np.bitwise_and, self, o)
    def __rand__(self, o): return _op2(_and2, np.bitwise_and, o, self)
    def __or__(self, o): return _op2(_or2, np.bitwise_or, self, o)
    def __ror__(self, o): return _op2(_or2, np.bitwise_or, o, self)
    def __xor__(self, o): return _op2(_xor2, np.bitwise_xor, self, o)
    def __invert__(self): return _op1(_inv1, np.invert, self)
    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)

    def _iop(self, r):
        if self.dtype != object and isinstance(r, np.ndarray) and r.dtype == object and _has_sym(r):
            _setflat(self, r)
            return self
        if self.dtype.kind in 'iu' and isinstance(r, np.ndarray) and r.dtype == object:
            raise np._core._exceptions.UFuncTypeError if False else TypeError('Cannot cast ufunc output from float64 to int64')
        self[...] = r
        return self

    def __iadd__(self, o): return self._iop(self + o)
    def __isub__(self, o): return self._iop(self - o)
    def __imul__(self, o): return self._iop(self * o)
    def __itruediv__(self, o): return self._iop(self / o)
    def __ifloordiv__(self, o): return self._iop(self // o)
    def __imod__(self, o): return self._iop(self % o)
    def __ipow__(self, o): return self._iop(self ** o)
    def __iand__(self, o): return self._iop(self & o)
    def __ior__(self, o): return self._iop(self | o)

    def __bool__(self):
        if self.size != 1:
            return np.ndarray.__bool__(self)
        x = self.view(np.ndarray).reshape(-1)[0]
        return bool(tobool(x)) if is_sym(x) else bool(x)

    def __float__(self):
        if self.size != 1 or self.ndim > 0:
            if self.ndim > 0:
                raise TypeError('only 0-dimensional arrays can be converted to Python scalars')
        return float(self.view(np.ndarray).reshape(-1)[0])

    def __int__(self):
        if self.ndim > 0:
            raise TypeError('only 0-dimensional arrays can be converted to Python scalars')
        return int(self.view(np.ndarray).reshape(-1)[0])

    def __index__(self):
        return int(self.view(np.ndarray).reshape(-1)[0])

    def __format__(self, spec):
        if self.ndim == 0:
            return format(self.view(np.ndarray).reshape(-1)[0], spec)
        return str(self)

    def __repr__(self):
        return 'SArr' + repr(self.view(np.ndarray).tolist())

    def __str__(self):
        if self.ndim == 0:
            return str(self.view(np.ndarray).reshape(-1)[0])
        return repr(self)

    # ------------------------------------------------------------ indexing
    def __getitem__(self, idx):
        idx = _fix_index(idx, self)
        r = np.ndarray.__getitem__(self, idx)
        if isinstance(r, np.ndarray):
            return r
        return scalar(r)

    def __setitem__(self, idx, val):
        sm = _sym_mask(idx, self)
        if sm is not None:
            _mask_assign(self, sm, val)
            return
        idx = _fix_index(idx, self)
        if isinstance(val, np.ndarray):
            if self.dtype == object:
                if val.dtype != object:
                    val = to_obj(val)
                if type(val) is SArr:
                    val = val.view(np.ndarray)
                if val.ndim == 0 and val.dtype == object:
                    val = val.reshape(-1)[0]
                    _scalar_set(self, idx, val)
                    return
                np.ndarray.__setitem__(self, idx, val)
                return
            if val.dtype == object:
                if self.dtype.kind in 'iu':
                    val = np.array([int(sym.trunc(x)) if is_sym(x) else int(x) for x in val.ravel()], dtype=self.dtype).reshape(val.shape)
                elif self.dtype.kind == 'b':
                    val = np.array([bool(x) for x in val.ravel()], dtype=bool).reshape(val.shape)
            np.ndarray.__setitem__(self, idx, val)
            return
        if isinstance(val, (list, tuple)):
            self.__setitem__(idx, asarray(val))
            return
        _scalar_set(self, idx, val)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(self.shape[0]):
            yield self[i]

    def __contains__(self, x):
        return bool(any_(self == x))

    # ------------------------------------------------------------ attributes
    @property
    def real(self):
        if self.dtype == object:
            return _op1(lambda x: sym.re_im(x)[0], None, self)
        return np.ndarray.real.__get__(self)

    @real.setter
    def real(self, v):
        im = self.imag
        self[...] = _op2(lambda a, b: sym.mkc(a, b), None, _bc(v, self.shape), im)

    @property
    def imag(self):
        if self.dtype == object:
            return _op1(lambda x: sym.re_im(x)[1], None, self)
        return np.ndarray.imag.__get__(self)

    @imag.setter
    def imag(self, v):
        re = self.real
        self[...] = _op2(lambda a, b: sym.mkc(a, b), None, re, _bc(v, self.shape))

    def conj(self): return _op1(sym.s_conj, np.conj, self)
    conjugate = conj

    def astype(self, dtype, order='K', casting='unsafe', subok=True, copy=True):
        if dtype is None:
            dtype = float
        return _cast_array(self, dtype, copy)

    def item(self, *a):
        if a:
            return self.reshape(-1)[a[0]] if len(a) == 1 else self[a]
        if self.size != 1:
            raise ValueError('can only convert an array of size 1 to a Python scalar')
        return self.view(np.ndarray).reshape(-1)[0]

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def get(self, out=None):
        return self

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k): return sum_(self, axis, dtype, out, keepdims)
    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k): return prod_(self, axis, dtype, out, keepdims)
    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k): return mean_(self, axis, dtype, out, keepdims)
    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k): return std_(self, axis, dtype, out, ddof, keepdims)
    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k): return var_(self, axis, dtype, out, ddof, keepdims)
    def max(self, axis=None, out=None, keepdims=False, **k): return max_(self, axis, out, keepdims)
    def min(self, axis=None, out=None, keepdims=False, **k): return min_(self, axis, out, keepdims)
    def any(self, axis=None, out=None, keepdims=False, **k): return any_(self, axis, out, keepdims)
    def all(self, axis=None, out=None, keepdims=False, **k): return all_(self, axis, out, keepdims)
    def cumsum(self, axis=None, dtype=None, out=None): return cumsum_(self, axis, dtype, out)
    def dot(self, o, out=None): return matmul_dot(self, o, out)
    def clip(self, min=None, max=None, out=None, **k): return clip_(self, min, max, out)
    def round(self, decimals=0, out=None): return round_(self, decimals, out)
    def argmax(self, axis=None, out=None, **k): return argmax_(self, axis)
    def argmin(self, axis=None, out=None, **k): return argmin_(self, axis)
    def nonzero(self): return nonzero_(self)
    def copy(self, order='C'):
        return np.ndarray.copy(self, order)
    def __deepcopy__(self, memo):
        return np.ndarray.copy(self)
    def fill(self, v):
        self[...] = v


# ---------------------------------------------------------------- helpers
def wrap(a):
    """any ndarray -> SArr with float/complex data as objects"""
    if not isinstance(a, np.ndarray):
        return a
    if a.dtype.kind in 'fc':
        a = to_obj(a)
    if type(a) is not SArr:
        a = a.view(SArr)
    return a


def to_obj(a):
    b = np.empty(a.shape, dtype=object)
    src = np.asarray(a)
    if src.dtype.kind == 'f':
        src = src.astype(np.float64)
    elif src.dtype.kind == 'c':
        src = src.astype(np.complex128)
    b[...] = src.astype(object) if src.dtype.kind in 'fciub' else src
    return b.view(SArr)


def scalar(x):
    """python scalar out of an object array -> numpy scalar (keeps .dtype etc.)"""
    t = type(x)
    if t is float:
        return np.float64(x)
    if t is complex:
        return np.complex128(x)
    if t is int:
        return np.int64(x) if -2 ** 63 <= x < 2 ** 63 else x
    if t is bool:
        return np.bool_(x)
    return x


def unscalar(x):
    if isinstance(x, np.generic):
        return x.item()
    return x


def _has_sym(a):
    if a.dtype != object:
        return False
    for x in a.ravel().tolist() if type(a) is not SArr else a.view(np.ndarray).ravel().tolist():
        if is_sym(x):
            return True
    return False


def _raw(a):
    """-> plain ndarray of python scalars (object) or native"""
    if isinstance(a, SArr) and isinstance(a, np.ndarray):
        return a.view(np.ndarray)
    return a


def _objarray(x):
    """anything -> plain object ndarray"""
    if isinstance(x, np.ndarray):
        r = x.view(np.ndarray)
        if r.dtype != object:
            r = to_obj(r).view(np.ndarray)
        return r
    if isinstance(x, (list, tuple)):
        return _objarray(asarray(x))
    b = np.empty((), dtype=object)
    b[()] = unscalar(x)
    return b


def simplify_obj(r, prefer_native=True):
    """object ndarray of python scalars -> SArr; all-bool / all-int arrays become native"""
    flat = r.ravel().tolist()
    if flat:
        if all(type(x) is bool for x in flat):
            return np.array(flat, dtype=bool).reshape(r.shape).view(SArr)
        if all(type(x) is int for x in flat):
            try:
                return np.array(flat, dtype=np.int64).reshape(r.shape).view(SArr)
            except OverflowError:
                pass
    return r.view(SArr)


def elementwise2(f, a, b):
    A, B = _objarray(a), _objarray(b)
    if A.ndim == 0 and B.ndim == 0:
        r = f(A[()], B[()])
        return scalar(r)
    bc = np.broadcast(A, B)
    out = np.empty(bc.shape, dtype=object)
    out.ravel()  # contiguous
    flat = out.reshape(-1)
    i = 0
    for x, y in bc:
        flat[i] = f(x, y)
        i += 1
    return simplify_obj(out)


def elementwise1(f, a):
    A = _objarray(a)
    if A.ndim == 0:
        return scalar(f(A[()]))
    out = np.empty(A.shape, dtype=object)
    flat = out.reshape(-1)
    for i, x in enumerate(A.ravel().tolist()):
        flat[i] = f(x)
    return simplify_obj(out)


def _isobj(x):
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(_isobj(y) for y in x)
    return is_sym(x)


def _op2(f, uf, a, b):
    if isinstance(b, str) or isinstance(a, str):
        return NotImplemented
    if _isobj(a) or _isobj(b):
        return elementwise2(f, a, b)
    with np.errstate(all='ignore'):
        return wrap_scalar(uf(np.asarray(_raw(a)), np.asarray(_raw(b))))


def _op1(f, uf, a):
    if _isobj(a) or uf is None:
        return elementwise1(f, a)
    with np.errstate(all='ignore'):
        return wrap_scalar(uf(np.asarray(_raw(a))))


def wrap_scalar(r):
    if isinstance(r, np.ndarray):
        return wrap(r)
    return r


_CMP = {
    'lt': lambda a, b: s_cmp(a, b, 'lt'), 'le': lambda a, b: s_cmp(a, b, 'le'),
    'gt': lambda a, b: s_cmp(b, a, 'lt'), 'ge': lambda a, b: s_cmp(b, a, 'le'),
    'eq': lambda a, b: s_cmp(a, b, 'eq'), 'ne': lambda a, b: s_cmp(a, b, 'ne'),
}


def _cmp(op, uf, a, b):
    if isinstance(b, str):
        return wrap_scalar(uf(np.asarray(_raw(a)), b))
    return _op2(_CMP[op], uf, a, b)


def _and2(a, b):
    if isinstance(a, (SB, bool)) and isinstance(b, (SB, bool)):
        return sb_and(a, b)
    return a & b


def _or2(a, b):
    if isinstance(a, (SB, bool)) and isinstance(b, (SB, bool)):
        return sb_or(a, b)
    return a | b


def _xor2(a, b):
    if isinstance(a, (SB, bool)) and isinstance(b, (SB, bool)):
        return sb_not(_CMP['eq'](a, b)) if is_sym(a) or is_sym(b) else a ^ b
    return a ^ b


def _inv1(a):
    if isinstance(a, (SB, bool)):
        return sb_not(a)
    return ~a


def _fix_index(idx, arr):
    if isinstance(idx, tuple):
        return tuple(_fix1(i) for i in idx)
    return _fix1(idx)


def _fix1(i):
    if isinstance(i, np.ndarray):
        r = i.view(np.ndarray)
        if r.dtype == object:
            flat = r.ravel().tolist()
            if flat and all(isinstance(x, (SB, bool)) for x in flat):
                return np.array([bool(x) for x in flat], dtype=bool).reshape(r.shape)
            if any(isinstance(x, (float, SR)) and not (isinstance(x, SR) and x.isint) for x in flat):
                raise IndexError('arrays used as indices must be of integer (or boolean) type')
            return np.array([int(x) for x in flat], dtype=np.int64).reshape(r.shape)
        return r
    if isinstance(i, SR):
        return i.__index__()
    if isinstance(i, SB):
        return bool(i)
    if isinstance(i, slice):
        f = lambda v: v.__index__() if isinstance(v, SR) else int(v) if isinstance(v, SB) else v
        return slice(f(i.start), f(i.stop), f(i.step))
    if isinstance(i, list):
        if any(is_sym(x) for x in i):
            return [x.__index__() if isinstance(x, SR) else bool(x) if isinstance(x, SB) else x for x in i]
        return i
    return i


def _sym_mask(idx, arr):
    """symbolic boolean mask of the array's own shape (single index)"""
    if isinstance(idx, np.ndarray) and idx.dtype == object and idx.shape == arr.shape:
        flat = idx.view(np.ndarray).ravel().tolist()
        if flat and any(isinstance(x, SB) for x in flat) and all(isinstance(x, (SB, bool)) for x in flat):
            return idx
    return None


def _mask_assign(arr, mask, val):
    if isinstance(val, np.ndarray) and val.ndim > 0 and val.size != 1:
        np.ndarray.__setitem__(arr, _fix1(mask), _raw(val))
        return
    if isinstance(val, (list, tuple)):
        val = asarray(val)
    if isinstance(val, np.ndarray):
        val = val.view(np.ndarray).reshape(-1)[0]
    val = unscalar(val)
    m = mask.view(np.ndarray)
    a = arr.view(np.ndarray)
    for i in np.ndindex(a.shape):
        c = m[i]
        if c is False:
            continue
        if arr.dtype == object:
            a[i] = ite(c, val, a[i])
        elif bool(c):
            a[i] = val
    return


def _scalar_set(arr, idx, val):
    val = unscalar(val)
    if arr.dtype == object:
        if isinstance(val, bool) and False:
            val = float(val)
        t = idx if isinstance(idx, tuple) else (idx,)
        if len(t) == arr.ndim and all(isinstance(i, (int, np.integer)) or (isinstance(i, np.ndarray) and i.ndim == 0 and
                                                                           i.dtype.kind in 'iu') for i in t):
            np.ndarray.__setitem__(arr, idx, val)      # one element: numpy would store the 0-d array itself
            return
        b = np.empty((), dtype=object)
        b[()] = val
        np.ndarray.__setitem__(arr, idx, b)
        return
    if is_sym(val):
        if arr.dtype.kind == 'b':
            val = bool(val)
        elif arr.dtype.kind in 'iu':
            val = int(sym.trunc(val))
        else:
            val = float(val)
    np.ndarray.__setitem__(arr, idx, val)


def _setflat(dst, src):
    for i in np.ndindex(dst.shape):
        dst[i] = src.view(np.ndarray)[i]


def _bc(v, shape):
    A = _objarray(v)
    return np.broadcast_to(A, shape).copy().view(SArr)


def _cast_array(a, dtype, copy=True):
    k = dtkind(dtype)
    if a.dtype == object:
        if k in ('f', 'f4', 'c', 'i', 'u', 'b'):
            if k in ('f', 'f4') and not copy:
                flat = a.view(np.ndarray).ravel().tolist()
                if all(type(x) is float or (isinstance(x, SR) and not x.isint) for x in flat):
                    return a
            out = np.empty(a.shape, dtype=object)
            fl = out.reshape(-1)
            for i, x in enumerate(a.view(np.ndarray).ravel().tolist()):
                fl[i] = cast(x, dtype)
            if k in ('f', 'f4', 'c'):
                return out.view(SArr)
            if k in ('i', 'u'):
                flat = out.ravel().tolist()
                if all(not is_sym(x) for x in flat):
                    dt = np.dtype(dtype) if getattr(dtype, '_symkind', None) is None else np.int64
                    return np.array(flat, dtype=object).astype(dt).reshape(a.shape).view(SArr)
                return out.view(SArr)
            return simplify_obj(out)
        return a.copy() if copy else a
    if k in ('f', 'f4'):
        r = a.view(np.ndarray)
        if r.dtype.kind in 'iu' and k == 'f4':
            r = r.astype(np.float32)
        return to_obj(r.astype(np.float64))
    if k == 'c':
        return to_obj(a.view(np.ndarray).astype(np.complex128))
    if k == 'O':
        return to_obj(a)
    r = np.ndarray.astype(a.view(np.ndarray), _native(dtype), copy=copy)
    return a if (r is a.view(np.ndarray)) or (not copy and r.dtype == a.dtype) else r.view(SArr)


# ---------------------------------------------------------------- creation
def _shape(s):
    if isinstance(s, np.ndarray):
        return tuple(int(x) for x in s.ravel().tolist()) if s.ndim else (int(s),)
    if isinstance(s, (list, tuple)):
        return tuple(x.__index__() if isinstance(x, SR) else x for x in s)
    if isinstance(s, SR):
        return (s.__index__(),)
    return s


def _native(dtype):
    """dtype usable by numpy for non-float kinds"""
    k = getattr(dtype, '_symkind', None)
    if k is None:
        return np.dtype(dtype)
    return np.dtype(np.int64) if k == 'i' else np.dtype(object)


def full(shape, val, dtype=None, order='C', **k):
    shape = _shape(shape)
    kd = dtkind(dtype) if dtype is not None else None
    val = unscalar(val)
    if kd is None:
        if isinstance(val, (bool, int)) and not is_sym(val):
            return np.full(shape, val).view(SArr)
        kd = 'O'
    if isinstance(val, (np.ndarray, list, tuple)):
        r = zeros(shape, dtype or float)
        r[...] = val
        return r
    if kd in ('f', 'f4', 'c', 'O'):
        r = np.empty(shape, dtype=object)
        v = cast(val, dtype) if kd != 'O' else val
        b = np.empty((), dtype=object); b[()] = v
        r[...] = b
        return r.view(SArr)
    if is_sym(val):
        r = np.empty(shape, dtype=object)
        b = np.empty((), dtype=object); b[()] = cast(val, dtype)
        r[...] = b
        return r.view(SArr)
    return np.full(shape, val, dtype=_native(dtype)).view(SArr)


def zeros(shape, dtype=float, order='C', **k):
    kd = dtkind(dtype) if dtype is not None else 'f'
    if kd in ('f', 'f4'):
        return full(shape, 0.0, float)
    if kd == 'c':
        return full(shape, 0j, complex)
    return np.zeros(_shape(shape), dtype=_native(dtype)).view(SArr)


def ones(shape, dtype=float, order='C', **k):
    kd = dtkind(dtype) if dtype is not None else 'f'
    if kd in ('f', 'f4'):
        return full(shape, 1.0, float)
    if kd == 'c':
        return full(shape, 1 + 0j, complex)
    return np.ones(_shape(shape), dtype=_native(dtype)).view(SArr)


def empty(shape, dtype=float, order='C', **k):
    kd = dtkind(dtype) if dtype is not None else 'f'
    if kd in ('f', 'f4', 'c'):
        # uninitialised memory: an arbitrary value the code must not depend on
        return full(shape, 12345.678 if kd != 'c' else complex(12345.678, 0), float if kd != 'c' else complex)
    return np.zeros(_shape(shape), dtype=_native(dtype)).view(SArr)


def _like_dtype(a, dtype):
    if dtype is not None:
        return dtype
    if isinstance(a, np.ndarray) and a.dtype != object:
        return a.dtype
    if isinstance(a, np.ndarray):
        flat = a.view(np.ndarray).ravel()
        if flat.size and all(isinstance(x, (SB, bool)) for x in flat.tolist()):
            return bool
        if any(isinstance(x, (complex, SC)) for x in flat.tolist()):
            return complex
        return float
    return asarray(a).dtype if not _isobj(a) else float


def zeros_like(a, dtype=None, order='K', subok=True, shape=None, **k):
    return zeros(np.shape(_raw(a)) if shape is None else shape, _like_dtype(a, dtype))


def ones_like(a, dtype=None, order='K', subok=True, shape=None, **k):
    return ones(np.shape(_raw(a)) if shape is None else shape, _like_dtype(a, dtype))


def empty_like(a, dtype=None, order='K', subok=True, shape=None, **k):
    return empty(np.shape(_raw(a)) if shape is None else shape, _like_dtype(a, dtype))


def full_like(a, v, dtype=None, order='K', subok=True, shape=None, **k):
    return full(np.shape(_raw(a)) if shape is None else shape, v, _like_dtype(a, dtype))


def _build(x):
    """nested sequences -> plain ndarray, object if anything symbolic/float"""
    if isinstance(x, np.ndarray):
        return x.view(np.ndarray)
    if is_sym(x):
        b = np.empty((), dtype=object); b[()] = x
        return b
    if isinstance(x, (list, tuple)):
        parts = [_build(y) for y in x]
        if not parts:
            return np.zeros(0, dtype=object)
        if any(p.dtype == object for p in parts):
            shp = parts[0].shape
            if any(p.shape != shp for p in parts):
                raise ValueError('setting an array element with a sequence. inhomogeneous shape')
            out = np.empty((len(parts),) + shp, dtype=object)
            for i, p in enumerate(parts):
                if p.dtype != object:
                    p = to_obj(p).view(np.ndarray)
                out[i] = p if p.ndim else p[()]
            return out
        return np.array([p if p.ndim else p[()] for p in parts])
    if x is None:
        b = np.empty((), dtype=object); b[()] = None
        return b
    return np.asarray(x)


def array(x, dtype=None, copy=True, order='K', subok=False, ndmin=0, **k):
    if isinstance(x, (range, types.GeneratorType)) or (hasattr(x, '__iter__') and not isinstance(x, (np.ndarray, list, tuple, str, dict, bytes)) and not is_sym(x) and not isinstance(x, np.generic)):
        x = list(x)
    r = _build(x)
    if isinstance(x, np.ndarray) and copy:
        r = r.copy()
    r = wrap(r)
    if dtype is not None:
        r = _cast_array(r, dtype, copy=False)
    while r.ndim < ndmin:
        r = r.reshape((1,) + r.shape)
    return r


def asarray(x, dtype=None, order=None, **k):
    if isinstance(x, SArr) and isinstance(x, np.ndarray) and type(x) is SArr:
        return x if dtype is None else _cast_array(x, dtype, copy=False)
    return array(x, dtype=dtype, copy=False)


def arange(*a, dtype=None, **k):
    a = [x.__index__() if isinstance(x, SR) and x.isint else float(x) if isinstance(x, SR) else unscalar(x) for x in a]
    r = np.arange(*a)
    r = r if dtype is None else wrap(r).astype(dtype)
    return wrap(r)


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = num.__index__() if isinstance(num, SR) else int(num)
    if not is_sym(start) and not is_sym(stop):
        r = np.linspace(_raw(start), _raw(stop), num, endpoint=endpoint, retstep=retstep)
        if retstep:
            return wrap(r[0]), r[1]
        return _cast_array(wrap(r), dtype, False) if dtype is not None else wrap(r)
    div = (num - 1) if endpoint else num
    step = s_div(s_sub(stop, start), div) if div else 0.0
    out = array([s_add(start, s_mul(i, step)) for i in range(num)], dtype=dtype or float)
    return (out, step) if retstep else out


def eye(N, M=None, k=0, dtype=float, **kw):
    return wrap(np.eye(int(N), M if M is None else int(M), k=k)).astype(dtype)


def identity(n, dtype=float, **kw):
    return eye(n, dtype=dtype)


# ---------------------------------------------------------------- reductions
def _reduce(a, f, init, axis, keepdims, out=None, mapf=None):
    A = _objarray(a)
    if axis is None:
        r = init
        first = init is None
        for x in A.ravel().tolist():
            if mapf: x = mapf(x)
            if first:
                r = x; first = False
            else:
                r = f(r, x)
        if first:
            raise ValueError('zero-size array to reduction operation which has no identity')
        res = scalar(r)
        if keepdims:
            res = full((1,) * A.ndim, res)
    else:
        axes = (axis,) if isinstance(axis, (int, np.integer)) else tuple(axis)
        axes = tuple(int(x) % A.ndim for x in axes)
        keep = [i for i in range(A.ndim) if i not in axes]
        B = np.transpose(A, keep + list(axes)).reshape([A.shape[i] for i in keep] + [-1])
        o = np.empty([A.shape[i] for i in keep], dtype=object)
        for i in np.ndindex(*o.shape):
            r = init
            first = init is None
            for x in B[i].tolist():
                if mapf: x = mapf(x)
                if first:
                    r = x; first = False
                else:
                    r = f(r, x)
            if first:
                raise ValueError('zero-size array to reduction operation which has no identity')
            o[i] = r
        if keepdims:
            o = o.reshape([1 if i in axes else A.shape[i] for i in range(A.ndim)])
        if o.ndim == 0:
            res = scalar(o[()])
        else:
            res = simplify_obj(o)
    if out is not None:
        out[...] = res
        return out
    return res


def _native_red(a):
    return isinstance(a, np.ndarray) and a.dtype != object


def _sum_terms(r, x):
    return s_add(r, x)


def _fastsum(items):
    """sum with single accumulation dictionary when polynomials only"""
    acc = None
    isint = True
    const = 0
    rest = []
    for x in items:
        if isinstance(x, SR) and not x.d:
            if acc is None:
                acc = dict(x.n)
            else:
                for m, c in x.n.items():
                    v = acc.get(m, 0) + c
                    if v == 0:
                        acc.pop(m, None)
                    else:
                        acc[m] = v
            isint = isint and x.isint
        elif isinstance(x, SB) or isinstance(x, SR) or isinstance(x, SC) or isinstance(x, complex):
            rest.append(x)
        else:
            const = const + x
    r = const
    if acc is not None:
        r = s_add(sym.make(acc, (), isint), const) if const != 0 or isinstance(const, float) and const != const else sym.make(acc, (), isint)
    for x in rest:
        r = s_add(r, x.as_int() if isinstance(x, SB) else x)
    return r


def sum_(a, axis=None, dtype=None, out=None, keepdims=False, initial=0, where=True, **k):
    if not isinstance(a, np.ndarray):
        a = asarray(a)
    if _native_red(a):
        r = wrap_scalar(np.sum(a.view(np.ndarray), axis=axis, keepdims=keepdims))
        if dtype is not None and dtkind(dtype) in ('f', 'f4'):
            r = r.astype(float) if isinstance(r, np.ndarray) else float(r)
        if out is not None:
            out[...] = r
            return out
        return r
    A = a.view(np.ndarray)
    if axis is None:
        res = _fastsum(A.ravel().tolist())
        if isinstance(res, int) and not A.size:
            res = 0.0
        res = scalar(res)
        if keepdims:
            res = full((1,) * A.ndim, res)
    else:
        axes = (axis,) if isinstance(axis, (int, np.integer)) else tuple(axis)
        axes = tuple(int(x) % A.ndim for x in axes)
        keep = [i for i in range(A.ndim) if i not in axes]
        B = np.transpose(A, keep + list(axes)).reshape([A.shape[i] for i in keep] + [int(np.prod([A.shape[i] for i in axes]))])
        o = np.empty([A.shape[i] for i in keep], dtype=object)
        for i in np.ndindex(*o.shape):
            o[i] = _fastsum(B[i].tolist())
        if keepdims:
            o = o.reshape([1 if i in axes else A.shape[i] for i in range(A.ndim)])
        res = scalar(o[()]) if o.ndim == 0 else simplify_obj(o)
    if out is not None:
        out[...] = res
        return out
    return res


def prod_(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    if not isinstance(a, np.ndarray):
        a = asarray(a)
    if _native_red(a):
        return wrap_scalar(np.prod(a.view(np.ndarray), axis=axis, keepdims=keepdims))
    return _reduce(a, s_mul, 1, axis, keepdims, out)


def _count(a, axis):
    if axis is None:
        return a.size
    axes = (axis,) if isinstance(axis, (int, np.integer)) else tuple(axis)
    return int(np.prod([a.shape[i] for i in axes]))


def mean_(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    if not isinstance(a, np.ndarray):
        a = asarray(a)
    n = _count(a, axis)
    if n == 0:
        return np.float64('nan')
    r = sum_(a, axis, None, None, keepdims)
    r = r / float(n) if isinstance(r, np.ndarray) else scalar(s_div(unscalar(r), n))
    if out is not None:
        out[...] = r
        return out
    return r


def _nan_red(f, empty):
    def g(a, axis=None, **k):
        A = asarray(a)
        if not _isobj(A):
            return f(A, axis, **k) if not np.isnan(A.view(np.ndarray)).any() else wrap_scalar(
                (np.nansum if f is sum_ else np.nanmean)(A.view(np.ndarray), axis=axis))
        O = _objarray(A)
        isn = lambda v: not is_sym(v) and v != v
        one = lambda L: (lambda q: scalar(unscalar(f(asarray(q, float)))) if q else empty)([v for v in L if not isn(v)])
        if axis is None:
            return one(O.ravel().tolist())
        ax = axis if isinstance(axis, tuple) else (axis,)
        B = np.moveaxis(O, ax, range(-len(ax), 0))
        sh = B.shape[:B.ndim - len(ax)]
        return asarray([one(r) for r in B.reshape(int(np.prod(sh)), -1).tolist()], float).reshape(sh)
    return g


def var_(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    if not isinstance(a, np.ndarray):
        a = asarray(a)
    n = _count(a, axis)
    m = mean_(a, axis, keepdims=True)
    d = a - m
    d2 = _op1(lambda x: s_mul(x, sym.s_conj(x)) if sym.is_complexnum(x) else s_mul(x, x), None, d)
    d2 = d2.real if any(sym.is_complexnum(x) for x in _objarray(d2).ravel().tolist()) else d2
    r = sum_(asarray(d2, float), axis, None, None, keepdims)
    return r / float(n - ddof) if isinstance(r, np.ndarray) else scalar(s_div(unscalar(r), n - ddof))


def std_(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return sqrt(var_(a, axis, dtype, out, ddof, keepdims))


def max_(a, axis=None, out=None, keepdims=False, **k):
    if not isinstance(a, np.ndarray):
        a = asarray(a)
    if _native_red(a):
        return wrap_scalar(np.max(a.view(np.ndarray), axis=axis, keepdims=keepdims))
    return _reduce(a, s_max, None, axis, keepdims, out)


def min_(a, axis=None, out=None, keepdims=False, **k):
    if not isinstance(a, np.ndarray):
        a = asarray(a)
    if _native_red(a):
        return wrap_scalar(np.min(a.view(np.ndarray), axis=axis, keepdims=keepdims))
    return _reduce(a, s_min, None, axis, keepdims, out)


def any_(a, axis=None, out=None, keepdims=False, **k):
    if not isinstance(a, np.ndarray):
        a = asarray(a)
    if _native_red(a):
        return wrap_scalar(np.any(a.view(np.ndarray), axis=axis, keepdims=keepdims))
    return _reduce(a, sb_or, False, axis, keepdims, out, tobool)


def all_(a, axis=None, out=None, keepdims=False, **k):
    if not isinstance(a, np.ndarray):
        a = asarray(a)
    if _native_red(a):
        return wrap_scalar(np.all(a.view(np.ndarray), axis=axis, keepdims=keepdims))
    return _reduce(a, sb_and, True, axis, keepdims, out, tobool)


def cumsum_(a, axis=None, dtype=None, out=None):
    a = asarray(a)
    if _native_red(a):
        return wrap(np.cumsum(a.view(np.ndarray), axis=axis))
    A = _objarray(a)
    if axis is None:
        A = A.ravel(); axis = 0
    o = A.copy()
    o = np.moveaxis(o, axis, 0)
    for i in range(1, o.shape[0]):
        o[i] = _objarray(elementwise2(s_add, o[i - 1].view(SArr), o[i].view(SArr))) if o.ndim > 1 else s_add(o[i - 1], o[i])
    return np.moveaxis(o, 0, axis).view(SArr)


def argmax_(a, axis=None, **k):
    a = asarray(a)
    if _native_red(a):
        return wrap_scalar(np.argmax(a.view(np.ndarray), axis=axis))
    return _arg(a, axis, lambda best, x: s_cmp(best, x, 'lt'))


def argmin_(a, axis=None, **k):
    a = asarray(a)
    if _native_red(a):
        return wrap_scalar(np.argmin(a.view(np.ndarray), axis=axis))
    return _arg(a, axis, lambda best, x: s_cmp(x, best, 'lt'))


def _arg(a, axis, better):
    A = _objarray(a)
    def one(items):
        bi = 0
        for i in range(1, len(items)):
            if bool(better(items[bi], items[i])):
                bi = i
        return bi
    if axis is None:
        return np.int64(one(A.ravel().tolist()))
    B = np.moveaxis(A, axis, -1)
    o = np.zeros(B.shape[:-1], dtype=np.int64)
    for i in np.ndindex(*o.shape):
        o[i] = one(B[i].tolist())
    return o.view(SArr)


def nonzero_(a):
    a = asarray(a)
    if a.dtype == object:
        m = np.array([bool(tobool(x)) for x in a.view(np.ndarray).ravel().tolist()], dtype=bool).reshape(a.shape)
    else:
        m = a.view(np.ndarray)
    return tuple(x.view(SArr) for x in np.nonzero(m))


def where(cond, *ab):
    if not ab:
        return nonzero_(cond)
    x, y = ab
    if not _isobj(cond) and not _isobj(x) and not _isobj(y):
        return wrap_scalar(np.where(_raw(cond) if isinstance(cond, np.ndarray) else cond,
                                    _raw(x) if isinstance(x, np.ndarray) else x, _raw(y) if isinstance(y, np.ndarray) else y))
    C, X, Y = _objarray(cond), _objarray(x), _objarray(y)
    bc = np.broadcast(C, X, Y)
    if bc.shape == ():
        return scalar(ite(tobool(C[()]), X[()], Y[()]))
    out = np.empty(bc.shape, dtype=object)
    fl = out.reshape(-1)
    for i, (c, p, q) in enumerate(bc):
        fl[i] = ite(tobool(c), p, q)
    return simplify_obj(out)


def clip_(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = a
    if lo is not None:
        r = _op2(s_max, np.maximum, r, lo)
    if hi is not None:
        r = _op2(s_min, np.minimum, r, hi)
    if out is not None:
        out[...] = r
        return out
    return r


def round_(a, decimals=0, out=None, **k):
    if not _isobj(a):
        r = wrap_scalar(np.round(_raw(a) if isinstance(a, np.ndarray) else a, decimals))
    else:
        def f(x):
            if not is_sym(x):
                return float(np.round(x, decimals))
            if decimals == 0:
                r = sym.s_round(x, 0)
                return r
            return sym.s_round(x, decimals)
        r = elementwise1(f, a)
    if out is not None:
        out[...] = r
        return out
    return r


# ---------------------------------------------------------------- elementwise functions
def _mk1(name, f, uf, floatout=True):
    def g(a, out=None, where=True, dtype=None, **k):
        if not _isobj(a) and not isinstance(a, (list, tuple)):
            with np.errstate(all='ignore'):
                r = uf(_raw(a) if isinstance(a, np.ndarray) else a)
            r = wrap_scalar(r)
        else:
            r = elementwise1(f, a)
        if out is not None:
            out[...] = r
            return out
        return r
    g.__name__ = name
    return g


def _num1(f, fn):
    """python-number version through numpy for concrete values"""
    def h(x):
        if is_sym(x):
            return f(x)
        with np.errstate(all='ignore'):
            return unscalar(fn(x))
    return h


def _log(x): return sym.s_generic('log', x, lambda t: math.log(t) if t > 0 else (-math.inf if t == 0 else math.nan))


def _angle(z, deg=False, **k):
    def f(v):
        re, im = sym.re_im(v)
        r = sym.s_arctan2(im, re)
        return s_mul(r, 180 / math.pi) if deg else r
    return elementwise1(f, z) if _isobj(z) else wrap_scalar(np.angle(z, deg))


def _sign(x):
    return ite(s_cmp(x, 0, 'lt'), -1.0, ite(s_cmp(0, x, 'lt'), 1.0, 0.0))


def _isfin(x):
    return True


F1 = {
    'sqrt': (s_sqrt, np.sqrt), 'exp': (sym.s_exp, np.exp), 'absolute': (s_abs, np.abs), 'negative': (s_neg, np.negative),
    'sin': (lambda x: sym.s_trig(x, 'sin'), np.sin), 'cos': (lambda x: sym.s_trig(x, 'cos'), np.cos),
    'tan': (sym.s_tan, np.tan),
    'arctan': (lambda x: sym.s_generic('atan', x, math.atan, -math.pi / 2, math.pi / 2), np.arctan),
    'arcsin': (lambda x: sym.s_generic('asin', x, math.asin), np.arcsin),
    'arccos': (lambda x: sym.s_generic('acos', x, math.acos), np.arccos),
    'log': (_log, np.log), 'log10': (lambda x: s_div(_log(x), math.log(10)), np.log10),
    'log2': (lambda x: s_div(_log(x), math.log(2)), np.log2),
    'log1p': (lambda x: _log(s_add(x, 1)), np.log1p),
    'tanh': (lambda x: sym.s_generic('tanh', x, math.tanh, -1, 1), np.tanh),
    'floor': (lambda x: sym.floor_(x), np.floor), 'ceil': (lambda x: sym.ceil_(x), np.ceil),
    'rint': (lambda x: sym.s_round(x, 0), np.rint), 'trunc': (sym.trunc, np.trunc), 'fix': (sym.trunc, np.fix),
    'isnan': (lambda x: not is_sym(x) and bool(np.isnan(x)), np.isnan),
    'isinf': (lambda x: not is_sym(x) and bool(np.isinf(x)), np.isinf),
    'isfinite': (lambda x: is_sym(x) or bool(np.isfinite(x)), np.isfinite),
    'conjugate': (sym.s_conj, np.conj), 'square': (lambda x: s_mul(x, x), np.square),
    'sign': (_sign, np.sign), 'logical_not': (lambda x: sb_not(tobool(x)), np.logical_not),
    'deg2rad': (lambda x: s_mul(x, math.pi / 180), np.deg2rad), 'rad2deg': (lambda x: s_mul(x, 180 / math.pi), np.rad2deg),
    'radians': (lambda x: s_mul(x, math.pi / 180), np.radians), 'degrees': (lambda x: s_mul(x, 180 / math.pi), np.degrees),
    'reciprocal': (lambda x: s_div(1.0, x), np.reciprocal), 'invert': (_inv1, np.invert), 'positive': (lambda x: x, np.positive),
    'fabs': (s_abs, np.fabs),
}
F1W = {n: _mk1(n, _num1(f, u), u) for n, (f, u) in F1.items()}
sqrt = F1W['sqrt']

F2 = {
    'add': (s_add, np.add), 'subtract': (s_sub, np.subtract), 'multiply': (s_mul, np.multiply), 'true_divide': (s_div, np.true_divide),
    'divide': (s_div, np.true_divide), 'floor_divide': (s_floordiv, np.floor_divide), 'remainder': (s_mod, np.mod), 'mod': (s_mod, np.mod),
    'power': (s_pow, np.power), 'float_power': (s_pow, np.float_power), 'maximum': (s_max, np.maximum), 'minimum': (s_min, np.minimum),
    'fmax': (s_max, np.fmax), 'fmin': (s_min, np.fmin),
    'less': (_CMP['lt'], np.less), 'less_equal': (_CMP['le'], np.less_equal), 'greater': (_CMP['gt'], np.greater),
    'greater_equal': (_CMP['ge'], np.greater_equal), 'equal': (_CMP['eq'], np.equal), 'not_equal': (_CMP['ne'], np.not_equal),
    'logical_and': (lambda a, b: sb_and(tobool(a), tobool(b)), np.logical_and),
    'logical_or': (lambda a, b: sb_or(tobool(a), tobool(b)), np.logical_or),
    'logical_xor': (lambda a, b: _xor2(tobool(a), tobool(b)), np.logical_xor),
    'bitwise_and': (_and2, np.bitwise_and), 'bitwise_or': (_or2, np.bitwise_or), 'bitwise_xor': (_xor2, np.bitwise_xor),
    'arctan2': (sym.s_arctan2, np.arctan2), 'hypot': (lambda a, b: s_sqrt(s_add(s_mul(a, a), s_mul(b, b))), np.hypot),
    'copysign': (lambda a, b: ite(s_cmp(b, 0, 'lt'), s_neg(s_abs(a)), s_abs(a)), np.copysign),
}


def _mk2(name, f, uf):
    def g(a, b, out=None, where=True, dtype=None, **k):
        r = _op2(f, uf, a if not isinstance(a, (list, tuple)) else asarray(a), b if not isinstance(b, (list, tuple)) else asarray(b))
        if isinstance(r, np.ndarray) and r.ndim == 0:
            r = scalar(r.view(np.ndarray)[()])
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if where is not True:
                w = asarray(where)
                o[...] = globals()['where'](w, r, o)
            else:
                o[...] = r
            return o
        if dtype is not None and isinstance(r, np.ndarray):
            r = r.astype(dtype)
        return r
    g.__name__ = name
    g.reduce = lambda a, axis=0, dtype=None, out=None, keepdims=False, **k: _ufunc(uf, 'reduce', (a,), dict(axis=axis, keepdims=keepdims))
    g.outer = lambda a, b, **k: _ufunc(uf, 'outer', (a, b), k)
    g.at = lambda *a: _ufunc(uf, 'at', a, {})
    return g


F2W = {n: _mk2(n, f, u) for n, (f, u) in F2.items()}


def _ufunc(ufunc, method, inputs, kwargs):
    name = ufunc.__name__
    out = kwargs.pop('out', None)
    if isinstance(out, tuple):
        out = out[0] if len(out) == 1 else out
    kwargs.pop('casting', None); kwargs.pop('order', None); kwargs.pop('subok', None)
    wh = kwargs.pop('where', True)
    dt = kwargs.pop('dtype', None)
    if name == 'matmul':
        r = matmul(*inputs)
        if out is not None:
            out[...] = r
            return out
        return r
    if method == '__call__':
        if name in F1W:
            r = F1W[name](*inputs)
        elif name in F2W:
            r = F2W[name](*inputs)
        elif name == 'modf':
            r = modf(*inputs)
        else:
            if any(_isobj(x) and _has_sym(_objarray(x)) for x in inputs):
                raise Unsupported(f'ufunc {name}')
            r = wrap_scalar(ufunc(*[_tofloat(x) for x in inputs]))
        if dt is not None and isinstance(r, np.ndarray):
            r = r.astype(dt)
        if out is not None:
            if wh is not True:
                out[...] = where(wh, r, out)
            else:
                out[...] = r
            return out
        return r
    if method == 'reduce':
        a = inputs[0]
        axis = kwargs.get('axis', 0)
        kd = kwargs.get('keepdims', False)
        fn = {'add': sum_, 'multiply': prod_, 'maximum': max_, 'minimum': min_, 'logical_or': any_, 'logical_and': all_,
              'fmax': max_, 'fmin': min_, 'bitwise_or': any_, 'bitwise_and': all_}.get(name)
        if fn is None:
            raise Unsupported(f'{name}.reduce')
        r = fn(a, axis=axis, keepdims=kd)
        if out is not None:
            out[...] = r
            return out
        return r
    if method == 'outer':
        a, b = asarray(inputs[0]), asarray(inputs[1])
        return F2W[name](a.reshape(a.shape + (1,) * b.ndim), b)
    if method == 'accumulate' and name == 'add':
        return cumsum_(inputs[0], kwargs.get('axis', 0))
    if method == 'at':
        arr, idx = inputs[0], inputs[1]
        v = inputs[2] if len(inputs) > 2 else None
        idx = _fix_index(idx, arr)
        pos = np.arange(arr.size).reshape(arr.shape)[idx]
        flatv = np.broadcast_to(_objarray(v), pos.shape).ravel() if v is not None else None
        fl = arr.reshape(-1)
        base = arr.view(np.ndarray)
        for k, p in enumerate(np.ravel(pos)):
            ii = np.unravel_index(p, arr.shape)
            base[ii] = F2[name][0](base[ii], flatv[k])
        return None
    raise Unsupported(f'{name}.{method}')


def _tofloat(x):
    """object array without symbols -> native"""
    if isinstance(x, np.ndarray):
        r = x.view(np.ndarray)
        if r.dtype == object:
            fl = r.ravel().tolist()
            if any(is_sym(v) for v in fl):
                raise Unsupported('symbolic array where a concrete one is needed')
            if any(isinstance(v, complex) for v in fl):
                return r.astype(np.complex128)
            if fl and all(isinstance(v, (bool,)) for v in fl):
                return r.astype(bool)
            try:
                return r.astype(np.float64)
            except (TypeError, ValueError):
                return r
        return r
    if isinstance(x, list):
        return [_tofloat(v) for v in x]
    if isinstance(x, tuple):
        return tuple(_tofloat(v) for v in x)
    if isinstance(x, type) and getattr(x, '_symkind', None):
        return {'f': np.float64, 'f4': np.float64, 'c': np.complex128}.get(x._symkind, x)
    return x


# ---------------------------------------------------------------- linear algebra
def matmul(a, b):
    A, B = _objarray(a), _objarray(b)
    if not _isobj(a) and not _isobj(b):
        return wrap_scalar(np.matmul(_raw(asarray(a)), _raw(asarray(b))))
    if A.ndim == 1 and B.ndim == 1:
        return dot(a, b)
    if A.ndim > 2 or B.ndim > 2:
        bs = np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
        A = np.broadcast_to(A, bs + A.shape[-2:]); B = np.broadcast_to(B, bs + B.shape[-2:])
        out = np.empty(bs + (A.shape[-2], B.shape[-1]), dtype=object)
        for i in np.ndindex(*bs):
            out[i] = _objarray(matmul(A[i].view(SArr), B[i].view(SArr)))
        return out.view(SArr)
    return dot(a, b)


def _inner(xs, ys):
    return _fastsum([s_mul(x, y) for x, y in zip(xs, ys)
                     if not ((not is_sym(x) and x == 0 and not sym.isnonfinite(y)) or (not is_sym(y) and y == 0 and not sym.isnonfinite(x)))])


def dot(a, b, out=None):
    if not _isobj(a) and not _isobj(b):
        r = wrap_scalar(np.dot(_raw(asarray(a)), _raw(asarray(b))))
    else:
        A, B = _objarray(a), _objarray(b)
        if A.ndim == 0 or B.ndim == 0:
            r = _op2(s_mul, np.multiply, a, b)
        elif A.ndim == 1 and B.ndim == 1:
            if A.shape != B.shape:
                raise ValueError(f'shapes {A.shape} and {B.shape} not aligned')
            r = scalar(_fl(_inner(A.tolist(), B.tolist())))
        else:
            if A.shape[-1] != (B.shape[0] if B.ndim == 1 else B.shape[-2]):
                raise ValueError(f'shapes {A.shape} and {B.shape} not aligned')
            if B.ndim == 1:
                o = np.empty(A.shape[:-1], dtype=object)
                for i in np.ndindex(*o.shape):
                    o[i] = _fl(_inner(A[i].tolist(), B.tolist()))
            elif A.ndim == 1:
                o = np.empty(B.shape[:-2] + B.shape[-1:], dtype=object)
                Bt = np.moveaxis(B, -2, -1)
                for i in np.ndindex(*o.shape):
                    o[i] = _fl(_inner(A.tolist(), Bt[i].tolist()))
            else:
                Bt = np.moveaxis(B, -2, -1)
                o = np.empty(A.shape[:-1] + Bt.shape[:-1], dtype=object)
                for i in np.ndindex(*A.shape[:-1]):
                    al = A[i].tolist()
                    for j in np.ndindex(*Bt.shape[:-1]):
                        o[i + j] = _fl(_inner(al, Bt[j].tolist()))
            r = o.view(SArr)
    if out is not None:
        out[...] = r
        return out
    return r


def _fl(x):
    return float(x) if type(x) is int else x


matmul_dot = dot


def tensordot(a, b, axes=2):
    A, B = asarray(a), asarray(b)
    if isinstance(axes, (int, np.integer)):
        aa = list(range(A.ndim - axes, A.ndim)); bb = list(range(axes))
    else:
        aa, bb = axes
        aa = [aa] if isinstance(aa, (int, np.integer)) else list(aa)
        bb = [bb] if isinstance(bb, (int, np.integer)) else list(bb)
    aa = [x % A.ndim for x in aa]; bb = [x % B.ndim for x in bb]
    ka = [i for i in range(A.ndim) if i not in aa]; kb = [i for i in range(B.ndim) if i not in bb]
    A2 = np.transpose(_objarray(A), ka + aa).reshape(int(np.prod([A.shape[i] for i in ka])), -1)
    B2 = np.transpose(_objarray(B), bb + kb).reshape(A2.shape[1], -1)
    r = dot(A2.view(SArr), B2.view(SArr))
    return r.reshape([A.shape[i] for i in ka] + [B.shape[i] for i in kb])


def outer(a, b, out=None):
    A, B = asarray(a).reshape(-1), asarray(b).reshape(-1)
    return A.reshape(-1, 1) * B.reshape(1, -1)


def vdot(a, b):
    return dot(asarray(a).reshape(-1), asarray(b).reshape(-1))


def einsum(subs, *ops, **k):
    ops = [asarray(o) for o in ops]
    if not any(_isobj(o) for o in ops):
        return wrap_scalar(np.einsum(subs, *[_raw(o) for o in ops]))
    subs = subs.replace(' ', '')
    ins, outp = subs.split('->') if '->' in subs else (subs, None)
    ins = ins.split(',')
    if outp is None:
        allc = ''.join(ins)
        outp = ''.join(sorted(c for c in set(allc) if allc.count(c) == 1))
    dims = {}
    for s, o in zip(ins, ops):
        for c, d in zip(s, o.shape):
            dims[c] = d
    summed = [c for c in dims if c not in outp]
    res = np.empty([dims[c] for c in outp], dtype=object)
    raws = [_objarray(o) for o in ops]
    for oi in np.ndindex(*res.shape):
        env = dict(zip(outp, oi))
        terms = []
        for si in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, si))
            t = 1
            for s, o in zip(ins, raws):
                t = s_mul(t, o[tuple(env[c] for c in s)])
            terms.append(t)
        res[oi] = _fastsum(terms)
    return res.view(SArr) if res.ndim else scalar(res[()])


def _det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    if n == 2:
        return s_sub(s_mul(M[0][0], M[1][1]), s_mul(M[0][1], M[1][0]))
    t = 0
    for j in range(n):
        if not is_sym(M[0][j]) and M[0][j] == 0:
            continue
        minor = [r[:j] + r[j + 1:] for r in M[1:]]
        v = s_mul(M[0][j], _det(minor))
        t = s_add(t, v) if j % 2 == 0 else s_sub(t, v)
    return t


def inv(a):
    A = _objarray(a)
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    if not any(is_sym(x) for x in A.ravel().tolist()):
        return wrap(np.linalg.inv(_tofloat(A)))
    M = A.tolist()
    n = len(M)
    if n > 5:
        raise Unsupported('symbolic inverse > 5x5')
    d = _det(M)
    if bool(s_cmp(d, 0, 'eq')):
        raise np.linalg.LinAlgError('Singular matrix')
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            if n == 1:
                c = 1.0
            else:
                minor = [r[:i] + r[i + 1:] for k, r in enumerate(M) if k != j]
                c = _det(minor)
                if (i + j) % 2:
                    c = s_neg(c)
            out[i, j] = s_div(c, d)
    return out.view(SArr)


def det(a):
    A = _objarray(a)
    return scalar(_det(A.tolist()))


def solve(a, b):
    if not _isobj(a) and not _isobj(b):
        return wrap(np.linalg.solve(_tofloat(a), _tofloat(b)))
    return dot(inv(a), b)


def pinv(a, rcond=None, hermitian=False, **k):
    """full-rank Moore-Penrose inverse (rank-deficient inputs are outside the encoding)"""
    A = asarray(a)
    if not _has_sym(_objarray(A)):
        return wrap(np.linalg.pinv(_tofloat(A), **({'rcond': rcond} if rcond is not None else {})))
    m, n = A.shape
    At = A.T
    S.engine.notes.append('pinv: full rank assumed') if 'pinv: full rank assumed' not in S.engine.notes else None
    def nonsing(G):
        d = _det(_objarray(G).tolist())
        S.engine.assume(s_cmp(d, 0, 'ne'))
        return inv(G)
    if m == n:
        return nonsing(A)
    if m > n:
        return dot(nonsing(dot(At, A)), At)
    return dot(At, nonsing(dot(A, At)))


def norm(a, ord=None, axis=None, keepdims=False):
    A = asarray(a)
    if ord not in (None, 2, 'fro') or (ord == 2 and A.ndim > 1 and axis is None):
        raise Unsupported(f'norm ord={ord}')
    sq = _op1(lambda x: s_mul(x, sym.s_conj(x)) if sym.is_complexnum(x) else s_mul(x, x), None, A)
    return sqrt(sum_(asarray(sq), axis=axis, keepdims=keepdims))


# ---------------------------------------------------------------- FFT
@functools.lru_cache(None)
def _tw(n, sign):
    tab = []
    for k in range(n):
        if (4 * k) % n == 0:
            q = (4 * k // n) % 4
            c = [(1.0, 0.0), (0.0, sign * 1.0), (-1.0, 0.0), (0.0, -sign * 1.0)][q]
        else:
            ang = 2 * math.pi * k / n
            c = (math.cos(ang), sign * math.sin(ang))
        tab.append(complex(*c))
    return tab


def _lin_dft(vals, inverse):
    n = len(vals)
    tw = _tw(n, 1 if inverse else -1)
    res = []
    parts = [sym.re_im(v) for v in vals]
    for k in range(n):
        re, im = [], []
        for j, (a, b) in enumerate(parts):
            w = tw[(j * k) % n]
            for (src, coef, dst) in ((a, w.real, re), (b, -w.imag, re), (a, w.imag, im), (b, w.real, im)):
                if coef == 0 or (not is_sym(src) and src == 0):
                    continue
                dst.append(src if coef == 1 else s_neg(src) if coef == -1 else s_mul(src, coef))
        r, i = _fastsum(re), _fastsum(im)
        if inverse:
            r, i = s_div(r, n), s_div(i, n)
        res.append(sym.mkc(r, i))
    return res


def _fft_axis(A, axis, inverse, n=None, norm=None):
    A = np.moveaxis(A, axis, -1)
    if n is not None and n != A.shape[-1]:
        B = np.empty(A.shape[:-1] + (n,), dtype=object)
        B[...] = 0.0
        m = min(n, A.shape[-1])
        B[..., :m] = A[..., :m]
        A = B
    out = np.empty(A.shape, dtype=object)
    N = A.shape[-1]
    sc = 1.0
    if norm == 'ortho':
        sc = (math.sqrt(N) if inverse else 1 / math.sqrt(N))
    elif norm == 'forward':
        sc = (float(N) if inverse else 1.0 / N)
    for i in np.ndindex(*A.shape[:-1]):
        v = _lin_dft(A[i].tolist(), inverse)
        if sc != 1.0:
            v = [s_mul(x, sc) for x in v]
        for j, x in enumerate(v):
            out[i + (j,)] = x
    return np.moveaxis(out, -1, axis)


def _mkfft(name, inverse, nd):
    real = getattr(np.fft, name)

    def f(a, s=None, axes=None, norm=None, n=None, axis=-1, overwrite_x=False, workers=None, **k):
        A = asarray(a)
        if nd == 1:
            if isinstance(s, (int, np.integer)):
                n = s
            ax = [axis]; ss = [n]
        else:
            ax = list(axes) if axes is not None else [-2, -1]
            ss = list(s) if s is not None else [None] * len(ax)
        if not _isobj(A) or not _has_sym(_objarray(A)):
            R = _tofloat(A)
            r = real(R, n=n, axis=axis, norm=norm) if nd == 1 else real(R, s=s, axes=ax, norm=norm)
            return wrap(r)
        O = _objarray(A)
        for x, m in zip(ax, ss):
            O = _fft_axis(O, x, inverse, m, norm)
        return O.view(SArr)
    f.__name__ = name
    return f


fft_fft2 = _mkfft('fft2', False, 2)
fft_ifft2 = _mkfft('ifft2', True, 2)
fft_fft = _mkfft('fft', False, 1)
fft_ifft = _mkfft('ifft', True, 1)


# ---------------------------------------------------------------- misc
def modf(x):
    if not _isobj(x):
        f, i = np.modf(x)
        return wrap_scalar(f), wrap_scalar(i)
    ip = elementwise1(lambda v: sym.trunc(v) if is_sym(v) else float(math.trunc(v)), x)
    return x - ip, ip


def convolve(a, v, mode='full'):
    A, V = asarray(a), asarray(v)
    if not _isobj(A) and not _isobj(V):
        return wrap(np.convolve(_raw(A), _raw(V), mode))
    x, y = _objarray(A).tolist(), _objarray(V).tolist()
    n, m = len(x), len(y)
    full_ = [_fl(_fastsum([s_mul(x[i], y[k - i]) for i in range(max(0, k - m + 1), min(n, k + 1))])) for k in range(n + m - 1)]
    if mode == 'same':
        L = max(n, m); st = (min(n, m) - 1) // 2
        full_ = full_[st:st + L]
    elif mode == 'valid':
        L = max(n, m) - min(n, m) + 1
        full_ = full_[min(n, m) - 1:min(n, m) - 1 + L]
    return asarray(full_, float)


def polyval(p, x):
    p = asarray(p)
    y = 0.0
    for c in _objarray(p).tolist():
        y = c + y * x if not is_sym(y) and not is_sym(x) and not isinstance(x, np.ndarray) else _op2(s_add, np.add, _op2(s_mul, np.multiply, y, x), c)
    return y


def poly(roots):
    r = _objarray(asarray(roots)).tolist()
    c = [1.0]
    for z in r:
        c = [s_add(a, b) for a, b in zip(c + [0.0], [0.0] + [s_neg(s_mul(z, q)) for q in c])]
    return asarray(c)


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not _isobj(a) and not _isobj(b):
        return wrap_scalar(np.isclose(_raw(a), _raw(b), rtol, atol, equal_nan))
    return _op2(lambda x, y: s_cmp(s_abs(s_sub(x, y)), s_add(atol, s_mul(rtol, s_abs(y))), 'le'), None, a, b)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = isclose(a, b, rtol, atol, equal_nan)
    return all_(r) if isinstance(r, np.ndarray) else r


def array_equal(a, b, equal_nan=False):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    r = all_(a == b)
    return bool(r)


def isscalar(x):
    return True if is_sym(x) else np.isscalar(x)


def iscomplexobj(x):
    if is_sym(x):
        return isinstance(x, SC)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(sym.is_complexnum(v) for v in x.view(np.ndarray).ravel().tolist())
    return np.iscomplexobj(x)


def isrealobj(x):
    return not iscomplexobj(x)


def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(v):
        if is_sym(v):
            return v
        return unscalar(np.nan_to_num(v, nan=nan, posinf=posinf, neginf=neginf))
    r = elementwise1(f, x) if isinstance(x, np.ndarray) and x.dtype == object or is_sym(x) else wrap_scalar(np.nan_to_num(x, nan=nan, posinf=posinf, neginf=neginf))
    if not copy and isinstance(x, np.ndarray):
        x[...] = r
        return x
    return r


def real_(x):
    return x.real if isinstance(x, np.ndarray) or is_sym(x) else np.real(x)


def imag_(x):
    return x.imag if isinstance(x, np.ndarray) or is_sym(x) else np.imag(x)


def sort_(a, axis=-1, **k):
    a = asarray(a)
    if not _has_sym(_objarray(a)):
        return wrap(np.sort(_tofloat(a), axis=axis))
    A = _objarray(a)
    B = np.moveaxis(A, axis if axis is not None else 0, -1)
    out = np.empty(B.shape, dtype=object)
    for i in np.ndindex(*B.shape[:-1]):
        out[i] = sorted(B[i].tolist(), key=functools.cmp_to_key(lambda x, y: -1 if bool(s_cmp(x, y, 'lt')) else 1 if bool(s_cmp(y, x, 'lt')) else 0))
    return np.moveaxis(out, -1, axis if axis is not None else 0).view(SArr)


def argsort_(a, axis=-1, **k):
    a = asarray(a)
    if not _has_sym(_objarray(a)):
        return wrap(np.argsort(_tofloat(a), axis=axis, kind='stable'))
    A = _objarray(a)
    if A.ndim != 1:
        raise Unsupported('argsort nd')
    v = A.tolist()
    idx = sorted(range(len(v)), key=functools.cmp_to_key(lambda i, j: -1 if bool(s_cmp(v[i], v[j], 'lt')) else 1 if bool(s_cmp(v[j], v[i], 'lt')) else 0))
    return np.array(idx).view(SArr)


def median_(a, axis=None, **k):
    a = asarray(a)
    if not _has_sym(_objarray(a)):
        return wrap_scalar(np.median(_tofloat(a), axis=axis))
    if axis is not None:
        raise Unsupported('median axis')
    s = _objarray(sort_(a.reshape(-1))).tolist()
    n = len(s)
    return s[n // 2] if n % 2 else s_div(s_add(s[n // 2 - 1], s[n // 2]), 2)


def unique_(a, **k):
    a = asarray(a)
    if not _has_sym(_objarray(a)):
        r = np.unique(_tofloat(a), **k)
        return tuple(wrap(x) for x in r) if isinstance(r, tuple) else wrap(r)
    raise Unsupported('unique of symbolic')


def searchsorted(a, v, side='left', sorter=None):
    A = asarray(a)
    if not _has_sym(_objarray(A)) and not _isobj(v) or (not is_sym(v) and not _has_sym(_objarray(asarray(v))) and not _has_sym(_objarray(A))):
        return wrap_scalar(np.searchsorted(_tofloat(A), _tofloat(v), side))
    items = _objarray(A).tolist()
    def one(x):
        n = 0
        for y in items:
            c = s_cmp(y, x, 'lt') if side == 'left' else s_cmp(y, x, 'le')
            n = s_add(n, c.as_int() if isinstance(c, SB) else int(c))
        return n
    if isinstance(v, (np.ndarray, list, tuple)):
        return elementwise1(one, v)
    return one(unscalar(v))


def interp(x, xp, fp, left=None, right=None, **k):
    X = asarray(x)
    xs, fs = _objarray(asarray(xp)).tolist(), _objarray(asarray(fp)).tolist()
    if not any(is_sym(v) for v in xs + fs) and not _has_sym(_objarray(X)):
        return wrap_scalar(np.interp(_tofloat(X), _tofloat(asarray(xp)), _tofloat(asarray(fp)), left, right))
    def one(v):
        if bool(s_cmp(v, xs[0], 'lt')):
            return fs[0] if left is None else left
        for i in range(len(xs) - 1):
            if bool(s_cmp(v, xs[i + 1], 'lt')):
                return s_add(fs[i], s_mul(s_sub(fs[i + 1], fs[i]), s_div(s_sub(v, xs[i]), s_sub(xs[i + 1], xs[i]))))
        if bool(s_cmp(v, xs[-1], 'eq')):
            return fs[-1]
        return fs[-1] if right is None else right
    return elementwise1(one, X) if X.ndim else one(_objarray(X)[()])


def count_nonzero(a, axis=None, **k):
    a = asarray(a)
    if _native_red(a):
        return wrap_scalar(np.count_nonzero(a.view(np.ndarray), axis=axis))
    return sum_(elementwise1(lambda x: (lambda b: b.as_int() if isinstance(b, SB) else int(b))(tobool(x)), a), axis=axis)


def bincount(x, weights=None, minlength=0):
    X = _objarray(asarray(x)).ravel()
    if any(is_sym(v) for v in X.tolist()):
        X = np.array([v.__index__() if isinstance(v, SR) else int(v) for v in X.tolist()], np.int64)
    else:
        X = np.asarray(_tofloat(asarray(x))).astype(np.int64)
    if weights is None or not _isobj(asarray(weights)):
        return wrap(np.bincount(X, None if weights is None else _raw(asarray(weights)), minlength))
    n = max(int(X.max()) + 1 if X.size else 0, minlength)
    out = [[] for _ in range(n)]
    for i, w in zip(X.tolist(), _objarray(asarray(weights)).tolist()):
        out[i].append(w)
    return asarray([_fl(_fastsum(o)) for o in out], float)


def put(a, ind, v, mode='raise'):
    idx = np.asarray(_tofloat(asarray(ind))).astype(np.int64).ravel()
    vals = _objarray(v).ravel().tolist() if isinstance(v, (np.ndarray, list, tuple)) else [unscalar(v)]
    base = a.view(np.ndarray)
    for k, p in enumerate(idx.tolist()):
        ii = np.unravel_index(p if p >= 0 else p + a.size, a.shape)
        a[ii] = vals[k % len(vals)]


def mgrid_like(obj):
    class G:
        def __getitem__(self, k):
            r = obj[k]
            return wrap(r)
    return G()


def diag(v, k=0):
    v = asarray(v)
    return wrap(np.diag(v.view(np.ndarray), k)) if not (v.dtype == object and v.ndim == 1) else _diag1(v, k)


def _diag1(v, k):
    n = v.shape[0] + abs(k)
    r = zeros((n, n))
    for i in range(v.shape[0]):
        r[i + max(0, -k), i + max(0, k)] = v.view(np.ndarray)[i]
    return r


def pad(a, pw, mode='constant', **k):
    a = asarray(a)
    raw = a.view(np.ndarray)
    if a.dtype == object and mode == 'constant':
        cv = k.get('constant_values', 0.0)
        cv = unscalar(cv)
        pw2 = np.broadcast_to(np.asarray(pw), (a.ndim, 2)) if not isinstance(pw, (int, np.integer)) else np.full((a.ndim, 2), pw)
        pw2 = pw2.astype(int)
        out = full([a.shape[i] + pw2[i][0] + pw2[i][1] for i in range(a.ndim)], float(cv) if not is_sym(cv) and not isinstance(cv, complex) else cv, None)
        if out.dtype != object:
            out = to_obj(out)
        out[tuple(slice(pw2[i][0], pw2[i][0] + a.shape[i]) for i in range(a.ndim))] = a
        return out
    return wrap(np.pad(raw, pw, mode=mode, **k))


def gradient(f, *va, axis=None, edge_order=1):
    F = asarray(f)
    if not _has_sym(_objarray(F)):
        r = np.gradient(_tofloat(F), *va, axis=axis, edge_order=edge_order)
        return [wrap(x) for x in r] if isinstance(r, (list, tuple)) else wrap(r)
    if va:
        raise Unsupported('gradient spacing')
    axes = range(F.ndim) if axis is None else [axis] if isinstance(axis, int) else axis
    res = []
    for ax in axes:
        A = np.moveaxis(_objarray(F), ax, 0).view(SArr)
        o = np.empty(A.shape, dtype=object).view(SArr)
        o[1:-1] = (A[2:] - A[:-2]) / 2.0
        o[0] = A[1] - A[0]
        o[-1] = A[-1] - A[-2]
        res.append(np.moveaxis(o.view(np.ndarray), 0, ax).view(SArr))
    return res if len(res) > 1 or axis is None and F.ndim > 1 else res[0]


def _atleast(n):
    real = getattr(np, f'atleast_{n}d')
    def f(*a):
        r = [wrap(real(asarray(x).view(np.ndarray))) for x in a]
        return r[0] if len(r) == 1 else r
    return f


def meshgrid(*xi, **k):
    r = np.meshgrid(*[asarray(x).view(np.ndarray) for x in xi], **k)
    return [wrap(x) for x in r]


def _fill_diagonal(a, v, wrap=False):
    for i in range(min(a.shape)):
        a[(i,) * a.ndim] = v


def around(a, decimals=0, out=None):
    return round_(a, decimals, out)


def expand_dims(a, axis):
    return wrap(np.expand_dims(asarray(a).view(np.ndarray), axis))


def fftfreq(n, d=1.0, **k):
    n = int(n)
    if not is_sym(d):
        return wrap(np.fft.fftfreq(n, d))
    base = np.fft.fftfreq(n, 1.0)
    return wrap(base) / d


def angle(z, deg=False):
    return _angle(z, deg)


def issubdtype(a, b):
    def conv(x):
        k = getattr(x, '_symkind', None)
        if k:
            return {'f': np.float64, 'f4': np.float32, 'c': np.complex128}[k]
        if isinstance(x, np.dtype) and x == object:
            return np.float64
        return x
    return np.issubdtype(conv(a), conv(b))


# functions whose real implementation is structural (works on object arrays)
TABLE = {
    np.sum: sum_, np.prod: prod_, np.mean: mean_, np.std: std_, np.var: var_, np.max: max_, np.min: min_, np.amax: max_, np.amin: min_,
    np.any: any_, np.all: all_, np.cumsum: cumsum_, np.argmax: argmax_, np.argmin: argmin_, np.nonzero: nonzero_,
    np.where: where, np.clip: clip_, np.round: round_, np.around: round_, np.dot: dot, np.tensordot: tensordot, np.outer: outer,
    np.vdot: vdot, np.einsum: einsum, np.linalg.inv: inv, np.linalg.solve: solve, np.linalg.pinv: pinv, np.linalg.norm: norm, np.linalg.det: det,
    np.fft.fft2: fft_fft2, np.fft.ifft2: fft_ifft2, np.fft.fft: fft_fft, np.fft.ifft: fft_ifft,
    np.convolve: convolve, np.polyval: polyval, np.poly: poly, np.isclose: isclose, np.allclose: allclose, np.array_equal: array_equal,
    np.iscomplexobj: iscomplexobj, np.isrealobj: isrealobj, np.nan_to_num: nan_to_num, np.real: real_, np.imag: imag_, np.sort: sort_,
    np.argsort: argsort_, np.median: median_, np.unique: unique_, np.searchsorted: searchsorted, np.interp: interp,
    np.count_nonzero: count_nonzero, np.bincount: bincount, np.put: put, np.diag: diag, np.pad: pad, np.gradient: gradient,
    np.zeros_like: zeros_like, np.ones_like: ones_like, np.empty_like: empty_like, np.full_like: full_like,
    np.meshgrid: meshgrid, np.fill_diagonal: _fill_diagonal, np.expand_dims: expand_dims, np.angle: angle,
    np.nanmean: _nan_red(mean_, math.nan), np.nansum: _nan_red(sum_, 0.0), np.fix: F1W['fix'],
}


def _unwrap_all(x):
    if isinstance(x, np.ndarray):
        return x.view(np.ndarray)
    if isinstance(x, list):
        return [_unwrap_all(v) for v in x]
    if isinstance(x, tuple):
        return tuple(_unwrap_all(v) for v in x)
    return x


def _wrap_all(r):
    if isinstance(r, np.ndarray):
        return wrap(r)
    if isinstance(r, tuple):
        return tuple(_wrap_all(x) for x in r)
    if isinstance(r, list):
        return [_wrap_all(x) for x in r]
    return scalar(r) if isinstance(r, (float, complex)) else r


# real numpy functions that move data around without computing on it
STRUCT = {'concatenate', 'stack', 'vstack', 'hstack', 'dstack', 'column_stack', 'reshape', 'transpose', 'roll', 'tile', 'repeat', 'rot90',
          'flip', 'flipud', 'fliplr', 'moveaxis', 'swapaxes', 'ravel', 'squeeze', 'broadcast_to', 'split', 'array_split', 'take', 'delete',
          'insert', 'append', 'copy', 'triu', 'tril', 'diagonal', 'shape', 'ndim', 'size', 'block', 'ix_', 'rollaxis', 'take_along_axis',
          'hsplit', 'vsplit', 'resize', 'trim_zeros', 'diff', 'trace', 'fftshift', 'ifftshift', 'kron', 'cross', 'ediff1d', 'broadcast_arrays',
          'copyto', 'result_type', 'can_cast', 'shares_memory', 'may_share_memory', 'array_repr', 'array_str', 'array2string', 'argwhere',
          'apply_along_axis', 'unravel_index', 'ravel_multi_index', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'compress', 'extract', 'select',
          'lexsort', 'partition', 'piecewise', 'tril_indices', 'triu_indices', 'diag_indices', 'indices'}
SARR_IMPL = {'diff', 'trace', 'kron', 'cross', 'ediff1d', 'argwhere'}   # compute with operators: keep SArr operands


def _objectify(x):
    """mixtures of native and object arrays: make float data objects first"""
    if isinstance(x, np.ndarray):
        return wrap(x).view(np.ndarray)
    if isinstance(x, list):
        return [_objectify(v) for v in x]
    if isinstance(x, tuple):
        return tuple(_objectify(v) for v in x)
    return x


def _fix_arg(x):
    if isinstance(x, SR) and x.isint:
        return x.__index__()
    if isinstance(x, (list, tuple)) and any(isinstance(v, SR) and v.isint for v in x):
        return type(x)(_fix_arg(v) for v in x)
    return x


def _dispatch(func, args, kwargs):
    f = TABLE.get(func)
    if f is not None:
        return f(*args, **kwargs)
    name = func.__name__
    if name in STRUCT:
        args = tuple(_fix_arg(a) for a in args)
        kwargs = {k: _fix_arg(v) for k, v in kwargs.items()}
        if name in SARR_IMPL:
            if name == 'argwhere':
                return np.transpose(np.array([x.view(np.ndarray) for x in nonzero_(args[0])])).view(SArr)
            if name == 'diff':
                return _diff(*args, **kwargs)
            return _wrap_all(func._implementation(*args, **kwargs)) if hasattr(func, '_implementation') else _wrap_all(func(*[_unwrap_all(a) for a in args], **kwargs))
        if name == 'copyto':
            dst, src = args[:2]
            if dst.dtype == object:
                dst[...] = src
                return None
        kwargs.pop('dtype', None)
        r = func(*[_unwrap_all(_objectify(a)) for a in args], **{k: _unwrap_all(v) for k, v in kwargs.items()})
        return _wrap_all(r)
    # concrete-only fallback
    try:
        r = func(*[_tofloat(a) for a in args], **{k: _tofloat(v) for k, v in kwargs.items()})
    except Unsupported:
        raise Unsupported(f'numpy.{name} on symbolic data')
    return _wrap_all(r)


def _diff(a, n=1, axis=-1, **k):
    A = asarray(a)
    for _ in range(n):
        sl1 = [slice(None)] * A.ndim; sl2 = [slice(None)] * A.ndim
        sl1[axis] = slice(1, None); sl2[axis] = slice(None, -1)
        A = A[tuple(sl1)] - A[tuple(sl2)]
    return A


# ---------------------------------------------------------------- dtype classes
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (cls._np, float)) if cls._np is np.float64 else isinstance(x, cls._np)

    def __eq__(cls, o):
        if o is cls:
            return True
        try:
            return o is cls._np or (isinstance(o, np.dtype) and (o == np.dtype(cls._np) or o == object))
        except TypeError:
            return False

    def __hash__(cls):
        return hash(cls._np)


class SymFloat64(metaclass=_FloatMeta):
    _symkind = 'f'; _np = np.float64; itemsize = 8
    def __new__(cls, x=0.0):
        if isinstance(x, (list, tuple)) or isinstance(x, np.ndarray) and x.ndim > 0:
            return asarray(x, cls)
        if isinstance(x, np.ndarray):
            x = x.view(np.ndarray).reshape(-1)[0]
        return scalar(cast(unscalar(x), cls))


class SymFloat32(metaclass=_FloatMeta):
    _symkind = 'f4'; _np = np.float32; itemsize = 4
    def __new__(cls, x=0.0):
        if isinstance(x, (list, tuple)) or isinstance(x, np.ndarray) and x.ndim > 0:
            return asarray(x, cls)
        if isinstance(x, np.ndarray):
            x = x.view(np.ndarray).reshape(-1)[0]
        return scalar(cast(unscalar(x), cls))


class SymComplex128(metaclass=_FloatMeta):
    _symkind = 'c'; _np = np.complex128; itemsize = 16
    def __new__(cls, x=0j):
        return scalar(cast(unscalar(x), cls))


class SymComplex64(metaclass=_FloatMeta):
    _symkind = 'c'; _np = np.complex64; itemsize = 8
    def __new__(cls, x=0j):
        return scalar(cast(unscalar(x), cls))


# ---------------------------------------------------------------- module object
class _Sub(types.ModuleType):
    def __init__(self, name, real, over):
        super().__init__(name)
        self.__dict__['_real'] = real
        self.__dict__.update(over)

    def __getattr__(self, k):
        v = getattr(self.__dict__['_real'], k)
        return _wrapfn(v)


def _wrapfn(v):
    if callable(v) and not isinstance(v, type):
        if v in TABLE:
            return TABLE[v]
        if isinstance(v, np.ufunc):
            return F1W.get(v.__name__) or F2W.get(v.__name__) or _UF(v)
        @functools.wraps(v, updated=())
        def g(*a, **k):
            return _dispatch(v, tuple(_to_s(x) for x in a), {kk: _to_s(x) for kk, x in k.items()})
        return g
    return v


def _to_s(x):
    if is_sym(x):
        return x
    if isinstance(x, (list, tuple)) and any(is_sym(y) for y in x):
        return asarray(x)
    return x


class _UF:
    def __init__(self, u):
        self.u = u
        self.__name__ = u.__name__

    def __call__(self, *a, **k):
        return _ufunc(self.u, '__call__', a, k)

    def __getattr__(self, m):
        return lambda *a, **k: _ufunc(self.u, m, a, k)


class _R:
    """np.r_/c_/s_/mgrid wrappers"""
    def __init__(self, o): self.o = o
    def __getitem__(self, k):
        r = self.o[k]
        return wrap(r) if isinstance(r, np.ndarray) else [wrap(x) for x in r] if isinstance(r, list) else r


class _RandState:
    """random generators: concrete pseudo-random numbers unless a harness installs a source"""
    def __init__(self, real): self._real = real
    def __getattr__(self, k):
        f = getattr(self._real, k)
        if callable(f):
            def g(*a, **kw):
                kw.pop('dtype', None)
                return _wrap_all(f(*[_tofloat(x) for x in a], **{q: _tofloat(v) for q, v in kw.items()}))
            return g
        return f


def finfo(t):
    if isinstance(t, np.ndarray) or isinstance(t, (SR, float)):
        t = getattr(t, 'dtype', np.float64)
    if t is SymFloat64 or t is object or t == np.dtype(object):
        t = np.float64
    elif t is SymFloat32:
        t = np.float32
    return np.finfo(t)


def _make_module():
    m = _Sub('numpy', np, {})
    d = m.__dict__
    d.update(F1W)
    d.update(F2W)
    d['abs'] = F1W['absolute']; d['conj'] = F1W['conjugate']
    for f, g in TABLE.items():
        d[f.__name__] = g
    d.update(dict(max=max_, min=min_, amax=max_, amin=min_, any=any_, all=all_, sum=sum_, around=round_, round=round_,
                  zeros=zeros, ones=ones, empty=empty, full=full, array=array, asarray=asarray, ascontiguousarray=asarray, asanyarray=asarray,
                  arange=arange, linspace=linspace, eye=eye, identity=identity, where=where, dot=dot, matmul=matmul, ndarray=SArr,
                  float64=SymFloat64, float32=SymFloat32, complex128=SymComplex128, complex64=SymComplex64, isscalar=isscalar,
                  finfo=finfo, modf=modf, atleast_1d=_atleast(1), atleast_2d=_atleast(2), atleast_3d=_atleast(3), issubdtype=issubdtype,
                  mgrid=_R(np.mgrid), ogrid=_R(np.ogrid), r_=_R(np.r_), c_=_R(np.c_), copy=lambda a, **k: asarray(a).copy(),
                  fft=_Sub('numpy.fft', np.fft, dict(fft2=fft_fft2, ifft2=fft_ifft2, fft=fft_fft, ifft=fft_ifft, fftfreq=fftfreq)),
                  linalg=_Sub('numpy.linalg', np.linalg, dict(inv=inv, solve=solve, pinv=pinv, norm=norm, det=det, LinAlgError=np.linalg.LinAlgError)),
                  frombuffer=np.frombuffer, errstate=np.errstate, dtype=np.dtype, newaxis=None, s_=np.s_))
    class _Rnd(types.ModuleType):
        def __getattr__(self, k):
            v = getattr(np.random, k)
            if k in ('RandomState', 'default_rng', 'Generator'):
                return lambda *a, **kw: _RandState(v(*a, **kw))
            if callable(v):
                return lambda *a, **kw: _wrap_all(v(*a, **kw))
            return v
    d['random'] = _Rnd('numpy.random')
    return m


shim = _make_module()


# ---------------------------------------------------------------- python builtins aware of symbols
class _BMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, cls._b):
            return True
        if cls._b is float:
            return isinstance(x, SR) and not x.isint
        if cls._b is int:
            return isinstance(x, SR) and x.isint
        return False

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._b)

    def __eq__(cls, o):
        return o is cls or o is cls._b

    def __hash__(cls):
        return hash(cls._b)


class sfloat(metaclass=_BMeta):
    _b = float
    _symkind = 'f'
    def __new__(cls, x=0.0):
        if isinstance(x, SR):
            return SR(x.n, x.d, False) if x.isint else x
        if isinstance(x, SB):
            return x.as_int()
        if isinstance(x, np.ndarray) and x.dtype == object:
            if x.ndim > 0:
                raise TypeError('only 0-dimensional arrays can be converted to Python scalars')
            return sfloat(x.view(np.ndarray)[()])
        return float(x)
    fromhex = float.fromhex


class sint(metaclass=_BMeta):
    _b = int
    _symkind = 'i'
    def __new__(cls, x=0, *a):
        if isinstance(x, (SR, SB)):
            return sym.trunc(x)
        if hasattr(x, '_sym_int'):
            return x._sym_int()
        if isinstance(x, np.ndarray) and x.dtype == object:
            if x.ndim > 0:
                raise TypeError('only 0-dimensional arrays can be converted to Python scalars')
            return sint(x.view(np.ndarray)[()])
        return int(x, *a)


def round_sr(x, nd):
    return sym.fpr(sym.s_round(x, nd))


def sround(x, ndigits=None):
    nd = ndigits
    if isinstance(x, SR):
        return round_sr(x, nd)
    return builtins.round(x, nd) if nd is not None else builtins.round(x)


class smath(types.ModuleType):
    def __init__(self):
        super().__init__('math')
    _F = {'sqrt': s_sqrt, 'sin': lambda x: sym.s_trig(x, 'sin'), 'cos': lambda x: sym.s_trig(x, 'cos'), 'exp': sym.s_exp,
          'floor': sym.floor_, 'ceil': sym.ceil_, 'log': _log, 'fabs': s_abs, 'radians': lambda x: s_mul(x, math.pi / 180),
          'log10': lambda x: s_div(_log(x), math.log(10)), 'trunc': sym.trunc,
          'tan': sym.s_tan, 'isnan': lambda x: False, 'isinf': lambda x: False,
          'isfinite': lambda x: True}
    def __getattr__(self, k):
        real = getattr(math, k)
        f = self._F.get(k)
        if f is None:
            return real
        return lambda x, *a: f(x) if is_sym(x) else real(x, *a)


smath_mod = smath()
