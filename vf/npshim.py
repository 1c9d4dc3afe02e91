"""Object-array subclass and numpy proxy so that the real Euphonic functions run
on symbolic scalars.  Nothing here changes numpy itself: the names through which
euphonic.* modules reach numpy / scipy are rebound while a symbolic run lasts."""
import cmath
import math
import sys
import types
import functools

import numpy as np

from . import sym as S
from .sym import Sym, SymBool, Unsupported


def has_sym(x):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return False
        return any(isinstance(e, (Sym, SymBool)) for e in x.ravel())
    if hasattr(x, 'magnitude') and hasattr(x, 'units'):
        return has_sym(x.magnitude)
    if isinstance(x, (list, tuple)):
        return any(has_sym(e) for e in x)
    return False


def _nonreal_elem(x):
    return isinstance(x, complex) or (isinstance(x, Sym) and
                                      not x.is_real_syntactic())


class _Dtype:
    """dtype a symbolic array would have (see fake_dtypes)"""
    def __init__(self, d):
        self.dtype = np.dtype(object)
        self._d = np.dtype(d)

    def __eq__(self, o):
        o = getattr(o, '_d', o)
        try:
            return np.dtype(o) in (self._d, np.dtype(object))
        except TypeError:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self._d)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(self._d, n)


class fake_dtypes:
    """symbolic arrays show the dtype float64 or complex128 as well as object"""

    def __enter__(self):
        base = np.ndarray.dtype

        def dtype(a):
            d = base.__get__(a)
            if d != object:
                return d
            if a._vf_f32:
                return _Dtype(np.float32)
            return _Dtype(complex if a._vf_complex or any(
                _nonreal_elem(e) for e in np.ndarray.ravel(
                    np.ndarray.view(a, np.ndarray))) else float)
        SymArray.dtype = property(dtype)

    def __exit__(self, *a):
        del SymArray.dtype


class SymArray(np.ndarray):
    """object ndarray of Sym / python numbers"""
    __array_priority__ = 20

    def __array_finalize__(self, obj):
        self._vf_complex = getattr(obj, '_vf_complex', False)
        self._vf_f32 = getattr(obj, '_vf_f32', False)

    # numeric-looking dtype conversions
    @property
    def real(self):
        return _map(_real, self)

    @real.setter
    def real(self, v):
        self[...] = _map(lambda a, b: _mkc(_real(b), _imag(a)), self,
                         np.broadcast_to(np.asarray(v, dtype=object), self.shape))

    @property
    def imag(self):
        return _map(_imag, self)

    def conj(self):
        r = _keep_order(plain(_map(_conj, self)), [plain(self)]).view(SymArray)
        r._vf_complex = self._vf_complex
        return r
    conjugate = conj

    def astype(self, dtype, *a, **k):
        if self.dtype != object:
            return np.ndarray.astype(self, dtype, *a, **k)
        kind = np.dtype(dtype).kind if dtype not in (int, float, complex, bool) \
            else np.dtype(dtype).kind
        if kind in 'fc':
            order = a[0] if a else k.get('order', 'K')
            copy = a[3] if len(a) > 3 else k.get('copy', True)
            same = order in ('K', 'A') or (
                self.flags.c_contiguous if order == 'C'
                else self.flags.f_contiguous)
            f32 = kind == 'f' and np.dtype(dtype).itemsize == 4
            if not copy and same and f32 == self._vf_f32 and (
                    kind == 'f' or self._vf_complex or any(
                        _nonreal_elem(e) for e in self.ravel())):
                return self
            r = np.ndarray.copy(self, order)
            r._vf_complex = kind == 'c'
            r._vf_f32 = f32
            return r
        if kind in 'iu':
            return np.array([_toint(e) for e in self.ravel()],
                            dtype=dtype).reshape(self.shape)
        if kind == 'b':
            return np.array([bool(e) for e in self.ravel()],
                            dtype=bool).reshape(self.shape)
        if kind == 'O':
            return self.copy()
        raise Unsupported(f'astype {dtype}')

    def view(self, *a, **k):
        t = a[0] if a else k.get('type', k.get('dtype'))
        if isinstance(t, type) and issubclass(t, np.ndarray):
            return np.ndarray.view(self, *a, **k)
        if t is None:
            return np.ndarray.view(self)
        k = np.dtype(t) if self.dtype == object else None
        if k == np.complex128 or k == np.float64:
            cx = any(_nonreal_elem(e) for e in self.ravel())
            if cx == (k == np.complex128):
                return np.ndarray.view(self)
            if self.ndim == 0 or (self.strides[-1] != self.itemsize
                                  and self.size):
                raise ValueError('To change to a dtype of a different size, '
                                 'the last axis must be contiguous')
            if not cx:
                if self.shape[-1] % 2:
                    raise ValueError('When changing to a larger dtype, its '
                                     'size must be a divisor of the total '
                                     'size in bytes of the last axis')
                return _map(_mkc, self[..., ::2], self[..., 1::2])
            out = np.empty(self.shape[:-1] + (2 * self.shape[-1],),
                           dtype=object)
            out[..., ::2] = self.real
            out[..., 1::2] = self.imag
            return out.view(SymArray)
        raise Unsupported(f'view as {t}')

    def tolist(self):
        return np.ndarray.tolist(self)

    def round(self, decimals=0, out=None):
        return _map(lambda e: _round(e, decimals), self)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return _reduce_cmp(self, axis, keepdims, _max2)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return _reduce_cmp(self, axis, keepdims, _min2)

    def argmax(self, axis=None, out=None, **k):
        return _argred(self, axis, lambda a, b: a > b)

    def argmin(self, axis=None, out=None, **k):
        return _argred(self, axis, lambda a, b: a < b)

    def argsort(self, axis=-1, kind=None, order=None, **k):
        return _argsort(self, axis)

    def sort(self, axis=-1, **k):
        self[...] = _sort(self, axis)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return _mean(self, axis, keepdims)

    def searchsorted(self, v, side='left', sorter=None):
        return _searchsorted(self, v, side, sorter)

    def dot(self, other):
        return np.dot(self, other)

    def clip(self, min=None, max=None, out=None, **k):
        return _clip(self, min, max)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        m = _mean(self, axis, True)
        n = self.size if axis is None else self.shape[axis]
        return ((self - m) ** 2).sum(axis=axis, keepdims=keepdims) / (n - ddof)

    def std(self, axis=None, **k):
        return np.sqrt(self.var(axis, **k))

    def any(self, axis=None, out=None, keepdims=False, **k):
        return np.any(self.astype(bool), axis=axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return np.all(self.astype(bool), axis=axis, keepdims=keepdims)

    def nonzero(self):
        return np.nonzero(self.astype(bool))

    def __getitem__(self, idx):
        r = np.ndarray.__getitem__(self, _idx(idx))
        return r

    def __setitem__(self, idx, v):
        if isinstance(v, Sym):
            np.ndarray.__setitem__(self, _idx(idx), v)
            return
        np.ndarray.__setitem__(self, _idx(idx), v)

    def __contains__(self, v):
        return any(bool(e == v) for e in self.ravel())

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return sym_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        f = TABLE.get(func)
        if f is not None:
            return f(*args, **kwargs)
        if func in FLOAT_ONLY:
            return _as_float_call(func, args, kwargs)
        r = super().__array_function__(func, types, args, kwargs)
        return wrap(r)

    def __float__(self):
        if self.size == 1:
            return float(self.ravel()[0])
        raise TypeError('only length-1 arrays can be converted')

    def __complex__(self):
        if self.size == 1:
            return complex(self.ravel()[0])
        raise TypeError('only length-1 arrays can be converted')

    def __reduce__(self):
        return np.ndarray.__reduce__(self)


def _idx(idx):
    """make indices real (masks of SymBool -> bool, object ints -> int)"""
    if isinstance(idx, tuple):
        return tuple(_idx1(i) for i in idx)
    return _idx1(idx)


def _idx1(i):
    if isinstance(i, np.ndarray) and i.dtype == object:
        flat = i.ravel()
        if flat.size == 0:
            return np.asarray(i, dtype=int)
        if all(isinstance(e, (bool, np.bool_, SymBool)) for e in flat):
            return np.array([bool(e) for e in flat]).reshape(i.shape)
        return np.array([int(e) for e in flat]).reshape(i.shape)
    if isinstance(i, SymBool):
        return bool(i)
    return i


def wrap(r):
    """plain object ndarrays -> SymArray"""
    if isinstance(r, SymArray):
        return r
    if isinstance(r, np.ndarray) and type(r) is np.ndarray and r.dtype == object:
        return r.view(SymArray)
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(wrap(e) for e in r)
    if isinstance(r, list):
        return [wrap(e) for e in r]
    return r


def sarr(x, shape=None):
    """SymArray from nested list / array"""
    if isinstance(x, np.ndarray):
        a = np.empty(x.shape, dtype=object)
        a[...] = x
        return a.view(SymArray)
    a = np.array(x, dtype=object)
    if shape is not None:
        a = a.reshape(shape)
    return a.view(SymArray)


def plain(x):
    if isinstance(x, SymArray):
        return np.ndarray.view(x, np.ndarray)
    return x


def _map(f, *arrs):
    arrs = [plain(a) if isinstance(a, np.ndarray) else a for a in arrs]
    b = np.broadcast(*[np.asarray(a, dtype=object) for a in arrs])
    out = np.empty(b.shape, dtype=object)
    out_flat = [f(*t) for t in b]
    if out.size:
        out = _fill(out_flat, b.shape)
    return out.view(SymArray)


def _fill(lst, shape):
    out = np.empty(len(lst), dtype=object)
    for i, v in enumerate(lst):
        out[i] = v
    return out.reshape(shape)


def _scalarise(r):
    if isinstance(r, np.ndarray) and r.shape == ():
        return r.item() if r.dtype != object else r[()]
    return r


def _real(e):
    if isinstance(e, Sym):
        return e.real
    return e.real if isinstance(e, (complex, np.complexfloating)) else e


def _imag(e):
    if isinstance(e, Sym):
        return e.imag
    return e.imag if isinstance(e, (complex, np.complexfloating)) else 0.0


def _mkc(re, im):
    if isinstance(im, (int, float)) and im == 0:
        return re
    return re + im * 1j


def _conj(e):
    return e.conjugate() if isinstance(e, (Sym, complex, np.complexfloating)) \
        else e


def _toint(e):
    if isinstance(e, complex):
        e = e.real
    return int(e)


def _round(e, d=0):
    if isinstance(e, Sym):
        return e.__round__(d) if d else e.rint()
    return float(np.round(e, d))


def _max2(a, b):
    return a if a >= b else b


def _min2(a, b):
    return a if a <= b else b


def _u(name, numf):
    def f(e):
        if isinstance(e, Sym):
            return getattr(e, name)()
        r = numf(e)
        return r.item() if hasattr(r, 'item') else r
    return f


def _csqrt(e):
    # from here on the arrays of this run may be complex, where roots of
    # negative numbers are imaginary
    S.ctx().complex_roots = True
    return e.csqrt() if isinstance(e, Sym) else cmath.sqrt(e)


def _erfc_num(x):
    return math.erfc(x)


UNARY = {}
for _n in ('sqrt', 'cbrt', 'exp', 'expm1', 'cos', 'sin', 'tan', 'sinh', 'cosh',
           'tanh', 'log', 'log2', 'log10', 'arccos', 'arcsin', 'arctan', 'sign',
           'floor', 'ceil', 'rint', 'trunc', 'square', 'deg2rad', 'radians',
           'rad2deg', 'degrees'):
    UNARY[getattr(np, _n)] = _u(_n, getattr(np, _n))
UNARY[np.absolute] = lambda e: abs(e)
UNARY[np.fabs] = lambda e: abs(e)
UNARY[np.conjugate] = _conj
UNARY[np.negative] = lambda e: -e
UNARY[np.positive] = lambda e: e
UNARY[np.reciprocal] = lambda e: 1 / e
UNARY[np.log1p] = lambda e: (e + 1).log() if isinstance(e, Sym) else np.log1p(e)
UNARY[np.isnan] = lambda e: False if isinstance(e, Sym) else bool(e != e)
UNARY[np.isfinite] = lambda e: True if isinstance(e, Sym) else bool(
    np.isfinite(complex(e)))
UNARY[np.isinf] = lambda e: False if isinstance(e, Sym) else bool(
    np.isinf(complex(e)))
UNARY[np.signbit] = lambda e: bool(e < 0)
BOOL_UNARY = {np.isnan, np.isfinite, np.isinf, np.signbit}


def _copysign(a, b):
    m = abs(a)
    return m if bool(b >= 0) else -m


def _heaviside(a, b):
    if bool(a > 0):
        return 1.0
    return b if bool(a == 0) else 0.0


def _sdiv(a, b):
    if not isinstance(b, Sym):
        if b == 0:
            if isinstance(a, Sym):
                if bool(a == 0):
                    return float('nan')
                return float('inf') if bool(a > 0) else float('-inf')
            return float('nan') if a == 0 else float('inf') * (1 if a > 0 else -1)
    elif isinstance(a, (int, float)) and not isinstance(b, float):
        pass
    if isinstance(b, Sym) and S.ctx().opts.get('div_fork'):
        if bool(b == 0):
            return _sdiv(a, 0.0)
    return a / b


def _spow(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a ** b
    if isinstance(a, (int, float)) and a < 0 and not float(b).is_integer():
        return float('nan')
    return a ** b


BINARY = {
    np.copysign: _copysign, np.heaviside: _heaviside,
    np.true_divide: _sdiv, np.power: _spow, np.float_power: _spow,
    np.maximum: lambda a, b: _max2(a, b), np.minimum: lambda a, b: _min2(a, b),
    np.fmax: lambda a, b: _max2(a, b), np.fmin: lambda a, b: _min2(a, b),
    np.hypot: lambda a, b: _u('sqrt', np.sqrt)(a * a + b * b),
    np.floor_divide: lambda a, b: a // b,
    np.remainder: lambda a, b: a % b,
}
CMP = {np.less: lambda a, b: a < b, np.less_equal: lambda a, b: a <= b,
       np.greater: lambda a, b: a > b, np.greater_equal: lambda a, b: a >= b,
       np.equal: lambda a, b: a == b, np.not_equal: lambda a, b: a != b,
       np.logical_and: lambda a, b: bool(a) and bool(b),
       np.logical_or: lambda a, b: bool(a) or bool(b),
       np.logical_xor: lambda a, b: bool(a) != bool(b)}


def _keep_order(r, arrs):
    """elementwise results have the memory layout of their operands"""
    if r.ndim < 2 or all(a.ndim < 2 or a.flags.c_contiguous for a in arrs):
        return r
    f = np.logical_not if len(arrs) == 1 else np.logical_or
    lay = f(*[np.zeros_like(a, dtype=bool, subok=False) for a in arrs])
    o = np.empty_like(lay, dtype=object)
    o[...] = r
    return o


def undef():
    """value of uninitialised memory: an unconstrained fresh input"""
    return S.ctx().fresh('undef', 1e3, 1e6)


def sym_ufunc(ufunc, method, inputs, kw):
    for i in inputs:
        if not isinstance(i, (np.ndarray, Sym, SymBool, int, float, complex,
                              list, tuple, np.generic)):
            return NotImplemented    # pint Quantity etc. take over
    out = kw.pop('out', None)
    where = kw.pop('where', True)
    kw.pop('casting', None)
    dtype = kw.pop('dtype', None)
    if isinstance(out, tuple):
        out = out[0] if len(out) == 1 else out
    ins = []
    for i in inputs:
        if isinstance(i, (Sym, SymBool)):
            a = np.empty((), dtype=object)
            a[()] = i
            ins.append(a)
        elif isinstance(i, SymArray):
            ins.append(plain(i))
        elif isinstance(i, np.generic):
            ins.append(i.item())
        else:
            ins.append(i)
    # object arrays are numeric here
    if method == '__call__':
        f = UNARY.get(ufunc) if ufunc.nin == 1 else (
            BINARY.get(ufunc) or CMP.get(ufunc))
        if ufunc is np.sqrt and dtype is not None and \
                np.issubdtype(dtype, np.complexfloating):
            f = _csqrt
        if ufunc is np.logical_not:
            r = np.logical_not(np.array(
                [bool(e) for e in np.asarray(ins[0]).ravel()]).reshape(
                    np.shape(ins[0])))
        elif ufunc in (np.invert, np.bitwise_and, np.bitwise_or,
                       np.bitwise_xor) and all(
                np.asarray(i).dtype in (object, bool) for i in ins):
            r = ufunc(*[np.array([bool(e) for e in np.asarray(i).ravel()])
                        .reshape(np.shape(i)) for i in ins])
        elif f is not None:
            arrs = [np.asarray(i) if not isinstance(i, np.ndarray) else i
                    for i in ins]
            b = np.broadcast(*arrs) if len(arrs) > 1 else None
            shape = b.shape if b is not None else arrs[0].shape
            its = [np.broadcast_to(a, shape).ravel() for a in arrs]
            its = [x.tolist() if x.dtype != object else list(x) for x in its]
            wh = None
            if where is not True:
                wh = np.broadcast_to(np.asarray(where), shape).ravel()
                of = None if out is None else list(
                    np.asarray(plain(out), dtype=object).ravel())
                vals = []
                for n, t in enumerate(zip(*its)):
                    if bool(wh[n]):
                        vals.append(f(*t))
                    else:
                        vals.append(of[n] if of is not None else undef())
            else:
                vals = [f(*t) for t in zip(*its)]
            if ufunc in CMP or ufunc in BOOL_UNARY:
                r = np.array([bool(v) for v in vals], dtype=bool).reshape(shape)
            else:
                r = _keep_order(_fill(vals, shape), arrs)
        elif ufunc is np.matmul:
            r = _matmul(*ins)
        elif ufunc is np.divmod:
            raise Unsupported('divmod')
        else:
            ins = [np.asarray(i, dtype=object)
                   if not (isinstance(i, np.ndarray) and i.dtype.kind in 'biu')
                   or True else i for i in ins]
            if where is not True:
                wh = np.asarray(where)
                rr = ufunc(*ins)
                base = np.asarray(plain(out), dtype=object) if out is not None \
                    else _fill([undef() for _ in range(rr.size)], rr.shape)
                r = np.where(wh, rr, base)
            else:
                r = ufunc(*ins)
    elif method in ('reduce', 'accumulate', 'outer', 'reduceat'):
        if ufunc in (np.maximum, np.minimum, np.fmax, np.fmin) and \
                method == 'reduce':
            g = _max2 if ufunc in (np.maximum, np.fmax) else _min2
            r = _reduce_cmp(ins[0], kw.get('axis', 0),
                            kw.get('keepdims', False), g)
        elif ufunc in (np.logical_and, np.logical_or):
            a = np.array([bool(e) for e in np.asarray(ins[0]).ravel()]).reshape(
                np.shape(ins[0]))
            r = getattr(ufunc, method)(a, *ins[1:], **kw)
        else:
            ins = [np.asarray(i, dtype=object) if n == 0 or method == 'outer'
                   else i for n, i in enumerate(ins)]
            r = getattr(ufunc, method)(*ins, **kw)
    elif method == 'at':
        tgt = ins[0]
        idx = _idx(inputs[1])
        vals = ins[2:] if len(ins) > 2 else []
        vals = [np.asarray(v, dtype=object) for v in vals]
        if tgt.dtype != object:
            raise Unsupported('ufunc.at into a numeric array')
        ufunc.at(tgt, idx, *vals)
        return None
    else:
        raise Unsupported(f'ufunc method {method}')
    if out is not None:
        o = plain(out)
        if o.dtype != object and has_sym(r):
            raise Unsupported('symbolic output into a numeric array')
        if o.dtype == object:
            o[...] = r
        else:
            o[...] = np.asarray(r).astype(o.dtype)
        return out
    if isinstance(r, np.ndarray) and r.shape == ():
        return r[()]
    return wrap(r)


def _matmul(a, b):
    a = np.asarray(a, dtype=object)
    b = np.asarray(b, dtype=object)
    if a.ndim == 1 and b.ndim == 1:
        return np.asarray(np.dot(a, b), dtype=object)
    if a.ndim <= 2 and b.ndim <= 2:
        return np.dot(a, b)
    if a.ndim == 1:
        return np.einsum('i,...ij->...j', a, b)
    if b.ndim == 1:
        return np.einsum('...ij,j->...i', a, b)
    return np.einsum('...ij,...jk->...ik', a, b)


# ------------------------------------------------------------- reductions
def _along(arr, axis, keepdims, f):
    arr = np.asarray(plain(arr), dtype=object)
    if axis is None:
        r = f(list(arr.ravel()))
        if keepdims:
            o = np.empty((1,) * arr.ndim, dtype=object)
            o[...] = r
            return o.view(SymArray)
        return r
    if isinstance(axis, tuple):
        axis = tuple(ax % arr.ndim for ax in axis)
        rest = [i for i in range(arr.ndim) if i not in axis]
        a2 = arr.transpose(rest + list(axis)).reshape(
            [arr.shape[i] for i in rest] + [-1])
        return _along(a2, -1, keepdims, f)
    axis = axis % arr.ndim
    m = np.moveaxis(arr, axis, -1)
    sh = m.shape[:-1]
    vals = [f(list(row)) for row in m.reshape(-1, m.shape[-1])] if m.size else []
    o = _fill(vals, sh) if vals else np.empty(sh, dtype=object)
    if keepdims:
        o = np.expand_dims(o, axis)
    if all(isinstance(v, (int, np.integer)) and not isinstance(v, bool)
           for v in vals) and vals:
        o = o.astype(int)
        return o if o.shape else o[()]
    return o.view(SymArray) if o.shape else o[()]


def _reduce_cmp(arr, axis, keepdims, g):
    def f(lst):
        r = lst[0]
        if S.ctx().opts.get('max_mode') == 'atom' and any(
                isinstance(e, Sym) and not e.is_const() for e in lst):
            if g is _max2:
                return S.ctx().max_atom(lst)
            if g is _min2:
                return -S.ctx().max_atom([-e for e in lst])
        for e in lst[1:]:
            if r is e:
                continue
            r = g(r, e)
        return r
    return _along(arr, axis, keepdims, f)


def _argred(arr, axis, better):
    def f(lst):
        if sum(isinstance(x, Sym) for x in lst) >= 3:
            return g(lst)
        b = 0
        for i in range(1, len(lst)):
            if lst[i] is not lst[b] and bool(better(lst[i], lst[b])):
                b = i
        return b

    def g(lst):
        # one fork per possible outcome, not per comparison
        n = len(lst)
        for i in range(n - 1):
            c = True
            for j in range(n):
                if j == i or lst[i] is lst[j]:
                    t = True
                elif j < i:
                    t = better(lst[i], lst[j])
                else:
                    t = better(lst[j], lst[i])
                    t = S.sb_not(t) if isinstance(t, S.SymBool) else not t
                c = S.sb_and(c, t)
                if c is False:
                    break
            if c is False:
                continue
            if bool(c):
                return i
        return n - 1
    return _along(arr, axis, False, f)


class _K:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return bool(self.v < o.v)


def _argsort(arr, axis=-1, **k):
    if axis is None:
        arr = np.asarray(plain(arr)).ravel()
        axis = -1
    arr = np.asarray(plain(arr), dtype=object)
    m = np.moveaxis(arr, axis, -1)
    out = np.empty(m.shape, dtype=int)
    for i in np.ndindex(m.shape[:-1]):
        row = list(m[i])
        out[i] = sorted(range(len(row)), key=lambda n: _K(row[n]))
    return np.moveaxis(out, -1, axis)


def _sort(arr, axis=-1, **k):
    arr = np.asarray(plain(arr), dtype=object)
    if axis is None:
        arr = arr.ravel()
        axis = -1
    idx = _argsort(arr, axis)
    return np.take_along_axis(arr, idx, axis).view(SymArray)


def _mean(a, axis=None, keepdims=False, **k):
    a = np.asarray(plain(a), dtype=object)
    n = a.size if axis is None else (
        a.shape[axis] if not isinstance(axis, tuple)
        else int(np.prod([a.shape[x] for x in axis])))
    s = wrap(np.sum(a, axis=axis, keepdims=keepdims))
    return s / n


def _searchsorted(a, v, side='left', sorter=None):
    a = list(np.asarray(plain(a), dtype=object).ravel())
    if sorter is not None:
        a = [a[i] for i in sorter]

    def one(x):
        lo, hi = 0, len(a)
        while lo < hi:
            mid = (lo + hi) // 2
            c = bool(a[mid] < x) if side == 'left' else bool(a[mid] <= x)
            if c:
                lo = mid + 1
            else:
                hi = mid
        return lo
    if isinstance(v, np.ndarray) and v.shape != () or isinstance(v, (list, tuple)):
        v = np.asarray(plain(v), dtype=object)
        return np.array([one(x) for x in v.ravel()], dtype=int).reshape(v.shape)
    if isinstance(v, np.ndarray):
        v = v[()]
    return one(v)


def _digitize(x, bins, right=False):
    b = list(np.asarray(plain(bins), dtype=object).ravel())
    inc = len(b) < 2 or bool(b[-1] >= b[0])
    if inc:
        return _searchsorted(_fill(b, (len(b),)), x,
                             'left' if right else 'right')
    r = _searchsorted(_fill(b[::-1], (len(b),)), x,
                      'right' if right else 'left')
    return len(b) - r


def _histogram(a, bins=10, range=None, density=None, weights=None):
    a = list(np.asarray(plain(_mag(a)), dtype=object).ravel())
    if isinstance(bins, (int, np.integer)):
        if range is None:
            lo, hi = _reduce_cmp(_fill(a, (len(a),)), None, False, _min2), \
                _reduce_cmp(_fill(a, (len(a),)), None, False, _max2)
        else:
            lo, hi = range
        edges = _linspace(lo, hi, bins + 1)
    else:
        edges = bins
    e = list(np.asarray(plain(edges), dtype=object).ravel())
    n = len(e) - 1
    h = [0.0 if weights is not None else 0] * n
    w = None if weights is None else list(
        np.asarray(plain(weights), dtype=object).ravel())
    ea = _fill(e, (len(e),))
    for i, x in enumerate(a):
        k = _searchsorted(ea, x, 'right') - 1
        if k == n and bool(x == e[-1]):
            k = n - 1
        if 0 <= k < n:
            h[k] = h[k] + (1 if w is None else w[i])
    hist = _fill(h, (n,))
    if w is None:
        hist = hist.astype(int)
    else:
        hist = hist.view(SymArray)
    if density:
        db = np.diff(_fill(e, (len(e),)).view(SymArray))
        hist = hist.astype(object).view(SymArray) / db / np.sum(hist)
    return hist, (edges if isinstance(edges, np.ndarray) else sarr(e))


def _mag(x):
    return x.magnitude if hasattr(x, 'magnitude') else x


def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        d = x - y
        if not isinstance(d, Sym):
            if d == 0:
                return True
            return bool(abs(d) <= atol + rtol * abs(y))
        if d.is_real() and not isinstance(y, Sym):
            t = atol + rtol * abs(y)
            return bool(S.sb_and(d <= t, d >= -t))
        return bool(abs(d) <= atol + rtol * abs(y))
    aa, bb = np.asarray(plain(a), dtype=object), np.asarray(plain(b), dtype=object)
    br = np.broadcast(aa, bb)
    r = np.array([f(x, y) for x, y in br], dtype=bool).reshape(br.shape)
    return r if r.shape else bool(r[()])


def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(np.all(_isclose(a, b, rtol, atol)))


def _array_equal(a, b, equal_nan=False):
    a, b = np.asarray(plain(a)), np.asarray(plain(b))
    if a.shape != b.shape:
        return False
    return all(bool(x == y) for x, y in zip(a.ravel(), b.ravel()))


def _unique(ar, return_index=False, return_inverse=False, return_counts=False,
            axis=None, **k):
    a = np.asarray(plain(ar), dtype=object)
    if axis is not None and a.ndim > 1:
        if axis not in (0, -a.ndim):
            a = np.moveaxis(a, axis, 0)
        rows = list(a.reshape((a.shape[0], -1)))
        lead = np.moveaxis(a, 0, 0) if axis in (0, -a.ndim) else a

        class R:
            def __init__(self, n):
                self.n = n

            def __lt__(self, o):
                for x, y in zip(rows[self.n], rows[o.n]):
                    if x is y:
                        continue
                    if bool(x < y):
                        return True
                    if bool(y < x):
                        return False
                return False
        order = sorted(range(len(rows)), key=R)
        groups = []
        for i in order:
            if groups and not R(groups[-1][0]) < R(i):
                groups[-1].append(i)
            else:
                groups.append([i])
        vals = lead[[g[0] for g in groups]]
        if axis not in (0, -a.ndim):
            vals = np.moveaxis(vals, 0, axis)
        out = [vals.view(SymArray)]
        if return_index:
            out.append(np.array([min(g) for g in groups], dtype=int))
        if return_inverse:
            inv = np.zeros(len(rows), dtype=int)
            for n, g in enumerate(groups):
                inv[g] = n
            out.append(inv)
        if return_counts:
            out.append(np.array([len(g) for g in groups], dtype=int))
        return out[0] if len(out) == 1 else tuple(out)
    flat = list(a.ravel())
    order = sorted(range(len(flat)), key=lambda n: _K(flat[n]))
    groups = []
    for i in order:
        if groups and not bool(flat[groups[-1][0]] < flat[i]):
            groups[-1].append(i)
        else:
            groups.append([i])
    vals = _fill([flat[g[0]] for g in groups], (len(groups),)).view(SymArray)
    out = [vals]
    if return_index:
        out.append(np.array([min(g) for g in groups], dtype=int))
    if return_inverse:
        inv = np.zeros(len(flat), dtype=int)
        for n, g in enumerate(groups):
            inv[g] = n
        out.append(inv.reshape(a.shape))
    if return_counts:
        out.append(np.array([len(g) for g in groups], dtype=int))
    return out[0] if len(out) == 1 else tuple(out)


def _det(a):
    a = np.asarray(plain(a), dtype=object)
    if a.ndim > 2:
        v = [_det(x) for x in a.reshape((-1,) + a.shape[-2:])]
        return _fill(v, a.shape[:-2]).view(SymArray)
    n = a.shape[0]
    if n == 1:
        return a[0, 0]
    if n == 2:
        return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    r = 0.0
    for j in range(n):
        m = np.delete(a[1:], j, axis=1)
        t = a[0, j] * _det(m)
        r = r + t if j % 2 == 0 else r - t
    return r


def _inv(a):
    a = np.asarray(plain(a), dtype=object)
    if a.ndim > 2:
        v = [_inv(x) for x in a.reshape((-1,) + a.shape[-2:])]
        return np.stack(v).reshape(a.shape).view(SymArray)
    n = a.shape[0]
    if not has_sym(a):
        return np.linalg.inv(_tofloat(a))
    d = _det(a)
    if not isinstance(d, Sym):
        d = Sym.const(d)
    di = 1 / d
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            m = np.delete(np.delete(a, j, axis=0), i, axis=1)
            c = _det(m) if n > 1 else 1.0
            out[i, j] = c * di * (-1 if (i + j) % 2 else 1)
    return out.view(SymArray)


def _solve(a, b):
    return wrap(np.dot(_inv(a), b)) if np.ndim(b) <= 2 else wrap(
        np.matmul(_inv(a), b))


def _norm(x, ord=None, axis=None, keepdims=False):
    a = np.asarray(plain(x), dtype=object)
    if ord not in (None, 2, 'fro') or (ord == 2 and a.ndim > 1 and axis is None):
        raise Unsupported(f'norm ord={ord}')
    sq = _map(lambda e: (e * _conj(e)).real if isinstance(e, Sym)
              else abs(e) ** 2, a)
    s = np.sum(plain(sq), axis=axis, keepdims=keepdims)
    if isinstance(s, np.ndarray):
        return np.sqrt(wrap(s))
    return s.sqrt() if isinstance(s, Sym) else math.sqrt(s)


def _median(a, axis=None, **k):
    def f(lst):
        idx = sorted(range(len(lst)), key=lambda n: _K(lst[n]))
        n = len(lst)
        if n % 2:
            return lst[idx[n // 2]]
        return (lst[idx[n // 2 - 1]] + lst[idx[n // 2]]) / 2
    return _along(a, axis, k.get('keepdims', False), f)


def _average(a, axis=None, weights=None, returned=False, **k):
    a = wrap(np.asarray(plain(a), dtype=object))
    if weights is None:
        return _mean(a, axis)
    w = np.asarray(plain(weights), dtype=object)
    if w.shape != a.shape:
        sh = [1] * a.ndim
        sh[axis] = w.shape[0]
        w = w.reshape(sh)
    ww = wrap(np.broadcast_to(w, a.shape))
    return (a * ww).sum(axis=axis) / ww.sum(axis=axis)


def _linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None,
              axis=0):
    start = _mag1(start)
    stop = _mag1(stop)
    if not has_sym(start) and not has_sym(stop):
        return np.linspace(_tofloat(start), _tofloat(stop), num, endpoint,
                           retstep, dtype)
    div = num - 1 if endpoint else num
    step = (stop - start) / div if div else float('nan')
    if isinstance(start, np.ndarray) or isinstance(stop, np.ndarray):
        vals = [start + step * i for i in range(num)]
        if endpoint and num > 1:
            vals[-1] = stop
        return wrap(np.stack(vals, axis=axis))
    vals = [start + step * i for i in range(num)]
    if endpoint and num > 1:
        vals[-1] = stop + start * 0
    r = _fill(vals, (num,)).view(SymArray)
    return (r, step) if retstep else r


def _mag1(x):
    if isinstance(x, np.ndarray) and x.shape == ():
        return x[()]
    return x


def _arange(*a, **k):
    if not any(has_sym(x) for x in a):
        return np.arange(*[_tofloat(x) if isinstance(x, SymArray) else x
                           for x in a], **k)
    start, step = 0, 1
    if len(a) == 1:
        stop = a[0]
    else:
        start, stop = a[0], a[1]
        if len(a) > 2:
            step = a[2]
    n = (stop - start) / step
    n = -(-n).floor() if isinstance(n, Sym) else math.ceil(n)
    return _fill([start + step * i for i in range(int(n))],
                 (max(int(n), 0),)).view(SymArray)


def _where(cond, *xy):
    c = np.asarray(plain(cond))
    if c.dtype == object:
        c = np.array([bool(e) for e in c.ravel()], dtype=bool).reshape(c.shape)
    if not xy:
        return np.nonzero(c)
    x, y = (np.asarray(plain(v), dtype=object) for v in xy)
    return wrap(np.where(c, x, y))


def _clip(a, lo=None, hi=None, **k):
    def f(e):
        if lo is not None and bool(e < lo):
            return lo
        if hi is not None and bool(e > hi):
            return hi
        return e
    if isinstance(a, np.ndarray):
        return _map(f, a)
    return f(a)


def _interp(x, xp, fp, left=None, right=None, period=None):
    xp = list(np.asarray(plain(xp), dtype=object))
    fp = list(np.asarray(plain(fp), dtype=object))

    def one(v):
        if bool(v < xp[0]):
            return fp[0] if left is None else left
        if bool(v > xp[-1]):
            return fp[-1] if right is None else right
        k = _searchsorted(_fill(xp, (len(xp),)), v, 'right') - 1
        if k >= len(xp) - 1:
            return fp[-1]
        return fp[k] + (fp[k + 1] - fp[k]) * (v - xp[k]) / (xp[k + 1] - xp[k])
    if isinstance(x, np.ndarray) and x.shape:
        return _map(one, x)
    return one(_mag1(x))


def _trapz(y, x=None, dx=1.0, axis=-1):
    y = wrap(np.moveaxis(np.asarray(plain(y), dtype=object), axis, -1))
    if x is None:
        d = dx
    else:
        d = np.diff(wrap(np.asarray(plain(x), dtype=object)))
    return ((y[..., 1:] + y[..., :-1]) * d / 2).sum(axis=-1)


def _convolve_like(func):
    return func


def _bincount(x, weights=None, minlength=0):
    x = np.asarray(x)
    n = max(int(x.max()) + 1 if x.size else 0, minlength)
    h = [0.0] * n
    w = np.asarray(plain(weights), dtype=object)
    for i, k in enumerate(x):
        h[int(k)] = h[int(k)] + w[i]
    return _fill(h, (n,)).view(SymArray)


def _convolve(a, v, mode='full', **k):
    a = list(np.asarray(plain(a), dtype=object).ravel())
    v = list(np.asarray(plain(v), dtype=object).ravel())
    n, m = len(a), len(v)
    full = [0.0] * (n + m - 1)
    for i in range(n):
        for j in range(m):
            full[i + j] = full[i + j] + a[i] * v[j]
    if mode == 'full':
        r = full
    elif mode == 'same':
        L = max(n, m)
        st = (len(full) - L) // 2
        r = full[st:st + L]
    else:
        L = max(n, m) - min(n, m) + 1
        st = (len(full) - L) // 2
        r = full[st:st + L]
    return _fill(r, (len(r),)).view(SymArray)


def _convolve_sp(a, v, mode='full', method='auto'):
    r = _convolve(a, v, 'full')
    if mode == 'full':
        return r
    n, m = np.size(a), np.size(v)
    L = n if mode == 'same' else max(n, m) - min(n, m) + 1
    st = (len(r) - L) // 2
    return r[st:st + L]


def _count_nonzero(a, axis=None, **k):
    b = np.array([bool(e != 0) for e in np.asarray(plain(a)).ravel()]).reshape(
        np.shape(a))
    return np.count_nonzero(b, axis=axis, **k)


def _nan_skip(red):
    def f(a, axis=None, **k):
        def g(lst):
            lst = [e for e in lst if isinstance(e, Sym) or e == e]
            r = lst[0]
            for e in lst[1:]:
                r = red(r, e)
            return r
        return _along(a, axis, k.get('keepdims', False), g)
    return f


def _nansum(a, axis=None, **k):
    return _along(a, axis, k.get('keepdims', False), lambda l: sum(
        (e for e in l if isinstance(e, Sym) or e == e), 0.0))


def _nan_to_num(a, copy=True, nan=0.0, posinf=None, neginf=None):
    return _map(lambda e: nan if not isinstance(e, Sym) and e != e else e, a)


def _percent(*a, **k):
    raise Unsupported('percentile')


def _einsum(sub, *ops, **k):
    k.pop('optimize', None)
    k.pop('dtype', None)
    k.pop('casting', None)
    out = k.pop('out', None)
    ops2 = []
    for o in ops:
        if isinstance(o, np.ndarray):
            ops2.append(np.asarray(plain(o), dtype=object))
        else:
            ops2.append(np.asarray(o, dtype=object) if not isinstance(o, list)
                        or not isinstance(sub, np.ndarray) else o)
    r = _pw_einsum(sub, ops2)
    if out is not None:
        plain(out)[...] = r
        return out
    if isinstance(r, np.ndarray):
        return wrap(r) if r.shape else r[()]
    return r


def _pw_einsum(sub, ops):
    """pairwise contraction (cheaper in term count than one flat product)"""
    if not isinstance(sub, str):
        raise Unsupported('einsum with operand lists')
    sub = sub.replace(' ', '')
    if len(ops) <= 2 or '.' in sub:
        return np.einsum(sub, *ops)
    ins, out = (sub.split('->') + [None])[:2]
    ins = ins.split(',')
    if out is None:
        al = ''.join(ins)
        out = ''.join(sorted(c for c in set(al) if al.count(c) == 1))
    ops = list(ops)
    while len(ops) > 2:
        a, b = ins[0], ins[1]
        rest = set(''.join(ins[2:]) + out)
        keep = ''.join(c for c in dict.fromkeys(a + b) if c in rest)
        ops = [np.einsum(f'{a},{b}->{keep}', ops[0], ops[1])] + ops[2:]
        ops[0] = np.asarray(ops[0], dtype=object)
        ins = [keep] + ins[2:]
    return np.einsum(f'{",".join(ins)}->{out}', *ops)


def _tofloat(a):
    if isinstance(a, np.ndarray) and a.dtype == object:
        flat = a.ravel()
        cplx = any(isinstance(e, complex) or (
            isinstance(e, Sym) and isinstance(e.const_val(), complex))
            for e in flat if not isinstance(e, SymBool))
        if any(isinstance(e, Sym) and not e.is_const() for e in flat):
            raise Unsupported('numeric-only function on symbolic values')
        f = (complex if cplx else float)
        return np.array([f(e) for e in flat]).reshape(a.shape)
    if isinstance(a, Sym):
        return float(a)
    if isinstance(a, (list, tuple)) and any(
            isinstance(e, (np.ndarray, Sym)) for e in a):
        return type(a)(_tofloat(e) for e in a)
    return a


def _as_float_call(func, args, kwargs):
    return func(*[_tofloat(a) for a in args],
                **{k: _tofloat(v) for k, v in kwargs.items()})


EIGH_HOOK = [None]


def _eigh(a, UPLO='L'):
    if EIGH_HOOK[0] is not None:
        return EIGH_HOOK[0](a, UPLO)
    return np.linalg.eigh(_tofloat(a), UPLO)


def _num_or(symf, numf):
    def f(*a, **k):
        if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
            return symf(*a, **k)
        return numf(*[_tofloat(x) for x in a],
                    **{n: _tofloat(x) for n, x in k.items()})
    return f


TABLE = {
    np.real: lambda v: v.real, np.imag: lambda v: v.imag,
    np.isclose: _isclose, np.allclose: _allclose, np.array_equal: _array_equal,
    np.linalg.det: _num_or(_det, np.linalg.det),
    np.linalg.inv: _num_or(_inv, np.linalg.inv),
    np.linalg.solve: _num_or(_solve, np.linalg.solve),
    np.linalg.norm: _norm, np.linalg.eigh: _eigh,
    np.digitize: _digitize, np.searchsorted: _searchsorted,
    np.histogram: _histogram, np.unique: _unique, np.sort: _sort,
    np.argsort: _argsort,
    np.argmax: lambda a, axis=None, **k: _argred(a, axis, lambda x, y: x > y),
    np.argmin: lambda a, axis=None, **k: _argred(a, axis, lambda x, y: x < y),
    np.median: _median, np.average: _average, np.mean:
        lambda a, axis=None, dtype=None, out=None, keepdims=False, **k:
        _mean(a, axis, keepdims),
    np.max: lambda a, axis=None, out=None, keepdims=False, **k:
        _reduce_cmp(a, axis, keepdims, _max2),
    np.min: lambda a, axis=None, out=None, keepdims=False, **k:
        _reduce_cmp(a, axis, keepdims, _min2),
    np.nanmax: _nan_skip(_max2), np.nanmin: _nan_skip(_min2),
    np.nansum: _nansum, np.nan_to_num: _nan_to_num,
    np.linspace: _linspace, np.where: _where, np.clip: _clip,
    np.interp: _interp, np.trapezoid: _trapz,
    np.bincount: _bincount, np.convolve: _convolve,
    np.count_nonzero: _count_nonzero, np.einsum: _einsum,
    np.round: lambda a, decimals=0, out=None: _map(
        lambda e: _round(e, decimals), a),
    np.around: lambda a, decimals=0, out=None: _map(
        lambda e: _round(e, decimals), a),
    np.any: lambda a, axis=None, out=None, keepdims=False, **k: np.any(
        _tobool(a), axis=axis, keepdims=keepdims),
    np.all: lambda a, axis=None, out=None, keepdims=False, **k: np.all(
        _tobool(a), axis=axis, keepdims=keepdims),
    np.flatnonzero: lambda a: np.flatnonzero(_tobool(a)),
    np.argwhere: lambda a: np.argwhere(_tobool(a)),
    np.nonzero: lambda a: np.nonzero(_tobool(a)),
    np.iscomplexobj: lambda a: any(_nonreal_elem(e) for e in
                                   np.asarray(plain(a)).ravel()),
    np.isrealobj: lambda a: not any(_nonreal_elem(e) for e in
                                    np.asarray(plain(a)).ravel()),
    np.cross: lambda a, b, axisa=-1, axisb=-1, axisc=-1, axis=None:
        _cross(a, b, axisa, axisb, axisc, axis),
    np.zeros_like: lambda a, dtype=None, **k: _like(a, dtype, 0.0, k),
    np.ones_like: lambda a, dtype=None, **k: _like(a, dtype, 1.0, k),
    np.empty_like: lambda a, dtype=None, **k: _like(a, dtype, None, k),
    np.full_like: lambda a, v, dtype=None, **k: _like(a, dtype, v, k),
    np.std: lambda a, axis=None, **k: wrap(a).std(axis, **k),
    np.var: lambda a, axis=None, **k: wrap(a).var(axis, **k),
    np.matmul: lambda a, b: wrap(_matmul(plain(a), plain(b))),
    np.polyval: lambda p, x: _polyval(p, x),
    np.in1d if hasattr(np, 'in1d') else np.isin: lambda a, b, **k: np.array(
        [any(bool(x == y) for y in np.asarray(b, dtype=object).ravel())
         for x in np.asarray(plain(a)).ravel()]),
}


def _append(arr, values, axis=None):
    a = np.asarray(plain(arr), dtype=object)
    v = np.asarray(plain(values), dtype=object)
    if not a.size and np.asarray(plain(arr)).dtype.kind not in 'US' and \
            v.size and all(isinstance(e, str) for e in v.ravel()):
        return np.append(np.zeros(0), np.array(v.tolist()))
    r = np.append(a, v, axis=axis)
    if r.size and all(isinstance(e, str) for e in r.ravel()):
        return np.array(r.tolist())
    return r.view(SymArray)


TABLE[np.append] = _append
TABLE.setdefault(np.isin, lambda a, b, **k: np.array(
    [any(bool(x == y) for y in np.asarray(plain(b), dtype=object).ravel())
     for x in np.asarray(plain(a)).ravel()]).reshape(np.shape(a)))
FLOAT_ONLY = {np.polyfit, np.savetxt, np.linalg.eig, np.linalg.svd,
              np.linalg.eigvalsh, np.percentile, np.quantile}


def _polyval(p, x):
    r = 0.0 * x
    for c in p:
        r = r * x + c
    return r


def _tobool(a):
    a = plain(a)
    if isinstance(a, np.ndarray) and a.dtype == object:
        return np.array([bool(e) for e in a.ravel()], dtype=bool).reshape(a.shape)
    if isinstance(a, (list, tuple)):
        return np.array([bool(e) for e in np.array(a, dtype=object).ravel()])
    if isinstance(a, (Sym, SymBool)):
        return bool(a)
    return a


def _cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    if axis is not None:
        axisa = axisb = axisc = axis
    a = np.moveaxis(np.asarray(plain(a), dtype=object), axisa, -1)
    b = np.moveaxis(np.asarray(plain(b), dtype=object), axisb, -1)
    if a.shape[-1] != 3 or b.shape[-1] != 3:
        raise Unsupported('2d cross')
    r = np.stack([a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1],
                  a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2],
                  a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]], axis=-1)
    return np.moveaxis(r, -1, axisc).view(SymArray)


def _numeric_kind(dtype, default='f'):
    if dtype is None:
        return default
    return np.dtype(dtype).kind


def _like(a, dtype, v, k):
    kind = _numeric_kind(dtype, np.asarray(plain(a)).dtype.kind)
    shape = k.get('shape')
    if shape is None:
        shape = np.shape(a)
    return _full(shape, v, kind, dtype)


def _full(shape, v, kind, dtype=None):
    if kind in 'biu':
        r = np.zeros(shape, dtype=dtype or {'b': bool}.get(kind, int))
        if v:
            r[...] = v
        elif v is None:
            r[...] = 12345 if kind != 'b' else True
        return r
    if kind in 'fcO':
        r = np.empty(shape, dtype=object)
        if v is None:
            flat = [undef() for _ in range(r.size)]
            r = _fill(flat, r.shape)
        else:
            r[...] = v
        r = r.view(SymArray)
        if kind == 'c':
            r._vf_complex = True
        return r
    return np.zeros(shape, dtype=dtype)


class NP(types.ModuleType):
    """stand-in for the numpy module inside euphonic modules"""

    def __init__(self):
        super().__init__('numpy')
        self.linalg = _Linalg()
        self.add = _UfuncProxy(np.add)
        self.subtract = _UfuncProxy(np.subtract)
        self.multiply = _UfuncProxy(np.multiply)
        self.maximum = _UfuncProxy(np.maximum)
        self.minimum = _UfuncProxy(np.minimum)

    def __getattr__(self, n):
        v = getattr(np, n)
        if callable(v) and not isinstance(v, type) and not isinstance(
                v, np.ufunc):
            p = _guard(v)
            return p
        return v

    # creators
    def zeros(self, shape, dtype=float, **k):
        return _full(shape, 0.0, _numeric_kind(dtype), dtype)

    def ones(self, shape, dtype=float, **k):
        return _full(shape, 1.0, _numeric_kind(dtype), dtype)

    def empty(self, shape, dtype=float, **k):
        return _full(shape, None, _numeric_kind(dtype), dtype)

    def full(self, shape, v, dtype=None, **k):
        if dtype is None:
            if isinstance(v, (bool, int, np.integer, np.bool_)):
                return np.full(shape, v)
            if isinstance(v, str):
                return np.full(shape, v)
            kind = 'f'
        else:
            kind = _numeric_kind(dtype)
        if kind not in 'fcO':
            return np.full(shape, v, dtype)
        return _full(shape, _tosafe(v), kind, dtype)

    def eye(self, *a, **k):
        r = np.eye(*a, **k)
        return sarr(r) if r.dtype.kind in 'fc' else r

    def identity(self, *a, **k):
        r = np.identity(*a, **k)
        return sarr(r) if r.dtype.kind in 'fc' else r

    def diag(self, v, k=0):
        if isinstance(v, np.ndarray) and v.dtype == object and v.ndim == 1:
            n = v.shape[0] + abs(k)
            r = np.zeros((n, n), dtype=object)
            r[...] = 0.0
            for i in range(v.shape[0]):
                r[i + max(-k, 0), i + max(k, 0)] = v[i]
            return r.view(SymArray)
        return wrap(np.diag(v, k))

    def array(self, obj, dtype=None, copy=True, ndmin=0, **k):
        return _array(obj, dtype, copy=True, ndmin=ndmin)

    def asarray(self, obj, dtype=None, **k):
        if isinstance(obj, np.ndarray) and dtype is None:
            return obj
        return _array(obj, dtype, copy=False)

    asanyarray = asarray

    def ascontiguousarray(self, obj, dtype=None, **k):
        if isinstance(obj, np.ndarray) and obj.dtype == object:
            return wrap(obj) if obj.flags.c_contiguous else \
                wrap(np.ascontiguousarray(plain(obj)))
        return np.ascontiguousarray(obj, dtype)

    def fromiter(self, it, dtype=float, count=-1):
        lst = list(it)
        if _numeric_kind(dtype) in 'fcO' and has_sym(lst):
            return _fill(lst, (len(lst),)).view(SymArray)
        return np.fromiter(iter(lst), dtype, count)

    def concatenate(self, arrs, axis=0, **k):
        return wrap(_seqfn(np.concatenate, arrs, axis=axis))

    def stack(self, arrs, axis=0, **k):
        return wrap(_seqfn(np.stack, arrs, axis=axis))

    def vstack(self, arrs, **k):
        return wrap(_seqfn(np.vstack, arrs))

    def hstack(self, arrs, **k):
        return wrap(_seqfn(np.hstack, arrs))

    def column_stack(self, arrs, **k):
        return wrap(_seqfn(np.column_stack, arrs))

    def copy(self, a, **k):
        if hasattr(a, 'magnitude'):
            return np.copy(a, **k)
        if isinstance(a, np.ndarray):
            return a.copy()
        return self.array(a)

    def linspace(self, *a, **k):
        if any(hasattr(x, 'magnitude') for x in a):
            return np.linspace(*a, **k)
        return _linspace(*a, **k)

    def arange(self, *a, **k):
        return _arange(*a, **k)

    def einsum(self, sub, *ops, **k):
        if any(hasattr(o, 'magnitude') for o in ops):
            return np.einsum(sub, *ops, **k)
        if any(isinstance(o, np.ndarray) and o.dtype == object or has_sym(o)
               for o in ops):
            return _einsum(sub, *ops, **k)
        return np.einsum(sub, *ops, **k)

    def issubdtype(self, a, b):
        if isinstance(a, _Dtype):
            return np.issubdtype(a._d, b)
        if a == object:
            return np.issubdtype(float, b) or (
                b in (np.complexfloating, complex, np.complex128) and False)
        return np.issubdtype(a, b)

    def iscomplexobj(self, a):
        a = _mag(a)
        if isinstance(a, np.ndarray) and a.dtype == object:
            return TABLE[np.iscomplexobj](a)
        return np.iscomplexobj(a)

    def errstate(self, *a, **k):
        return np.errstate(*a, **k)


def _tosafe(v):
    return v.item() if isinstance(v, np.generic) else v


def _seqfn(f, arrs, **k):
    arrs = list(arrs) if not isinstance(arrs, np.ndarray) else arrs
    if isinstance(arrs, list) and any(hasattr(a, 'magnitude') for a in arrs):
        return f(arrs, **k)
    if isinstance(arrs, list):
        if any(isinstance(a, np.ndarray) and a.dtype == object or has_sym(a)
               for a in arrs):
            arrs = [np.asarray(plain(a), dtype=object) if not (
                isinstance(a, np.ndarray) and a.dtype.kind in 'biu' and False)
                else a for a in arrs]
    else:
        arrs = plain(arrs)
    return f(arrs, **k)


def _array(obj, dtype, copy, ndmin=0):
    if hasattr(obj, 'magnitude') and hasattr(obj, 'units'):
        return np.array(obj, dtype=dtype) if not has_sym(obj) else \
            _array(obj.magnitude, dtype, copy)
    if isinstance(obj, np.ndarray) and obj.dtype == object:
        if dtype is not None and np.dtype(dtype).kind in 'biuU':
            return wrap(obj).astype(dtype)
        r = np.ndarray.copy(obj, 'K') if copy else obj
        r = wrap(r)
        if dtype is not None and np.dtype(dtype).kind == 'c' and \
                not r._vf_complex:
            r = wrap(np.ndarray.copy(r, 'K'))
            r._vf_complex = True
        return r
    if isinstance(obj, Sym):
        r = np.empty((), dtype=object)
        r[()] = obj
        return r.view(SymArray)
    if isinstance(obj, (list, tuple)) and has_sym(obj):
        if any(hasattr(o, 'magnitude') for o in obj):
            obj = [o.magnitude if hasattr(o, 'magnitude') else o for o in obj]
        r = np.array(_nested(obj), dtype=object)
        return wrap(r) if dtype is None or np.dtype(dtype).kind in 'fcO' \
            else wrap(r).astype(dtype)
    if isinstance(obj, (list, tuple)) and any(
            isinstance(o, np.ndarray) and o.dtype == object for o in obj):
        return wrap(np.array(_nested(obj), dtype=object))
    k = {'ndmin': ndmin} if ndmin else {}
    r = np.array(obj, dtype=dtype, **k) if copy or not isinstance(
        obj, np.ndarray) else np.asarray(obj, dtype=dtype)
    if r.dtype.kind in 'fc' and not isinstance(obj, np.ndarray):
        return sarr(r)
    return r


def _nested(x):
    if isinstance(x, (list, tuple)):
        return [_nested(e) for e in x]
    if isinstance(x, np.ndarray):
        return plain(x).tolist()
    return x


class _UfuncProxy:
    """np.add etc. incl. .at on SymArray targets"""

    def __init__(self, uf):
        self._uf = uf

    def __call__(self, *a, **k):
        return self._uf(*a, **k)

    def __getattr__(self, n):
        if n == 'at':
            def at(tgt, idx, *v):
                if isinstance(tgt, np.ndarray) and tgt.dtype == object:
                    return sym_ufunc(self._uf, 'at', (tgt, idx) + v, {})
                return self._uf.at(tgt, idx, *v)
            return at
        return getattr(self._uf, n)


class _Linalg(types.ModuleType):
    def __init__(self):
        super().__init__('numpy.linalg')

    def __getattr__(self, n):
        v = getattr(np.linalg, n)
        if callable(v) and not isinstance(v, type):
            return _guard(v)
        return v

    def eigh(self, a, UPLO='L'):
        return _eigh(a, UPLO)


@functools.lru_cache(None)
def _guard(f):
    """call a numpy function; if an argument holds Syms outside a SymArray make
    sure the object implementation is used and the result wrapped"""
    t = TABLE.get(f)

    @functools.wraps(f)
    def g(*a, **k):
        if any(hasattr(x, 'magnitude') and hasattr(x, 'units') for x in a) or \
                any(isinstance(x, (list, tuple)) and any(
                    hasattr(y, 'magnitude') and hasattr(y, 'units') for y in x)
                    for x in a):
            a = [_q0(x) for x in a]
            return f(*a, **k)
        objs = [x for x in list(a) + list(k.values())
                if isinstance(x, Sym) or (isinstance(x, np.ndarray)
                                          and x.dtype == object)
                or (isinstance(x, (list, tuple)) and has_sym(x))]
        if objs:
            if t is not None:
                return t(*[_lift_arr(x) for x in a],
                         **{n: _lift_arr(x) for n, x in k.items()})
            return wrap(f(*[_lift_arr(x) for x in a],
                          **{n: _lift_arr(x) for n, x in k.items()}))
        return f(*a, **k)
    return g


def _q0(x):
    """scalar symbolic Quantity -> Quantity of a 0-d array, which numpy
    dispatches on"""
    if hasattr(x, 'magnitude') and isinstance(x.magnitude, Sym):
        m = np.empty((), dtype=object)
        m[()] = x.magnitude
        return x.__class__(m.view(SymArray), x.units)
    return x


def _lift_arr(x):
    if isinstance(x, (list, tuple)) and has_sym(x) and not any(
            isinstance(e, np.ndarray) for e in x):
        return sarr(_nested(x))
    if isinstance(x, np.ndarray) and x.dtype == object:
        return wrap(x)
    return x


# ------------------------------------------------------------ scipy stand-ins
def scipy_guard(f, symf=None):
    @functools.wraps(f)
    def g(*a, **k):
        if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
            if symf is None:
                raise Unsupported(f'{f.__name__} on symbolic values')
            return symf(*a, **k)
        return f(*[_tofloat(x) for x in a],
                 **{n: _tofloat(x) for n, x in k.items()})
    g._vf_orig = f
    return g


def _sym_erfc(x):
    if isinstance(x, np.ndarray):
        return _map(lambda e: e.erfc() if isinstance(e, Sym) else math.erfc(e), x)
    return x.erfc()


def _correlate1d(inp, weights, axis=-1, output=None, mode='reflect', cval=0.0,
                 origin=0):
    a = np.asarray(plain(inp), dtype=object)
    w = [float(x) if not isinstance(x, Sym) else x
         for x in np.asarray(weights).ravel()]
    n = a.shape[axis]
    m = len(w)
    half = m // 2
    mv = np.moveaxis(a, axis, -1)
    out = np.empty(mv.shape, dtype=object)

    def idx(i):
        if 0 <= i < n:
            return i
        if mode == 'constant':
            return None
        if mode == 'nearest':
            return min(max(i, 0), n - 1)
        if mode == 'wrap':
            return i % n
        if mode == 'reflect':
            i %= 2 * n
            return i if i < n else 2 * n - 1 - i
        if mode == 'mirror':
            if n == 1:
                return 0
            i %= 2 * (n - 1)
            return i if i < n else 2 * (n - 1) - i
        raise Unsupported(mode)
    for pos in np.ndindex(mv.shape):
        s = 0.0
        for k in range(m):
            j = idx(pos[-1] + k - half + (0 if m % 2 else 0) + origin)
            v = cval if j is None else mv[pos[:-1] + (j,)]
            s = s + v * w[k]
        out[pos] = s
    return np.moveaxis(out, -1, axis).view(SymArray)


def _gaussian_filter1d(inp, sigma, axis=-1, order=0, output=None,
                       mode='reflect', cval=0.0, truncate=4.0, *, radius=None):
    """scipy.ndimage.gaussian_filter1d (documented: kernel truncated at
    truncate*sigma, normalised to one)"""
    if order != 0 or output is not None:
        raise Unsupported('gaussian_filter1d order/output')
    lw = int(radius if radius is not None else int(truncate * sigma + 0.5))
    w = [1.0]
    s2 = sigma * sigma
    for k in range(1, lw + 1):
        a = (-0.5 * k * k) / s2
        w.append(a.exp() if isinstance(a, Sym) else math.exp(a))
    tot = 1.0
    for e in w[1:]:
        tot = tot + 2.0 * e
    full = [e / tot for e in w[:0:-1] + w]
    return _correlate1d(inp, np.array(full, dtype=object), axis, None, mode,
                        cval)


def _gaussian_filter(inp, sigma, order=0, output=None, mode='reflect',
                     cval=0.0, truncate=4.0, *, radius=None, axes=None):
    a = np.asarray(plain(inp), dtype=object)
    ax = list(range(a.ndim)) if axes is None else \
        [x % a.ndim for x in np.atleast_1d(axes)]

    def seq(v):
        if isinstance(v, (list, tuple)) or isinstance(v, np.ndarray) and v.ndim:
            return list(v)
        return [v] * len(ax)
    if output is not None:
        raise Unsupported('gaussian_filter output')
    for x, s, o, m, r in zip(ax, seq(sigma), seq(order), seq(mode),
                             seq(radius)):
        s = _scalar(s)
        if bool(s > 1e-15):
            a = plain(_gaussian_filter1d(a, s, x, int(o), None, m, cval,
                                         truncate, radius=r))
    return a.view(SymArray)


def _scalar(x):
    while isinstance(x, np.ndarray):
        x = x[()] if x.ndim == 0 else x.ravel()[0]
    if isinstance(x, Sym):
        c = x.const_val() if x.is_const() else None
        return x if c is None else c
    return float(x)


_BUILTIN_NP = None


class installed:
    """context manager: rebind numpy / scipy names in euphonic modules"""

    def __init__(self, extra=None):
        self.extra = extra or {}

    def __enter__(self):
        self.saved = []
        proxy = NP()
        import scipy.special
        import scipy.ndimage
        import scipy.signal
        import scipy.optimize
        special = {id(scipy.special.erfc): scipy_guard(scipy.special.erfc,
                                                       _sym_erfc),
                   id(scipy.ndimage.correlate1d): scipy_guard(
                       scipy.ndimage.correlate1d, _correlate1d),
                   id(scipy.signal.convolve): scipy_guard(
                       scipy.signal.convolve, _convolve_sp),
                   id(scipy.optimize.nnls): scipy_guard(scipy.optimize.nnls),
                   id(scipy.ndimage.gaussian_filter): scipy_guard(
                       scipy.ndimage.gaussian_filter, _gaussian_filter),
                   id(scipy.ndimage.gaussian_filter1d): scipy_guard(
                       scipy.ndimage.gaussian_filter1d, _gaussian_filter1d),
                   id(scipy.ndimage.correlate): scipy_guard(
                       scipy.ndimage.correlate),
                   id(scipy.ndimage.convolve1d): scipy_guard(
                       scipy.ndimage.convolve1d),
                   id(scipy.signal.fftconvolve): scipy_guard(
                       scipy.signal.fftconvolve, _convolve_sp),
                   id(scipy.signal.oaconvolve): scipy_guard(
                       scipy.signal.oaconvolve, _convolve_sp),
                   }
        try:
            from scipy.stats import norm as snorm
            special[id(snorm)] = _NormProxy(snorm)
            import scipy.stats
            self.saved.append((scipy.stats, 'norm', snorm))
            scipy.stats.norm = special[id(snorm)]
        except ImportError:
            pass
        for name, mod in list(sys.modules.items()):
            if mod is None or not (name == 'euphonic' or
                                   name.startswith('euphonic.')):
                continue
            for k, v in list(vars(mod).items()):
                new = None
                if v is np:
                    new = proxy
                elif v is np.linalg:
                    new = proxy.linalg
                elif id(v) in special:
                    new = special[id(v)]
                elif v is math:
                    new = _MathProxy()
                elif callable(v) and getattr(v, '__module__', None) == 'math' \
                        and hasattr(_MathProxy, k):
                    new = getattr(_MathProxy(), k)
                elif callable(v) and not isinstance(v, type) and k[0] != '_' \
                        and getattr(np, k, None) is v:
                    new = getattr(proxy, k)
                elif callable(v) and not isinstance(v, type) and \
                        getattr(np.linalg, k, None) is v:
                    new = getattr(proxy.linalg, k)
                if new is not None:
                    self.saved.append((mod, k, v))
                    setattr(mod, k, new)
            for b, f in (('round', _b_round), ('float', None)):
                pass
        import pint.compat
        return self

    def __exit__(self, *a):
        for mod, k, v in self.saved:
            setattr(mod, k, v)


def _b_round(x, n=None):
    return round(x, n) if n is not None else round(x)


class _NormProxy:
    def __init__(self, n):
        self._n = n

    def pdf(self, x, loc=0, scale=1):
        if any(has_sym(v) for v in (x, loc, scale)):
            z = (x - loc) / scale
            e = np.exp(z * z * -0.5) if isinstance(z, np.ndarray) else \
                (z * z * -0.5).exp()
            return e / (scale * math.sqrt(2 * math.pi))
        return self._n.pdf(_tofloat(x), loc=_tofloat(loc), scale=_tofloat(scale))

    def cdf(self, x, loc=0, scale=1):
        if any(has_sym(v) for v in (x, loc, scale)):
            z = (x - loc) / scale * (-1 / math.sqrt(2))
            return _sym_erfc(z) * 0.5
        return self._n.cdf(_tofloat(x), loc=_tofloat(loc), scale=_tofloat(scale))

    def __getattr__(self, n):
        return getattr(self._n, n)


class _MathProxy(types.ModuleType):
    def __init__(self):
        super().__init__('math')

    def __getattr__(self, n):
        return getattr(math, n)


def _mk(n, m):
    def f(self, x, *a):
        if isinstance(x, Sym):
            return getattr(x, m)()
        return getattr(math, n)(x, *a)
    return f


for _n, _m in (('sqrt', 'sqrt'), ('exp', 'exp'), ('cos', 'cos'), ('sin', 'sin'),
               ('tan', 'tan'), ('tanh', 'tanh'), ('sinh', 'sinh'),
               ('cosh', 'cosh'), ('log10', 'log10'), ('log2', 'log2'),
               ('erfc', 'erfc'), ('erf', 'erf'), ('acos', 'arccos'),
               ('asin', 'arcsin'), ('atan', 'arctan'), ('fabs', '__abs__'),
               ('floor', '__floor__'), ('ceil', '__ceil__'),
               ('trunc', '__trunc__'), ('radians', 'deg2rad'),
               ('degrees', 'rad2deg')):
    setattr(_MathProxy, _n, _mk(_n, _m))


def _mlog(self, x, base=None):
    if isinstance(x, Sym):
        r = x.log()
        return r if base is None else r / math.log(base)
    return math.log(x) if base is None else math.log(x, base)


def _misclose(self, a, b, *, rel_tol=1e-9, abs_tol=0.0):
    if isinstance(a, Sym) or isinstance(b, Sym):
        d = abs(a - b)
        return bool(d <= abs_tol) or bool(d <= rel_tol * abs(a)) or \
            bool(d <= rel_tol * abs(b))
    return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)


_MathProxy.log = _mlog
_MathProxy.isclose = _misclose
_MathProxy.isnan = lambda self, x: False if isinstance(x, Sym) else math.isnan(x)
_MathProxy.isfinite = lambda self, x: True if isinstance(x, Sym) else \
    math.isfinite(x)
_MathProxy.hypot = lambda self, *a: _norm(sarr(list(a))) if any(
    isinstance(x, Sym) for x in a) else math.hypot(*a)
_MathProxy.pow = lambda self, a, b: a ** b
