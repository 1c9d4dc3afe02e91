"""Symbolic scalars: generalised polynomials  sum_k  c_k * mono_k * exp(Phi_k)

c_k are numbers, mono_k products of (possibly fractional / negative) powers of
real atoms, Phi_k complex polynomials in the atoms.  The form is canonical for
the functions met in Euphonic (rational functions, square roots, plane-wave
phases, Boltzmann factors), so comparing two results term by term is complete
up to the atoms; the verdict itself is taken by z3 over the emitted terms.
"""
import cmath
import math
from fractions import Fraction
import numbers

INF = float('inf')


class Unsupported(BaseException):
    """The engine cannot encode an operation symbolically"""


class Infeasible(BaseException):
    """Current path is infeasible / abandoned"""


CTX = None   # the active context (set by engine)


def ctx():
    if CTX is None:
        raise Unsupported('no active symbolic context')
    return CTX


# ---------------------------------------------------------------- coefficients
_canon = {}


def canon(x):
    """Intern a float so values equal to ~1e-10 relative become identical"""
    if x == 0:
        return 0.0
    if x != x or x in (INF, -INF):
        return x
    m, e = math.frexp(x)
    k = round(m * 2**34)
    for kk in (k, k - 1, k + 1):
        v = _canon.get((kk, e))
        if v is not None and abs(v - x) <= 2e-10 * abs(x):
            return v
    # near power of two boundary
    if abs(abs(m) - 0.5) < 1e-9:
        v = _canon.get((round(math.copysign(1, m) * 2**34), e - 1))
        if v is not None and abs(v - x) <= 2e-10 * abs(x):
            return v
    if abs(abs(m) - 1) < 1e-9:
        v = _canon.get((round(math.copysign(.5, m) * 2**34), e + 1))
        if v is not None and abs(v - x) <= 2e-10 * abs(x):
            return v
    _canon[(k, e)] = x
    return x


def canonc(c):
    if isinstance(c, complex):
        re, im = c.real, c.imag
        if im == 0:
            return canon(re)
        a = abs(c)
        if abs(im) < 1e-12 * a:
            return canon(re)
        if abs(re) < 1e-12 * a:
            re = 0.0
        return complex(canon(re), canon(im))
    return canon(float(c))


def _cl(c):
    """clean coefficient"""
    if isinstance(c, complex):
        if c.imag == 0:
            return c.real
        if abs(c.imag) < 1e-14 * abs(c.real):
            return c.real
        if c.real and abs(c.real) < 1e-14 * abs(c.imag):
            return complex(0.0, c.imag)
    return c


class Atom:
    __slots__ = ('id', 'name', 'kind', 'lo', 'hi', 'defn', 'fn', 'isint', 'z')

    def __init__(self, id, name, kind, lo, hi, defn=None, fn=None):
        self.id = id
        self.name = name
        self.kind = kind   # 'input' | 'poly' | 'fn'
        self.lo = lo
        self.hi = hi
        self.defn = defn
        self.fn = fn
        self.isint = False

    def __repr__(self):
        return self.name


# ------------------------------------------------------------------- monomials
_mm_cache = {}


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    key = (a, b)
    r = _mm_cache.get(key)
    if r is not None:
        return r
    d = dict(a)
    for k, e in b:
        n = d.get(k, 0) + e
        if n == 0:
            d.pop(k, None)
        else:
            if isinstance(n, Fraction) and n.denominator == 1:
                n = int(n)
            d[k] = n
    r = tuple(sorted(d.items()))
    if len(_mm_cache) > 500000:
        _mm_cache.clear()
    _mm_cache[key] = r
    return r


def mono_pow(a, n):
    if n == 0:
        return ()
    out = []
    for k, e in a:
        p = e * n
        if isinstance(p, Fraction) and p.denominator == 1:
            p = int(p)
        out.append((k, p))
    return tuple(out)


def phi_add(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, c in b:
        o = d.get(k, 0)
        n = o + c
        if abs(n) <= 1e-11 * max(abs(o), abs(c)):
            d.pop(k, None)
        else:
            d[k] = canonc(n)
    return tuple(sorted(d.items(), key=_phikey))


def _phikey(t):
    c = complex(t[1])
    return (t[0], c.real, c.imag)


def phi_scale(a, s):
    return tuple(sorted(((k, canonc(c * s)) for k, c in a), key=_phikey))


def phi_conj(a):
    return tuple(sorted(
        ((k, c.conjugate() if isinstance(c, complex) else c) for k, c in a),
        key=_phikey))


def phi_is_real(a):
    return all(not isinstance(c, complex) for _, c in a)


class SymBool:
    """Comparison on real Syms: kind in '>0','>=0','==0','and','or','not'"""
    __slots__ = ('kind', 'args')

    def __init__(self, kind, *args):
        self.kind = kind
        self.args = args

    def __bool__(self):
        return ctx().fork(self)

    def __and__(self, o):
        return sb_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return sb_or(self, o)
    __ror__ = __or__

    def __invert__(self):
        return sb_not(self)
    logical_not = __invert__

    def __xor__(self, o):
        return bool(self) != bool(o)
    __rxor__ = __xor__

    def __eq__(self, o):
        return bool(self) == o
    __hash__ = None

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __mul__(self, o):
        return bool(self) * o
    __rmul__ = __mul__

    def __add__(self, o):
        return bool(self) + o
    __radd__ = __add__

    def __repr__(self):
        return f'{self.kind}{self.args}'


def sb_and(a, b):
    if isinstance(a, SymBool) and isinstance(b, SymBool):
        return SymBool('and', a, b)
    if isinstance(a, SymBool):
        a, b = b, a
    return b if a else False


def sb_or(a, b):
    if isinstance(a, SymBool) and isinstance(b, SymBool):
        return SymBool('or', a, b)
    if isinstance(a, SymBool):
        a, b = b, a
    return True if a else b


def sb_not(a):
    if isinstance(a, SymBool):
        if a.kind == 'not':
            return a.args[0]
        return SymBool('not', a)
    return not a


def is_num(x):
    return isinstance(x, numbers.Number) and not isinstance(x, Sym)


def _conj_pair(a, b):
    """b is the complex conjugate of a, term by term (so a*b >= 0)"""
    if b is a or a.t is b.t:
        return bool(a.is_real())
    n = 0
    for (m, p), c in a.t.items():
        cb = b.t.get((m, phi_conj(p)))
        if cb is None:
            return False
        if abs(complex(c).conjugate() - cb) > 1e-14 * abs(c):
            return False
    return True


def _exp_arccos(m, c):
    """exp(i n arccos(u)) = (u + i sqrt(1 - u^2))^n"""
    if len(m) != 1 or m[0][1] != 1 or not isinstance(c, complex) or c.real:
        return None
    a = ctx().atoms[m[0][0]]
    if a.kind != 'fn' or a.fn != 'arccos':
        return None
    n = round(c.imag)
    if abs(c.imag - n) > 1e-12 or not 0 < abs(n) < 4:
        return None
    u = a.defn
    w = 1 - u * u
    if not ctx().is_nonneg(w):
        # beyond rounding errors arccos is not defined
        if not bool(w >= -1e-9):
            raise Unsupported('arccos outside its range')
        ctx()._assert(w >= 0)
    e = u + w.sqrt() * (1j if n > 0 else -1j)
    r = e
    for _ in range(abs(n) - 1):
        r = r * e
    return r


class Sym:
    __slots__ = ('t', '_real', 'nn')
    __array_priority__ = -1

    def __init__(self, terms):
        self.t = terms
        self._real = None
        self.nn = False

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import npshim
        return npshim.sym_ufunc(ufunc, method, inputs, kw)

    # numpy-scalar-like attributes
    ndim = 0
    shape = ()
    size = 1

    # -- construction
    @staticmethod
    def const(c):
        c = _cl(complex(c)) if not isinstance(c, (int, float)) else float(c)
        return Sym({((), ()): c} if c != 0 else {})

    @staticmethod
    def atom(a):
        return Sym({(((a.id, 1),), ()): 1.0})

    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and ((), ()) in t)

    def const_val(self):
        v = self.t.get(((), ()), 0.0)
        return v

    @staticmethod
    def lift(x):
        if isinstance(x, Sym):
            return x
        if isinstance(x, numbers.Number):
            return Sym.const(complex(x) if isinstance(x, complex) else float(x))
        if isinstance(x, SymBool):
            return Sym.const(float(bool(x)))
        if getattr(x, 'shape', None) == () and hasattr(x, 'item'):
            return Sym.lift(x.item())
        return None

    # -- arithmetic
    def __add__(self, o):
        o = Sym.lift(o)
        if o is None:
            return NotImplemented
        if len(o.t) > len(self.t):
            a, b = o.t, self.t
        else:
            a, b = self.t, o.t
        d = dict(a)
        for k, c in b.items():
            x = d.get(k)
            if x is None:
                d[k] = c
            else:
                n = _cl(x + c)
                if abs(n) <= 1e-13 * max(abs(x), abs(c)):
                    del d[k]
                else:
                    d[k] = n
        return Sym(d)
    __radd__ = __add__

    def __neg__(self):
        return Sym({k: -c for k, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = Sym.lift(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, (int, float)):
            if o == 0:
                return Sym({})
            if o == 1:
                return self
            o = float(o)
            return Sym({k: c * o for k, c in self.t.items()})
        o = Sym.lift(o)
        if o is None:
            return NotImplemented
        if not self.t or not o.t:
            return Sym({})
        if o.is_const():
            c0 = o.const_val()
            return Sym({k: _cl(c * c0) for k, c in self.t.items()})
        if self.is_const():
            c0 = self.const_val()
            return Sym({k: _cl(c * c0) for k, c in o.t.items()})
        d = {}
        scale = {}
        for (m1, p1), c1 in self.t.items():
            for (m2, p2), c2 in o.t.items():
                k = (mono_mul(m1, m2), phi_add(p1, p2))
                c = _cl(c1 * c2)
                x = d.get(k)
                if x is None:
                    d[k] = c
                else:
                    d[k] = _cl(x + c)
                    scale[k] = max(scale.get(k, 0.), abs(x), abs(c))
        for k, s in scale.items():
            if abs(d[k]) <= 1e-13 * s:
                del d[k]
        r = _reduce(Sym(d))
        if len(self.t) == len(o.t) and _conj_pair(self, o):
            r.nn = True
        return r
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (int, float)) and not isinstance(o, bool):
            o = float(o)
            if o == 0:
                raise Unsupported('division by zero')
            return Sym({k: c / o for k, c in self.t.items()})
        o = Sym.lift(o)
        if o is None:
            return NotImplemented
        if self.t and len(self.t) == len(o.t) and self.is_real_syntactic():
            # x/x and proportional numerators
            r = _ratio(self, o)
            if r is not None:
                ctx().nonzero(o)
                return Sym.const(r)
        return self * o._inv()

    def __rtruediv__(self, o):
        o = Sym.lift(o)
        if o is None:
            return NotImplemented
        return o / self

    def _inv(self):
        if self.is_const():
            c = self.const_val()
            if c == 0:
                raise Unsupported('division by zero')
            return Sym.const(1 / c)
        return self ** -1

    def __pow__(self, n):
        if isinstance(n, Sym):
            if n.is_const():
                n = n.const_val()
            else:
                return (n * self.log()).exp()
        if getattr(n, 'ndim', 0) > 0:
            return NotImplemented       # elementwise, by the array
        if hasattr(n, 'item') and not isinstance(n, numbers.Number):
            n = n.item()
        if not isinstance(n, numbers.Number):
            return NotImplemented
        if isinstance(n, complex):
            raise Unsupported('complex power')
        if self.is_const():
            return Sym.const(complex(self.const_val()) ** n
                             if isinstance(self.const_val(), complex)
                             else self.const_val() ** n)
        fn = Fraction(n).limit_denominator(1000)
        if abs(float(fn) - float(n)) > 1e-12:
            raise Unsupported(f'power {n}')
        if fn.denominator == 1 and fn >= 0:
            n = int(fn)
            r = Sym.const(1)
            b = self
            while n:
                if n & 1:
                    r = r * b
                n >>= 1
                if n:
                    b = b * b
            return r
        if fn.denominator == 1:
            if fn != -1:
                return (self ** -1) ** int(-fn)
            return self._recip()
        # fractional
        if not self.is_real():
            raise Unsupported('fractional power of complex value')
        ip = fn.numerator // fn.denominator
        if ip != 0 and len(self.t) > 1:
            return self._root(fn - ip) * self ** ip
        return self._root(fn)

    def __rpow__(self, o):
        if is_num(o):
            return (self * math.log(o)).exp()
        return NotImplemented

    def _recip(self):
        if not self.is_real() and len(self.t) > 1:
            cj = self.conjugate()
            den = self * cj
            return cj * den._recip()
        if len(self.t) == 1:
            ((m, p), c), = self.t.items()
            ctx().nonzero(self)
            return _reduce(Sym({(mono_pow(m, -1), phi_scale(p, -1)): _cl(1 / c)}))
        ctx().nonzero(self)
        lead, norm = self._normalise()
        a = ctx().poly_atom(norm)
        return lead._recip() * Sym({(((a.id, -1),), ()): 1.0})

    def _root(self, fr):
        """self**fr, fr fractional, self real and required nonneg"""
        C = ctx()
        if len(self.t) == 1:
            ((m, p), c), = self.t.items()
            if not isinstance(c, complex) and c > 0 and phi_is_real(p) and all(
                    C.atom_nonneg(k) for k, e in m):
                return _reduce(Sym({(mono_pow(m, fr), phi_scale(p, float(fr))):
                                    c ** float(fr)}))
        if not C.is_nonneg(self):
            if C.is_nonneg(-self):
                # sqrt of a strictly negative number
                if bool(SymBool('==0', self)):
                    return Sym({})
                raise Unsupported('root of negative value')
            if bool(SymBool('>=0', self)):
                return self._root(fr)
            raise Unsupported('root of negative value')
        lead, norm = self._normalise(positive=True)
        if norm.is_const():
            return lead._root(fr) if not lead.is_const() else lead ** fr
        a = C.poly_atom(norm, nonneg=True)
        return lead ** fr * Sym({(((a.id, fr),), ()): 1.0})

    def _normalise(self, positive=False):
        """(lead, norm): self = lead*norm, norm canonical up to the factor"""
        C = ctx()
        items = sorted(self.t.items(), key=lambda kv: _termkey(kv[0]))
        (m, p), c = items[-1]
        c = canonc(c)
        if positive:
            # only factor positive things
            m = tuple((k, e) for k, e in _common_mono([k[0] for k in self.t])
                      if C.atom_nonneg(k))
            if not phi_is_real(p) or len(p) == 0:
                p = ()
            lead = Sym({(m, p): abs(c)})
            f = Sym({(mono_pow(m, -1), phi_scale(p, -1)): 1 / abs(c)})
        else:
            m = _common_mono([k[0] for k in self.t])
            if not phi_is_real(p):
                p = ()
            lead = Sym({(m, p): c})
            f = Sym({(mono_pow(m, -1), phi_scale(p, -1)): _cl(1 / c)})
        d = {}
        for k, cc in self.t.items():
            for (m2, p2), c2 in f.t.items():
                d[(mono_mul(k[0], m2), phi_add(k[1], p2))] = canonc(_cl(cc * c2))
        return lead, Sym(d)

    # -- complex structure
    def conjugate(self):
        if self._real:
            return self
        return Sym({(m, phi_conj(p)): (c.conjugate() if isinstance(c, complex)
                                       else c)
                    for (m, p), c in self.t.items()})
    conj = conjugate

    def is_real_syntactic(self):
        return all(not p and not isinstance(c, complex)
                   for (m, p), c in self.t.items())

    def is_real(self):
        if self._real is None:
            if self.is_real_syntactic():
                self._real = True
            else:
                d = self - self.conjugate()
                s = max(abs(c) for c in self.t.values())
                self._real = all(abs(c) <= 1e-11 * s for c in d.t.values())
        return self._real

    @property
    def real(self):
        if self.is_real_syntactic():
            return self
        r = (self + self.conjugate()) * 0.5
        r._real = True
        return r

    @property
    def imag(self):
        if self.is_real_syntactic():
            return Sym({})
        r = (self - self.conjugate()) * (-0.5j)
        r._real = True
        return r

    def __abs__(self):
        if self.is_const():
            return Sym.const(abs(self.const_val()))
        if self.nn:
            return self
        if self.is_real():
            C = ctx()
            if C.abs_mode == 'atom':
                lo, hi = C.interval(self)
                if lo >= 0:
                    return self
                if hi <= 0:
                    return -self
                return C.max_atom([self, -self])
            if C.is_nonneg(self):
                return self
            if C.is_nonneg(-self):
                return -self
            if C.abs_mode == 'fork' and self.is_real_syntactic():
                return self if bool(SymBool('>=0', self)) else -self
            return (self * self)._root(Fraction(1, 2))
        if len(self.t) == 1:
            ((m, p), c), = self.t.items()
            rp = tuple((k, complex(x).real) for k, x in p if complex(x).real)
            return abs(Sym({(m, ()): 1.0})) * Sym({((), rp): abs(c)})
        p = (self * self.conjugate()).real
        p.nn = True
        return p._root(Fraction(1, 2))

    # -- elementary functions (numpy object-ufunc names)
    def sqrt(self):
        if getattr(ctx(), 'complex_roots', False) or (
                not self.is_real_syntactic() and not self.is_real()):
            return self.csqrt()
        return self ** Fraction(1, 2)

    def csqrt(self):
        """principal root of a complex number"""
        re, im = self.real, self.imag
        if bool(im == 0):
            if re >= 0:
                return re ** Fraction(1, 2)
            return (-re) ** Fraction(1, 2) * 1j
        m = (re * re + im * im) ** Fraction(1, 2)
        a = ((m + re) * .5) ** Fraction(1, 2)
        b = ((m - re) * .5) ** Fraction(1, 2)
        return a + (b * 1j if im > 0 else b * -1j)

    def cbrt(self):
        if ctx().is_nonneg(self):
            return self ** Fraction(1, 3)
        return -((-self) ** Fraction(1, 3))

    def square(self):
        return self * self

    def exp(self):
        const = self.t.get(((), ()), 0.0)
        phi = []
        mult = None
        for (m, p), c in self.t.items():
            if p:
                return ctx().fn_atom('exp', self)
            if m:
                r = _exp_arccos(m, c)
                if r is not None:
                    mult = r if mult is None else mult * r
                    continue
                phi.append((m, canonc(c)))
        e = cmath.exp(const) if isinstance(const, complex) else math.exp(const)
        if isinstance(e, complex):
            a = abs(e)
            re = 0.0 if abs(e.real) < 1e-13 * a else e.real
            im = 0.0 if abs(e.imag) < 1e-13 * a else e.imag
            e = complex(re, im) if im else re
        r = Sym({((), tuple(sorted(phi, key=_phikey))): e})
        return r if mult is None else r * mult

    def expm1(self):
        return self.exp() - 1

    def cos(self):
        e = (self * 1j).exp()
        return (e + e.conjugate()) * 0.5 if self.is_real() else \
            (e + (self * -1j).exp()) * 0.5

    def sin(self):
        e = (self * 1j).exp()
        return (e - (self * -1j).exp()) * -0.5j

    def tan(self):
        return self.sin() / self.cos()

    def sinh(self):
        return (self.exp() - (-self).exp()) * 0.5

    def cosh(self):
        return (self.exp() + (-self).exp()) * 0.5

    def tanh(self):
        return self.sinh() / self.cosh()

    def log(self):
        if self.is_const():
            return Sym.const(math.log(self.const_val()))
        if len(self.t) == 1:
            ((m, p), c), = self.t.items()
            if not m and phi_is_real(p) and not isinstance(c, complex) and c > 0:
                return Sym({(k, ()): v for k, v in p}) + math.log(c)
        return ctx().fn_atom('log', self)

    def log2(self):
        return self.log() / math.log(2)

    def log10(self):
        return self.log() / math.log(10)

    def erfc(self):
        return ctx().fn_atom('erfc', self)

    def erf(self):
        return 1 - ctx().fn_atom('erfc', self)

    def arccos(self):
        return ctx().fn_atom('arccos', self)

    def arcsin(self):
        return math.pi / 2 - ctx().fn_atom('arccos', self)

    def arctan(self):
        return ctx().fn_atom('arctan', self)

    def deg2rad(self):
        return self * (math.pi / 180)
    radians = deg2rad

    def rad2deg(self):
        return self * (180 / math.pi)
    degrees = rad2deg

    def sign(self):
        if bool(SymBool('>0', self)):
            return 1.0
        if bool(SymBool('==0', self)):
            return 0.0
        return -1.0

    def floor(self):
        return float(ctx().int_floor(self))

    def ceil(self):
        return -float(ctx().int_floor(-self))

    def rint(self):
        """round half to even"""
        return float(ctx().int_rint(self))

    def trunc(self):
        if bool(SymBool('>=0', self)):
            return float(ctx().int_floor(self))
        return -float(ctx().int_floor(-self))

    def __round__(self, n=None):
        if n is None or n == 0:
            v = self.rint()
            return int(v) if n is None else v
        return (self * 10**n).rint() / 10**n

    def round(self, decimals=0, out=None):
        return self.__round__(decimals)

    def __floor__(self):
        return int(self.floor())

    def __ceil__(self):
        return int(self.ceil())

    def __trunc__(self):
        return int(self.trunc())

    def __floordiv__(self, o):
        return (self / o).floor()

    def __rfloordiv__(self, o):
        return (o / self).floor()

    def __mod__(self, o):
        return self - o * (self / o).floor()

    def __rmod__(self, o):
        return o - self * (o / self).floor()

    def __divmod__(self, o):
        f = (self / o).floor()
        return f, self - o * f

    # -- conversions
    def __float__(self):
        if self.is_const():
            return float(complex(self.const_val()).real)
        raise Unsupported('float() of symbolic value')

    def __complex__(self):
        if self.is_const():
            return complex(self.const_val())
        raise Unsupported('complex() of symbolic value')

    def __int__(self):
        return int(self.trunc())

    def __index__(self):
        raise TypeError('symbolic real used as an index')

    def __bool__(self):
        return bool(self != 0)

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def astype(self, dt):
        import numpy as np
        if np.issubdtype(dt, np.integer):
            return int(self)
        return self

    # -- comparisons
    def _cmp(self, o, kind, swap):
        o = Sym.lift(o)
        if o is None:
            return NotImplemented
        if o.is_const() and not isinstance(o.const_val(), complex) and \
                math.isinf(o.const_val()):
            big = o.const_val() > 0
            if kind == '==0':
                return False
            return (not big) if not swap else big
        d = (o - self) if swap else (self - o)
        if not d.is_real():
            if kind == '==0':
                a, b = d.real, d.imag
                return sb_and(a._cmp(0, '==0', False), b._cmp(0, '==0', False))
            d = d.real
        if d.is_const():
            v = float(complex(d.const_val()).real)
            return {'>0': v > 0, '>=0': v >= 0, '==0': v == 0}[kind]
        return SymBool(kind, d)

    def __gt__(self, o):
        return self._cmp(o, '>0', False)

    def __ge__(self, o):
        return self._cmp(o, '>=0', False)

    def __lt__(self, o):
        return self._cmp(o, '>0', True)

    def __le__(self, o):
        return self._cmp(o, '>=0', True)

    def __eq__(self, o):
        r = self._cmp(o, '==0', False)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, '==0', False)
        return True if r is NotImplemented else sb_not(r)
    __hash__ = None

    def __repr__(self):
        if self.is_const():
            return repr(self.const_val())
        C = CTX
        out = []
        for (m, p), c in list(self.t.items())[:6]:
            s = f'{c:.6g}' if not isinstance(c, complex) else f'({c:.6g})'
            for k, e in m:
                nm = C.atoms[k].name if C and k < len(C.atoms) else f'a{k}'
                s += f'*{nm}' + (f'^{e}' if e != 1 else '')
            if p:
                s += '*exp(' + '+'.join(
                    f'{c2:.5g}' + ''.join(
                        '*' + (C.atoms[k].name if C else f'a{k}')
                        + (f'^{e}' if e != 1 else '') for k, e in m2)
                    for m2, c2 in p) + ')'
            out.append(s)
        if len(self.t) > 6:
            out.append(f'...({len(self.t)} terms)')
        return 'Sym<' + ' + '.join(out) + '>'

    def __format__(self, spec):
        return repr(self)


numbers.Number.register(Sym)


def _ratio(a, b):
    """r with a == r*b (term-wise), or None"""
    r = None
    for k, c in a.t.items():
        d = b.t.get(k)
        if d is None:
            return None
        x = c / d
        if r is None:
            r = x
        elif abs(x - r) > 1e-12 * abs(r):
            return None
    return r


def _termkey(k):
    m, p = k
    # group order on exponent parts first (translation invariant), then mono
    return (tuple((mm, complex(c).real, complex(c).imag) for mm, c in p),
            tuple((i, float(e)) for i, e in m))


def _common_mono(monos):
    """common factor (min exponents) of a list of monomials"""
    it = iter(monos)
    d = dict(next(it))
    for m in it:
        dm = dict(m)
        for k in set(d) | set(dm):
            v = min(d.get(k, 0), dm.get(k, 0))
            if v == 0:
                d.pop(k, None)
            else:
                d[k] = v
    return tuple(sorted(d.items()))


def _reduce(s):
    """expand poly-atoms with exponent >= 1 by their definition"""
    C = CTX
    if C is None or not C.poly_ids:
        return s
    pid = C.poly_ids
    bad = None
    for (m, p) in s.t:
        for k, e in m:
            if k in pid and e >= 1:
                bad = True
                break
        if bad:
            break
    if not bad:
        return s
    keep = {}
    out = Sym(keep)
    extra = Sym({})
    for (m, p), c in s.t.items():
        hit = None
        for k, e in m:
            if k in pid and e >= 1:
                hit = (k, e)
                break
        if hit is None:
            keep[(m, p)] = c
        else:
            k, e = hit
            n = int(math.floor(e))
            rest = mono_mul(m, ((k, -n),))
            extra = extra + Sym({(rest, p): c}) * (C.atoms[k].defn ** n)
    return out + extra


def clear_denominators(s):
    """multiply by powers of poly atoms to make all their exponents >= 0.
    Returns (cleared, factor_monomial)"""
    C = ctx()
    fac = []
    for _ in range(20):
        need = {}
        for (m, p) in s.t:
            for k, e in m:
                if k in C.poly_ids and e < 0:
                    need[k] = min(need.get(k, 0), e)
        if not need:
            break
        f = tuple(sorted((k, int(math.ceil(-e))) for k, e in need.items()))
        fac.append(f)
        d = {}
        for (m, p), c in s.t.items():
            d[(mono_mul(m, f), p)] = c
        s = _reduce(Sym(d))
    return s, fac
