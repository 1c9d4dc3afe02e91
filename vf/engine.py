"""Path exploration and z3 decision procedure for symbolic runs"""
import cmath
import math
import random
import time
from fractions import Fraction

import z3

from . import sym as S
from .sym import (Sym, SymBool, Atom, Unsupported, Infeasible, INF,
                  clear_denominators, phi_is_real)

z3.set_param('parallel.enable', False)


def _imul(a, b):
    c = []
    for x in a:
        for y in b:
            c.append(0.0 if x == 0 or y == 0 else x * y)
    return min(c), max(c)


def _ipow(i, e):
    lo, hi = i
    if isinstance(e, int) or (isinstance(e, Fraction) and e.denominator == 1):
        e = int(e)
        if e >= 0:
            try:
                a, b = lo ** e, hi ** e
            except OverflowError:
                return -INF, INF
            if e % 2 == 0:
                if lo <= 0 <= hi:
                    return 0.0, max(a, b)
                return min(a, b), max(a, b)
            return a, b
        if lo > 0 or hi < 0:
            j = _ipow((1 / hi if hi != INF else 0.0,
                       1 / lo if lo != -INF else 0.0), -e)
            return min(j), max(j)
        return (-INF, INF) if e % 2 else (0.0, INF)
    lo = max(lo, 0.0)
    hi = max(hi, 0.0)
    e = float(e)
    if e > 0:
        return lo ** e, (hi ** e if hi != INF else INF)
    return ((hi ** e if hi not in (0.0, INF) else (0.0 if hi == INF else INF)),
            (lo ** e if lo > 0 else INF))


class Violation:
    def __init__(self, label, assignment, detail, confirmed_by):
        self.label = label
        self.assignment = assignment
        self.detail = detail
        self.confirmed_by = confirmed_by


class Enough(BaseException):
    """a violation has been found and the rest takes long"""


GRACE = 45      # seconds of further work after a candidate violation


class PathBudget(Exception):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.forks = 0
        self.paths = 0
        self.obligations = 0
        self.entries = 0
        self.terms = 0
        self.assumed_nonzero = 0

    def d(self):
        return dict(self.__dict__)


class Context:
    """One symbolic path"""
    symbolic = True

    def __init__(self, prefix, stats, rng, opts):
        self.prefix = prefix
        self.decisions = []
        self.alternatives = []
        self.stats = stats
        self.rng = rng
        self.opts = opts
        self.atoms = []
        self.poly_ids = set()
        self._poly_lookup = {}
        self._fn_lookup = {}
        self.inputs = {}
        self.choices = {}
        self.pc = []            # list of SymBool / (negations)
        self.solver = z3.Solver()
        self.solver.set('timeout', opts.get('fork_timeout', 5000))
        self._zterm = {}
        self._zvar = {}
        self._nn = {}
        self.abs_mode = opts.get('abs_mode', 'fork')
        self.violations = []
        self.t_viol = None
        self.inconclusive = []
        self.records = []       # (label, lhs array) for trace validation
        self.nonzero_seen = set()
        self.npoly = 0
        self.notes = []
        self.sample_pool = []

    # ------------------------------------------------------------- inputs
    def real(self, name, lo, hi):
        if name in self.inputs:
            return Sym.atom(self.inputs[name])
        a = Atom(len(self.atoms), name, 'input', float(lo), float(hi))
        self.atoms.append(a)
        self.inputs[name] = a
        v = self.zvar(a)
        if lo != -INF:
            self.solver.add(v >= q(lo))
        if hi != INF:
            self.solver.add(v <= q(hi))
        return Sym.atom(a)

    def fresh(self, base, lo=-1e6, hi=1e6):
        i = 0
        while f'{base}#{i}' in self.inputs:
            i += 1
        return self.real(f'{base}#{i}', lo, hi)

    def choice(self, name, options):
        """concrete configuration choice: every option is explored"""
        options = list(options)
        if name in self.choices:
            return options[self.choices[name]]
        i = 0
        k = len(self.decisions)
        if k < len(self.prefix):
            i = self.prefix[k]
        else:
            for alt in range(len(options) - 1, 0, -1):
                self.alternatives.append(self.decisions + [alt])
        self.decisions.append(i)
        self.choices[name] = i
        return options[i]

    def assume(self, cond):
        """restrict to cond (bool or SymBool)"""
        if isinstance(cond, SymBool):
            self._assert(cond)
            r = self._check()
            if r == z3.unsat:
                raise Infeasible()
        elif not cond:
            raise Infeasible()

    # ------------------------------------------------------------- atoms
    def poly_atom(self, p, nonneg=False):
        key = frozenset(p.t.items())
        a = self._poly_lookup.get(key)
        if a is None:
            lo, hi = self.interval(p)
            if nonneg:
                lo = max(lo, 0.0)
            a = Atom(len(self.atoms), f'P{len(self.atoms)}', 'poly', lo, hi,
                     defn=p)
            self.atoms.append(a)
            self.poly_ids.add(a.id)
            self._poly_lookup[key] = a
        if nonneg and a.lo < 0:
            a.lo = 0.0
        return a

    def fn_atom(self, fn, arg):
        key = (fn, frozenset((k, S.canonc(c)) for k, c in arg.t.items()))
        a = self._fn_lookup.get(key)
        if a is None:
            lo, hi = self.interval(arg)
            try:
                rng = {'exp': lambda: (math.exp(max(lo, -700)) if lo > -INF else 0.,
                                       math.exp(hi) if hi < 700 else INF),
                       'log': lambda: (math.log(lo) if lo > 0 else -INF,
                                       math.log(hi) if 0 < hi < INF else INF),
                       'erfc': lambda: (math.erfc(min(hi, 25)),
                                        math.erfc(max(lo, -25))),
                       'arccos': lambda: (0., math.pi),
                       'arctan': lambda: (-math.pi / 2, math.pi / 2),
                       }[fn]()
            except KeyError:
                rng = (-INF, INF)
            a = Atom(len(self.atoms), f'{fn}_{len(self.atoms)}', 'fn', rng[0],
                     rng[1], defn=arg, fn=fn)
            self.atoms.append(a)
            self._fn_lookup[key] = a
        return Sym.atom(a)

    def max_atom(self, lst):
        """largest of the given values, without splitting the path"""
        lst = [Sym.lift(x) for x in lst]
        key = frozenset(frozenset((k, S.canonc(c)) for k, c in x.t.items())
                        for x in lst)
        if len(key) == 1:
            return lst[0]
        a = self._fn_lookup.get(('max', key))
        if a is None:
            iv = [self.interval(x) for x in lst]
            a = Atom(len(self.atoms), f'max_{len(self.atoms)}', 'max',
                     max(i[0] for i in iv), max(i[1] for i in iv),
                     defn=tuple(lst))
            self.atoms.append(a)
            self._fn_lookup[('max', key)] = a
        return Sym.atom(a)

    def nonzero(self, p):
        if p.is_const():
            return
        lo, hi = self.interval(p)
        if lo > 0 or hi < 0:
            return
        key = frozenset(p.t.items())
        if key in self.nonzero_seen:
            return
        self.nonzero_seen.add(key)
        self.stats.assumed_nonzero += 1
        if len(p.t) <= 8 and p.is_real():
            self.pc.append(S.sb_not(SymBool('==0', p)))
            self.solver.add(self.zreal(p) != 0)

    def atom_nonneg(self, aid):
        a = self.atoms[aid]
        if a.lo >= 0:
            return True
        return self.is_nonneg(Sym.atom(a))

    def is_nonneg(self, p):
        if p.nn:
            return True
        lo, hi = self.interval(p)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        if len(p.t) > 40:
            return False
        key = (frozenset(p.t.items()), len(self.pc))
        r = self._nn.get(key)
        if r is None:
            # quick refutation with pooled samples
            for asg in self.sample_pool:
                try:
                    if self.evaluate(p, asg).real < -1e-12:
                        self._nn[key] = False
                        return False
                except Exception:
                    pass
            zp = self.zreal(p)
            self.solver.push()
            self.solver.add(zp < 0)
            res = self._check(2000)
            if res == z3.sat:
                self._pool_model()
            self.solver.pop()
            r = self._nn[key] = (res == z3.unsat)
        return r

    # ---------------------------------------------------------- intervals
    def interval(self, p):
        lo = hi = 0.0
        for (m, ph), c in p.t.items():
            i = (1.0, 1.0)
            for k, e in m:
                a = self.atoms[k]
                i = _imul(i, _ipow((a.lo, a.hi), e))
            if ph:
                rp = [(mm, complex(x).real) for mm, x in ph
                      if complex(x).real]
                if rp:
                    l2, h2 = self.interval(Sym({(mm, ()): x for mm, x in rp}))
                    f = (math.exp(l2) if l2 > -700 else 0.,
                         math.exp(h2) if h2 < 700 else INF)
                else:
                    f = (1., 1.)
                if not phi_is_real(ph):
                    f = (-f[1], f[1])
                i = _imul(i, f)
            if isinstance(c, complex):
                a = abs(c)
                mx = max(abs(i[0]), abs(i[1]))
                i = (-a * mx, a * mx)
            else:
                i = _imul(i, (c, c))
            lo += i[0]
            hi += i[1]
        return lo, hi

    # --------------------------------------------------------------- z3
    def zvar(self, a):
        v = self._zvar.get(a.id)
        if v is None:
            v = self._zvar[a.id] = z3.Real(a.name)
            if a.kind == 'poly':
                self.solver.add(v == self.zreal(a.defn))
                if a.lo >= 0:
                    self.solver.add(v >= 0)
            elif a.kind == 'fn':
                if a.lo != -INF:
                    self.solver.add(v >= q(a.lo - 1e-12 * abs(a.lo)))
                if a.hi != INF:
                    self.solver.add(v <= q(a.hi + 1e-12 * abs(a.hi)))
            elif a.kind == 'max':
                zs = [self.zreal(x) for x in a.defn]
                self.solver.add(*[v >= x for x in zs])
                self.solver.add(z3.Or([v == x for x in zs]))
        return v

    def zpow(self, a, e):
        v = self.zvar(a)
        if isinstance(e, int) and e > 0:
            r = v
            for _ in range(e - 1):
                r = r * v
            return r
        e = Fraction(e)
        n, d = e.numerator, e.denominator
        base = v
        if d > 1:
            key = ('root', a.id, d)
            base = self._zterm.get(key)
            if base is None:
                base = self._zterm[key] = z3.Real(f'{a.name}__r{d}')
                r = base
                for _ in range(d - 1):
                    r = r * base
                self.solver.add(base >= 0, r == v)
        if n < 0:
            key = ('inv', a.id, d)
            inv = self._zterm.get(key)
            if inv is None:
                inv = self._zterm[key] = z3.Real(f'{a.name}__i{d}')
                self.solver.add(inv * base == 1)
            base = inv
            n = -n
        r = base
        for _ in range(n - 1):
            r = r * base
        return r

    def zphi(self, ph):
        """(cos, sin, expre) z3 terms of exp(Phi) = e^a (cos b + i sin b)"""
        rp = tuple((m, complex(x).real) for m, x in ph if complex(x).real)
        ip = tuple((m, complex(x).imag) for m, x in ph if complex(x).imag)
        cs = None
        if ip:
            sgn = 1
            if ip[0][1] < 0:
                sgn = -1
                ip = tuple((m, -x) for m, x in ip)
            ip = tuple((m, S.canon(x)) for m, x in ip)
            key = ('ph', ip)
            cs = self._zterm.get(key)
            if cs is None:
                n = len(self._zterm)
                cs = (z3.Real(f'cos_{n}'), z3.Real(f'sin_{n}'))
                self._zterm[key] = cs
                self.solver.add(cs[0] * cs[0] + cs[1] * cs[1] == 1)
                self.solver.add(cs[0] <= 1, cs[0] >= -1,
                                cs[1] <= 1, cs[1] >= -1)
            cs = (cs[0], cs[1] * sgn)
        er = None
        if rp:
            rp = tuple((m, S.canon(x)) for m, x in rp)
            key = ('exp', rp)
            er = self._zterm.get(key)
            if er is None:
                neg = ('exp', tuple((m, S.canon(-x)) for m, x in rp))
                er = self._zterm[key] = z3.Real(f'exp_{len(self._zterm)}')
                arg = Sym({(m, ()): x for m, x in rp})
                za = self.zreal(arg)
                self.solver.add(er > 0, er >= 1 + za,
                                z3.Implies(za < 0, er < 1),
                                z3.Implies(za == 0, er == 1),
                                z3.Implies(za > 0, er > 1))
                lo, hi = self.interval(arg)
                if hi < 700:
                    self.solver.add(er <= q(math.exp(hi) * (1 + 1e-12)))
                if lo > -700:
                    self.solver.add(er >= q(math.exp(lo) * (1 - 1e-12)))
                if neg in self._zterm:
                    self.solver.add(er * self._zterm[neg] == 1)
        return cs, er

    def zreal(self, p):
        """z3 term of a real Sym"""
        tot = []
        for (m, ph), c in p.t.items():
            c = complex(c)
            cs, er = self.zphi(ph) if ph else (None, None)
            if cs is None:
                if abs(c.imag) > 1e-9 * abs(c.real):
                    continue      # cancels with its conjugate
                t = q(c.real)
            else:
                t = q(c.real) * cs[0] - q(c.imag) * cs[1]
            if er is not None:
                t = t * er
            for k, e in m:
                t = t * self.zpow(self.atoms[k], e)
            tot.append(t)
        if not tot:
            return z3.RealVal(0)
        return z3.Sum(tot) if len(tot) > 1 else tot[0]

    def zbool(self, b):
        if not isinstance(b, SymBool):
            return z3.BoolVal(bool(b))
        k = b.kind
        if k == 'and':
            return z3.And(self.zbool(b.args[0]), self.zbool(b.args[1]))
        if k == 'or':
            return z3.Or(self.zbool(b.args[0]), self.zbool(b.args[1]))
        if k == 'not':
            return z3.Not(self.zbool(b.args[0]))
        e = self.zreal(b.args[0])
        return {'>0': e > 0, '>=0': e >= 0, '==0': e == 0}[k]

    def _check(self, timeout=None, solver=None):
        s = solver or self.solver
        t = time.time()
        if self.violations:
            self.t_viol = self.t_viol or t
            if t - self.t_viol > GRACE:
                raise Enough
        if timeout:
            s.set('timeout', timeout)
        r = s.check()
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        if timeout:
            s.set('timeout', self.opts.get('fork_timeout', 5000))
        return r

    def _assert(self, b):
        self.pc.append(b)
        self._tighten(b)
        self.solver.add(self.zbool(b))
        if self.sample_pool:
            self.sample_pool = [a for a in self.sample_pool
                                if self.truth(b, a)]

    def quick(self, b):
        """decide a SymBool by intervals: True/False/None"""
        k = b.kind
        if k == 'not':
            r = self.quick(b.args[0])
            return None if r is None else not r
        if k in ('and', 'or'):
            a, c = (self.quick(x) if isinstance(x, SymBool) else bool(x)
                    for x in b.args)
            if k == 'and':
                if a is False or c is False:
                    return False
                return True if a and c else None
            if a or c:
                return True
            return False if (a is False and c is False) else None
        p = b.args[0]
        lo, hi = self.interval(p)
        if k == '>0':
            if lo > 0:
                return True
            if hi <= 0:
                return False
        elif k == '>=0':
            if lo >= 0:
                return True
            if hi < 0:
                return False
        else:
            if lo > 0 or hi < 0:
                return False
        return None

    def _tighten(self, b):
        """narrow the bounds of an input from a linear one-variable fact"""
        if not isinstance(b, SymBool):
            return
        neg = False
        while b.kind == 'not':
            neg = not neg
            b = b.args[0]
            if not isinstance(b, SymBool):
                return
        if b.kind in ('and', 'or'):
            if (b.kind == 'and') != neg:
                for x in b.args:
                    self._tighten(S.sb_not(x) if neg else x)
            return
        if b.kind == '==0' and neg:
            return
        c0, c1, at = 0.0, None, None
        for (m, ph), c in b.args[0].t.items():
            if ph or isinstance(c, complex):
                return
            if not m:
                c0 = c
            elif c1 is None and len(m) == 1 and m[0][1] == 1:
                at, c1 = self.atoms[m[0][0]], c
            else:
                return
        if at is None or at.kind != 'input' or at.isint:
            return
        x0 = -c0 / c1
        e = 1e-12 * abs(x0)
        if b.kind == '==0':
            at.lo, at.hi = max(at.lo, x0 - e), min(at.hi, x0 + e)
        elif (c1 > 0) != neg:
            at.lo = max(at.lo, x0 - e)
        else:
            at.hi = min(at.hi, x0 + e)
        if at.lo > at.hi:
            at.lo, at.hi = min(at.lo, at.hi), max(at.lo, at.hi)

    def fork(self, b):
        r = self.quick(b)
        if r is not None:
            return r
        self.stats.forks += 1
        k = len(self.decisions)
        if k < len(self.prefix):
            v = bool(self.prefix[k])
            self.decisions.append(int(v))
            self._assert(b if v else S.sb_not(b))
            return v
        if len(self.decisions) > self.opts.get('max_depth', 4000):
            raise PathBudget('path depth')
        # pooled samples tell feasibility cheaply
        seen = set()
        for asg in self.sample_pool:
            t = self.truth(b, asg)
            if t is not None:
                seen.add(t)
        zb = self.zbool(b)
        res = {}
        for v in (True, False):
            if v in seen:
                res[v] = z3.sat
                continue
            self.solver.push()
            self.solver.add(zb if v else z3.Not(zb))
            res[v] = self._check()
            if res[v] == z3.sat:
                self._pool_model()
            self.solver.pop()
        if res[True] == z3.unsat and res[False] == z3.unsat:
            raise Infeasible()
        if res[False] == z3.unsat:
            v = True
        elif res[True] == z3.unsat:
            v = False
        else:
            v = True
            if self.rng is not None and self.opts.get('random_order'):
                v = self.rng.random() < .5
            self.alternatives.append(self.decisions + [int(not v)])
        self.decisions.append(int(v))
        self.pc.append(b if v else S.sb_not(b))
        self._tighten(self.pc[-1])
        self.solver.add(zb if v else z3.Not(zb))
        self.sample_pool = [a for a in self.sample_pool
                            if self.truth(b, a) == v]
        return v

    def _pool_model(self):
        try:
            asg = self._model_assignment(self.solver.model())
        except Exception:
            return
        if self.pc_holds(asg):
            self.sample_pool.append(asg)
            if len(self.sample_pool) > 12:
                self.sample_pool.pop(0)

    def int_floor(self, p):
        if p.is_const():
            return math.floor(p.const_val())
        lo, hi = self.interval(p)
        if hi - lo > self.opts.get('max_int_range', 64):
            raise Unsupported('unbounded integer part')
        a, b = math.floor(lo), math.floor(hi)
        while a < b:
            mid = (a + b + 1) // 2
            if bool(p >= mid):
                a = mid
            else:
                b = mid - 1
        return a

    def int_rint(self, p):
        if p.is_const():
            return round(p.const_val())
        lo, hi = self.interval(p)
        if hi - lo > self.opts.get('max_int_range', 64):
            raise Unsupported('unbounded integer part')
        a, b = math.floor(lo + .5), math.floor(hi + .5)
        # a <= rint(p) <= b  (ties resolved below)
        if a > 0 and lo == a - .5 and a % 2:
            a -= 1
        elif lo == a - .5 and a % 2:
            a -= 1
        while a < b:
            mid = (a + b + 1) // 2
            # p rounds to >= mid iff p > mid-1/2 or (p == mid-1/2 and mid even)
            c = (p >= mid - .5) if mid % 2 == 0 else (p > mid - .5)
            if bool(c):
                a = mid
            else:
                b = mid - 1
        return a

    # ---------------------------------------------------------- evaluation
    def evaluate(self, p, asg, memo=None):
        """numeric value; asg: name -> float for inputs"""
        if memo is None:
            memo = {}
        tot = 0.0
        for (m, ph), c in p.t.items():
            v = c
            for k, e in m:
                v = v * self._aval(k, asg, memo) ** (
                    e if isinstance(e, int) else float(e))
            if ph:
                s = 0.0
                for mm, x in ph:
                    t = x
                    for k, e in mm:
                        t = t * self._aval(k, asg, memo) ** (
                            e if isinstance(e, int) else float(e))
                    s = s + t
                v = v * (cmath.exp(s) if isinstance(s, complex) else math.exp(s))
            tot = tot + v
        return complex(tot)

    def _aval(self, k, asg, memo):
        v = memo.get(k)
        if v is None:
            a = self.atoms[k]
            if a.kind == 'input':
                v = float(asg[a.name])
            elif a.kind == 'max':
                v = max(self.evaluate(x, asg, memo).real for x in a.defn)
            else:
                v = self.evaluate(a.defn, asg, memo).real
                if a.kind == 'fn':
                    v = {'exp': math.exp, 'log': math.log, 'erfc': math.erfc,
                         'arccos': math.acos, 'arctan': math.atan,
                         }[a.fn](v)
                elif a.lo >= 0 and v < 0:
                    v = 0.0
            memo[k] = v
        return v

    def truth(self, b, asg):
        if not isinstance(b, SymBool):
            return bool(b)
        k = b.kind
        if k == 'not':
            r = self.truth(b.args[0], asg)
            return None if r is None else not r
        if k == 'and':
            a, c = (self.truth(x, asg) for x in b.args)
            return None if a is None or c is None else (a and c)
        if k == 'or':
            a, c = (self.truth(x, asg) for x in b.args)
            return None if a is None or c is None else (a or c)
        try:
            memo = {}
            v, sc = 0.0, 0.0
            for kk, c in b.args[0].t.items():
                x = self.evaluate(Sym({kk: c}), asg, memo)
                v += x.real
                sc += abs(x)
        except (ValueError, OverflowError, ZeroDivisionError, KeyError):
            return None
        if k == '>0':
            return v > 0 if abs(v) > 1e-9 * sc else None
        if k == '>=0':
            return v >= 0 if abs(v) > 1e-9 * sc else None
        return False if abs(v) > 1e-9 * sc else None

    def pc_holds(self, asg, strict=True):
        for b in self.pc:
            t = self.truth(b, asg)
            if t is False or (t is None and strict):
                return False
        return True

    def _model_assignment(self, m):
        asg = {}
        for nm, a in self.inputs.items():
            v = m.eval(self.zvar(a), model_completion=False)
            if z3.is_rational_value(v):
                asg[nm] = float(v.numerator_as_long()) / float(
                    v.denominator_as_long()) if v.denominator_as_long() < 1 << 900 else float(v.as_fraction())
            elif z3.is_algebraic_value(v):
                asg[nm] = float(v.approx(20).as_fraction())
            else:
                lo, hi = a.lo, a.hi
                if lo == -INF:
                    lo = -10. if hi == INF else hi - 10
                if hi == INF:
                    hi = lo + 10
                asg[nm] = self.rng.uniform(lo, hi)
        return asg

    def random_assignment(self):
        asg = {}
        for nm, a in self.inputs.items():
            lo, hi = a.lo, a.hi
            if lo == -INF:
                lo = -10. if hi == INF else hi - 10
            if hi == INF:
                hi = lo + 10
            asg[nm] = self.rng.uniform(lo, hi)
        return asg

    def path_samples(self, n):
        """assignments satisfying the path condition (approximately)"""
        out = []
        for _ in range(6 * n):
            asg = self.random_assignment()
            if self.pc_holds(asg):
                out.append(asg)
                if len(out) >= n:
                    return out
        for a in self.sample_pool:
            if self.pc_holds(a, strict=False):
                out.append(a)
        if not out and self.pc:
            r = self._check(10000)
            if r == z3.sat:
                asg = self._model_assignment(self.solver.model())
                if self.pc_holds(asg, strict=False):
                    out.append(asg)
        # perturb variables around found points
        base = list(out)
        used = self._pc_vars()
        tries = 0
        while base and len(out) < n and tries < 8 * n:
            tries += 1
            b = dict(self.rng.choice(base))
            r = self.random_assignment()
            for nm in b:
                if nm not in used:
                    b[nm] = r[nm]
                elif tries % 2:
                    t = self.rng.random() ** 3
                    c = dict(b)
                    c[nm] = b[nm] + (r[nm] - b[nm]) * t
                    if self.pc_holds(c):
                        b = c
            if self.pc_holds(b, strict=False):
                out.append(b)
        return out

    def _pc_vars(self):
        used = set()

        def walk(p, seen):
            for (m, ph) in p.t:
                ms = [m] + [x for x, _ in ph]
                for mm in ms:
                    for k, _ in mm:
                        if k in seen:
                            continue
                        seen.add(k)
                        a = self.atoms[k]
                        if a.kind == 'input':
                            used.add(a.name)
                        elif a.kind == 'max':
                            for x in a.defn:
                                walk(x, seen)
                        else:
                            walk(a.defn, seen)

        def wb(b):
            if isinstance(b, SymBool):
                if b.kind in ('and', 'or', 'not'):
                    for x in b.args:
                        wb(x)
                else:
                    walk(b.args[0], set())
        for b in self.pc:
            wb(b)
        return used

    # ---------------------------------------------------------- obligations
    def eq(self, label, got, want, tol=1e-7, record=True, scale_tol=1e-12,
           floor=0.):
        """every entry of got equals want (to scale_tol times the largest
        coefficient of the array)"""
        self._scale_tol = scale_tol
        g, w = _flat(got), _flat(want)
        if len(w) == 1 and len(g) > 1:
            w = w * len(g)
        if len(g) != len(w) or _shape(got) != _shape(want) and \
                len(_flat(want)) != 1:
            self._violate_path(label, f'shape {_shape(got)} != {_shape(want)}')
            return False
        if record:
            self.records.append((label, g))
        self.stats.obligations += 1
        self.stats.entries += len(g)
        bad = self._abstract_differs(label, g, w)
        if not bad:
            return True
        # entries not settled by the linear abstraction
        for i in bad[:self.opts.get('max_bad', 4)]:
            if not self._decide_entry(label, i, g[i], w[i], tol):
                return False
        for i in bad[self.opts.get('max_bad', 4):]:
            if not self._decide_entry(label, i, g[i], w[i], tol):
                return False
        return True

    def _abstract_differs(self, label, g, w):
        """LRA query over independent term variables. Returns the indices for
        which a difference beyond tolerance cannot be excluded."""
        V = {}
        cand = []
        ors = []
        # entries that are noise next to the largest coefficient of the array
        # (cancellations of the constants) are no differences
        big0 = [abs(c) for x in list(g) + list(w) if isinstance(x, Sym)
                for c in x.t.values()]
        big0 += [abs(x) for x in list(g) + list(w)
                 if isinstance(x, (int, float, complex)) and not _nan(x)
                 and abs(x) != INF]
        floor = self._floor = self._scale_tol * max(big0, default=0.0)
        for i, (a, b) in enumerate(zip(g, w)):
            if _nan(a) or _nan(b):
                if not (_nan(a) and _nan(b)):
                    cand.append(i)
                continue
            a, b = Sym.lift(a), Sym.lift(b)
            if a is None or b is None:
                raise Unsupported('non-numeric value in obligation')
            d = a - b
            if d.t and (any(k in self.poly_ids and e < 0
                            for (m, p) in d.t for k, e in m)):
                d0, _ = clear_denominators(d)
                sc = sum(abs(c) for c in a.t.values()) + \
                    sum(abs(c) for c in b.t.values())
                a1, b1 = d0, Sym({})
                # scale taken from the cleared pieces
                sc = max([abs(c) for c in clear_denominators(a)[0].t.values()]
                         + [0.0])
                big = sc
            else:
                a1, b1 = a, b
                big = 0.0
            keys = set(a1.t) | set(b1.t)
            self.stats.terms += len(keys)
            e = []
            tolsum = 0.0
            for k in keys:
                x, y = a1.t.get(k, 0.0), b1.t.get(k, 0.0)
                tolsum += max(abs(x), abs(y))
                df = complex(x - y)
                v = V.get(k)
                if v is None:
                    n = len(V)
                    v = V[k] = (z3.Real(f'tr{n}'), z3.Real(f'ti{n}'))
                if df.real:
                    e.append(q(df.real) * v[0])
                if df.imag:
                    e.append(q(df.imag) * v[1])
            if not e:
                continue
            s = z3.Sum(e) if len(e) > 1 else e[0]
            t = q(1e-9 * max(tolsum if not big else 0.0, big) + floor + 1e-300)
            ors.append((i, z3.Or(s > t, s < -t)))
        sol = z3.SolverFor('QF_LRA')
        sol.set('timeout', 60000)
        for v in V.values():
            for x in v:
                sol.add(x >= -1, x <= 1)
        todo = ors
        if not todo and not cand:
            # nothing left but constants: discharge the empty disjunction
            sol.add(z3.Or([]) if False else z3.BoolVal(False))
            self._check(solver=sol)
            return []
        while todo:
            sol.push()
            sol.add(z3.Or([o for _, o in todo]))
            r = self._check(solver=sol)
            if r == z3.unsat:
                sol.pop()
                break
            if r == z3.sat:
                m = sol.model()
                hit = [i for i, o in todo if z3.is_true(m.eval(o, True))]
            else:
                hit = [i for i, o in todo]
            sol.pop()
            cand += hit
            todo = [(i, o) for i, o in todo if i not in hit]
            if not hit:
                cand += [i for i, _ in todo]
                break
        return sorted(cand)

    def _decide_entry(self, label, i, a, b, tol):
        if _nan(a) or _nan(b):
            self._violate_path(label, f'entry {i}: {a!r} vs {b!r}')
            return False
        a, b = Sym.lift(a), Sym.lift(b)
        d = a - b
        # numeric search on the path first
        best = None
        for asg in self.path_samples(self.opts.get('samples', 40)):
            try:
                va, vb = self.evaluate(a, asg), self.evaluate(b, asg)
            except (ValueError, OverflowError, ZeroDivisionError):
                continue
            err = abs(va - vb)
            sc = max(abs(va), abs(vb), 1e-300)
            if err > tol * sc * 10 and err > max(1e-300, 10 * self._floor):
                if best is None or err / sc > best[0]:
                    best = (err / sc, asg, va, vb)
        if best is not None:
            # hand the witness to the solver: pinned inputs
            asg = best[1]
            if self._pinned(asg, d):
                self.violations.append(Violation(
                    label, self._full(asg),
                    f'entry {i}: {best[2]:.10g} != {best[3]:.10g}',
                    'solver model pinned at witness'))
                return False
        # full nonlinear query
        cl, _ = clear_denominators(d)
        rr, ii = cl.real, cl.imag
        dis = []
        sc = max([abs(c) for c in a.t.values()] + [abs(c) for c in
                                                   b.t.values()] + [1e-30])
        t = q(1e-9 * sc + self._floor)
        for x in (rr, ii):
            if x.t:
                zx = self.zreal(x)
                dis += [zx > t, zx < -t]
        self.solver.push()
        self.solver.add(z3.Or(dis) if dis else z3.BoolVal(False))
        r = self._check(self._nra())
        m = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        if r == z3.unsat:
            return True
        if r == z3.sat:
            asg = self._model_assignment(m)
            self.violations.append(Violation(label, self._full(asg),
                                             f'entry {i}: {d!r}',
                                             'solver model'))
            return False
        self.inconclusive.append(f'{label}[{i}]: solver unknown')
        return False

    def _nra(self):
        # after a few unknown answers (never on a tree that passes) the
        # run is undecided anyway: stop spending 20 s on each query
        t = self.opts.get('nra_timeout', 20000)
        return min(t, 2000) if len(self.inconclusive) >= 3 else t

    def _pinned(self, asg, d):
        """z3 confirms the difference at a pinned input point (transcendental
        terms enclosed to 1e-9)"""
        sol = z3.Solver()
        sol.set('timeout', 10000)
        terms = []
        for (m, ph), c in d.t.items():
            v = self.evaluate(Sym({(m, ph): 1.0}), asg)
            terms.append((c, v))
        e = abs(sum(c * v for c, v in terms))
        x = z3.Real('res')
        ex = [q(complex(c * v).real) for c, v in terms]
        ey = [q(complex(c * v).imag) for c, v in terms]
        y = z3.Real('res_i')
        eps = q(1e-9 * e)
        sol.add(x == z3.Sum(ex), y == z3.Sum(ey))
        sol.add(z3.Or(x > eps, x < -eps, y > eps, y < -eps))
        return self._check(solver=sol) == z3.sat

    def true(self, label, cond, detail=''):
        """cond must hold on this path"""
        self.stats.obligations += 1
        self.stats.entries += 1
        if not isinstance(cond, SymBool):
            if not cond:
                self._violate_path(label, detail)
                return False
            return True
        qv = self.quick(cond)
        zc = z3.BoolVal(False) if qv is True else z3.Not(self.zbool(cond))
        self.solver.push()
        self.solver.add(zc)
        r = self._check(self._nra())
        m = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        if r == z3.unsat:
            return True
        if r == z3.sat:
            asg = self._model_assignment(m)
            # prefer a model away from the boundary
            for s in self.path_samples(60):
                if self.truth(cond, s) is False:
                    asg = s
                    break
            self.violations.append(Violation(label, self._full(asg),
                                             f'{detail} {cond!r}'[:400],
                                             'solver model'))
            return False
        for s in self.path_samples(100):
            if self.truth(cond, s) is False:
                self.violations.append(Violation(
                    label, self._full(s), f'{detail} {cond!r}'[:400],
                    'sampled after solver unknown'))
                return False
        self.inconclusive.append(f'{label}: solver unknown')
        return False

    def _violate_path(self, label, detail):
        """the whole path violates: any model of the path condition"""
        ss = self.path_samples(3)
        if not ss:
            r = self._check(20000)
            if r == z3.unsat:
                return
            if r == z3.sat:
                ss = [self._model_assignment(self.solver.model())]
        else:
            self._check(5000)
        if not ss:
            self.inconclusive.append(f'{label}: no model for violating path')
            return
        self.violations.append(Violation(label, self._full(ss[0]),
                                         detail, 'path condition model'))

    def _full(self, asg):
        return {'inputs': dict(asg), 'choices': dict(self.choices)}

    def note(self, s):
        self.notes.append(s)


def q(x):
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, Fraction):
        return z3.Q(x.numerator, x.denominator)
    f = Fraction(float(x))
    return z3.Q(f.numerator, f.denominator)


def _nan(x):
    return isinstance(x, (float, complex)) and x != x or (
        hasattr(x, 'dtype') and not isinstance(x, Sym) and x != x)


def _flat(x):
    import numpy as np
    if hasattr(x, 'magnitude'):
        x = x.magnitude
    if isinstance(x, np.ndarray):
        return list(np.asarray(x, dtype=object).ravel())
    if isinstance(x, (list, tuple)):
        out = []
        for y in x:
            out += _flat(y)
        return out
    return [x]


def _shape(x):
    import numpy as np
    if hasattr(x, 'magnitude'):
        x = x.magnitude
    if isinstance(x, (list, tuple)):
        sub = {_shape(y) for y in x}
        if len(sub) == 1:
            return (len(x),) + sub.pop()
        return (len(x),) if not x else (len(_flat(x)),)
    return np.shape(x) if isinstance(x, np.ndarray) else ()


class Result:
    def __init__(self):
        self.stats = Stats()
        self.violations = []
        self.t_viol = None
        self.inconclusive = []
        self.unsupported = []
        self.exceptions = []
        self.traces = []
        self.notes = []
        self.truncated = False
        self.reached = {}


def out_of_memory(C):
    """let go of the formulas of this path"""
    import gc
    import resource
    S._mm_cache.clear()
    C.records = []
    gc.collect()
    try:
        soft, hard = resource.getrlimit(resource.RLIMIT_AS)
        if soft != resource.RLIM_INFINITY and soft + (1 << 28) < hard:
            resource.setrlimit(resource.RLIMIT_AS, (soft + (1 << 28), hard))
    except (ValueError, OSError):
        pass


def explore(fn, opts=None, seed=1, on_path=None):
    """Run harness fn(ctx) over every feasible path"""
    opts = dict(opts or {})
    res = Result()
    work = [[]]
    t0 = time.time()
    budget = opts.get('time', 200)
    maxp = opts.get('max_paths', 20000)
    t_viol = None
    failed = False
    while work:
        # after a path that could not be followed to its end, try a
        # different one and not its nearest neighbour
        prefix = work.pop(0 if failed else -1)
        failed = False
        rng = random.Random(f'{seed}-{prefix}')
        C = Context(prefix, res.stats, rng, opts)
        S.CTX = C
        try:
            fn(C)
            res.stats.paths += 1
            for lb, _ in C.records:
                res.reached[lb] = res.reached.get(lb, 0) + 1
            if len(res.traces) < opts.get('max_traces', 6) and C.records:
                ss = C.path_samples(1)
                if ss and C.pc_holds(ss[0]):
                    vals = {}
                    ok = True
                    for lb, g in C.records:
                        try:
                            vals.setdefault(lb, []).append(
                                [_num(C, x, ss[0]) for x in g])
                        except Exception:
                            ok = False
                    if ok:
                        res.traces.append((C._full(ss[0]), vals))
        except Infeasible:
            pass
        except Enough:
            res.stats.paths += 1
            res.truncated = True
        except MemoryError as e:
            failed = True
            res.stats.paths += 1
            res.truncated = True
            tb, e.__traceback__ = e.__traceback__, None
            where = f'line {tb.tb_next.tb_lineno}' if tb and tb.tb_next else ''
            del tb
            out_of_memory(C)
            ss = C.path_samples(1)
            res.exceptions.append(('MemoryError', f'formula too large {where}',
                                   [C._full(s) for s in ss]))
        except PathBudget as e:
            res.truncated = True
            res.unsupported.append(f'path budget: {e}')
        except Unsupported as e:
            import traceback
            failed = True
            res.stats.paths += 1
            res.unsupported.append(f'{e}: ' + traceback.format_exc()[-1500:])
            ss = C.path_samples(2)
            res.exceptions.append(('unsupported', str(e),
                                   [C._full(s) for s in ss]))
        except Exception as e:
            import traceback
            res.stats.paths += 1
            ss = C.path_samples(2)
            res.exceptions.append((type(e).__name__, f'{e}: ' +
                                   traceback.format_exc()[-1500:],
                                   [C._full(s) for s in ss]))
        finally:
            S.CTX = None
        if on_path:
            on_path(C)
        res.violations += C.violations
        res.inconclusive += C.inconclusive
        res.notes += C.notes
        work += C.alternatives
        if res.violations and not t_viol:
            t_viol = time.time()
        if work and t_viol and time.time() - t_viol > GRACE:
            res.truncated = True
            break
        if len(res.violations) >= opts.get('stop_after', 6) or \
                len(res.exceptions) > 12:
            break
        if work and (res.stats.paths >= maxp or time.time() - t0 > budget):
            res.truncated = True
            break
    return res


def _num(C, x, asg):
    if isinstance(x, Sym):
        v = C.evaluate(x, asg)
        return (v.real, v.imag)
    v = complex(x)
    return (v.real, v.imag)
