"""Harness registry, and the concrete twin of the symbolic context"""
import random
import numpy as np

REGISTRY = {}


class Harness:
    def __init__(self, prop, name, fn, functions, bounds, opts, cases,
                 needs_c, thorough_only, traces):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.functions = functions
        self.bounds = bounds
        self.opts = opts
        self.cases = cases
        self.needs_c = needs_c
        self.thorough_only = thorough_only
        self.traces = traces


def harness(prop, name=None, functions=(), bounds='', opts=None, cases=({},),
            thorough_cases=(), needs_c=False, thorough_only=False, traces=4):
    def deco(fn):
        h = Harness(prop, name or fn.__name__, fn, list(functions), bounds,
                    dict(opts or {}), list(cases), needs_c, thorough_only,
                    traces)
        h.thorough_cases = list(thorough_cases)
        REGISTRY[(prop, h.name)] = h
        return fn
    return deco


class Infeasible(BaseException):
    pass


class ConcreteCtx:
    """runs a harness on the real, unpatched code with concrete numbers"""
    symbolic = False

    def __init__(self, assignment=None, seed=0):
        a = assignment or {}
        self.inputs = dict(a.get('inputs', {}))
        self.choices = dict(a.get('choices', {}))
        self.rng = random.Random(seed)
        self.failures = []
        self.records = []
        self.checked = 0
        self.used = {}
        self.notes = []
        self.opts = {}

    def real(self, name, lo, hi):
        if name in self.used:
            return self.used[name]
        if name in self.inputs:
            v = float(self.inputs[name])
        else:
            v = self.rng.uniform(lo, hi)
        v = min(max(v, lo), hi)
        self.used[name] = v
        return v

    def choice(self, name, options):
        options = list(options)
        if name not in self.choices:
            self.choices[name] = self.rng.randrange(len(options))
        return options[self.choices[name]]

    def assume(self, cond):
        if not bool(cond):
            raise Infeasible()

    def eq(self, label, got, want, tol=1e-7, record=True, scale_tol=1e-12,
           floor=0.):
        """floor: rounding error to allow for, where terms cancel"""
        from .engine import _flat, _shape
        self.checked += 1
        g = np.array([complex(x) for x in _flat(got)])
        w = np.array([complex(x) for x in _flat(want)])
        if record:
            self.records.append((label, [(x.real, x.imag) for x in g]))
        if w.size == 1 and g.size > 1:
            w = np.full(g.shape, w[0])
        if g.shape != w.shape or (_shape(got) != _shape(want)
                                  and len(_flat(want)) != 1):
            self.failures.append((label, f'shape {_shape(got)} vs {_shape(want)}'))
            return False
        if not g.size:
            return True
        gn, wn = np.isnan(g), np.isnan(w)
        if (gn != wn).any():
            i = int(np.argmax(gn != wn))
            self.failures.append((label, f'entry {i}: {g[i]} vs {w[i]}'))
            return False
        ok = ~gn & ~np.isinf(w.real)
        inf = np.isinf(w.real) & ~gn
        if (g[inf] != w[inf]).any():
            self.failures.append((label, 'infinite entries differ'))
            return False
        g2, w2 = g[ok], w[ok]
        if not g2.size:
            return True
        sc = np.maximum(abs(g2), abs(w2))
        err = abs(g2 - w2)
        with np.errstate(invalid='ignore'):
            bad = ~(err <= max(tol, 1e-7) * sc + 10 * scale_tol * sc.max()
                   + floor + 1e-300)
        if bad.any():
            i = int(np.argmax(np.where(bad, err / (sc + 1e-300), 0)))
            self.failures.append((label, f'entry {i}: got {g2[i]:.10g} '
                                         f'want {w2[i]:.10g}'))
            return False
        return True

    def true(self, label, cond, detail=''):
        self.checked += 1
        if not bool(cond):
            self.failures.append((label, detail or 'false'))
            return False
        return True

    def note(self, s):
        self.notes.append(s)


# helpers available on both contexts -----------------------------------------
def _reals(self, name, shape, lo, hi):
    if isinstance(shape, int):
        shape = (shape,)
    if self.symbolic:
        from . import npshim
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            out[i] = self.real(name + '_' + '_'.join(map(str, i)), lo, hi)
        return out.view(npshim.SymArray)
    out = np.zeros(shape)
    for i in np.ndindex(*shape):
        out[i] = self.real(name + '_' + '_'.join(map(str, i)), lo, hi)
    return out


def _const(self, x, dtype=float):
    """concrete numbers as an array of the kind the run uses"""
    a = np.array(x, dtype=dtype)
    if self.symbolic:
        from . import npshim
        return npshim.sarr(a)
    return a


def _arr(self, x):
    """array from nested lists of values (symbolic or float)"""
    if self.symbolic:
        from . import npshim
        if isinstance(x, np.ndarray):
            return npshim.wrap(np.asarray(x, dtype=object))
        return npshim.sarr(npshim._nested(x))
    return np.array(x)


def _cplx(self, name, shape, lo, hi):
    return self.reals(name + '_re', shape, lo, hi) + \
        self.reals(name + '_im', shape, lo, hi) * 1j


def _expect_raise(self, label, exc, fn):
    """fn must raise exc on this path"""
    from .sym import Unsupported
    try:
        fn()
    except Unsupported:
        raise
    except exc:
        return self.true(label, True)
    except Exception as e:
        return self.true(label, False, f'raised {type(e).__name__}: {e}')
    return self.true(label, False, 'no exception raised')


def install(cls):
    cls.reals = _reals
    cls.const = _const
    cls.arr = _arr
    cls.cplx = _cplx
    cls.expect_raise = _expect_raise


install(ConcreteCtx)
