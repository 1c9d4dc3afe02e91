"""C18: spectra keep values, axes and units consistent"""
import copy as cp
import numpy as np
from vf.harness import harness
from .common import *

FN = ['Spectrum._set_data', 'Spectrum.x_data', 'Spectrum.y_data',
      'Spectrum2D.z_data', 'Spectrum.__imul__', 'Spectrum.__mul__',
      'Spectrum1D.__add__', 'Spectrum1D.copy', 'Spectrum2D.copy',
      'SpectrumCollectionMixin.copy', 'SpectrumCollectionMixin.sum',
      'Spectrum.split', 'Spectrum._split_by_tol',
      'Spectrum*._split_by_indices', 'Spectrum._ranges_from_indices',
      'Spectrum._cut_x_ticks', 'Spectrum.get_bin_edges',
      'Spectrum.get_bin_centres', 'Spectrum.get_bin_widths',
      'Spectrum2D.get_bin_edges', 'Spectrum2D.get_bin_centres',
      'Spectrum2D.get_bin_widths', 'Spectrum.assert_regular_bins',
      'validate._check_unit_conversion']

# independent CODATA 2018 numbers
MEV_CM = 8.06554393735          # 1 meV in 1/cm
MEV_THZ = 0.241798924208
HA_MEV = 27211.386245988
BOHR_A = 0.529177210903
FACTOR = {('meV', 'meV'): 1., ('meV', 'eV'): 1e-3, ('meV', '1/cm'): MEV_CM,
          ('meV', 'THz'): MEV_THZ, ('meV', 'hartree'): 1 / HA_MEV,
          ('1/cm', 'meV'): 1 / MEV_CM, ('THz', 'eV'): 1e-3 / MEV_THZ,
          ('1/angstrom', '1/bohr'): BOHR_A, ('1/angstrom', '1/nm'): 10.,
          ('1/angstrom', '1/angstrom'): 1.,
          ('1/meV', '1/eV'): 1e3, ('1/meV', '1/hartree'): HA_MEV,
          ('1/meV', 'cm'): 1 / MEV_CM, ('1/meV', '1/THz'): 1 / MEV_THZ,
          ('1/meV', 'ps'): 1 / MEV_THZ, ('mbarn/meV', 'barn/eV'): 1.,
          ('mbarn', 'barn'): 1e-3, ('mbarn', 'angstrom^2'): 1e-11,
          ('', ''): 1., ('mbarn/meV', 'mbarn/meV'): 1.,
          ('1/meV', '1/meV'): 1., ('meV', '1/cm2'): None}
KINDS = ('1D', '1DC', '2D', '2DC')


def axis(ctx, name, n, lo=0., step=None):
    """strictly increasing axis with any spacing"""
    if step is not None:
        return [lo + step * i for i in range(n)]
    x = ctx.real(name + '0', -3., 3.)
    out = [x]
    for i in range(1, n):
        x = x + ctx.real(f'{name}d{i}', .1, 2.)
        out.append(x)
    return out


class Spec:
    """a spectrum, and what it should contain"""
    def __init__(self, ctx, kind, n=3, ny=2, nc=2, edges=False, yedges=False,
                 xu='meV', yu='1/meV', zu='mbarn/meV', labels=True, xs=None,
                 ys=None, tag=''):
        from euphonic import Spectrum1D, Spectrum1DCollection, Spectrum2D, ureg
        from euphonic.spectra import Spectrum2DCollection
        self.ctx, self.kind = ctx, kind
        self.x = xs or axis(ctx, tag + 'x', n + int(edges))
        self.labels = [(0, 'A'), (1, 'B'), (n - 1, 'C')] if labels else None
        self.dataax = 'y' if kind[0] == '1' else 'z'
        self.two = kind[0] == '2'
        meta = {'title': 'any', 'n': 3}
        if kind in ('1DC', '2DC'):
            meta['line_data'] = [{'i': i, 's': 'abc'[i]} for i in range(nc)]
        self.meta = cp.deepcopy(meta)
        args = [ctx.arr(self.x) * ureg.Quantity(1, xu).units]
        if self.two:
            self.y = ys or axis(ctx, tag + 'y', ny + int(yedges))
            args.append(ctx.arr(self.y) * ureg.Quantity(1, yu).units)
            shape = (n, ny)
            u = zu
        else:
            shape = (n,)
            u = yu
        if kind in ('1DC', '2DC'):
            shape = (nc,) + shape
        self.v = ctx.reals(tag + 'v', shape, -5., 5.)
        args.append(self.v.copy() * ureg.Quantity(1, u).units)
        self.args = args            # the caller's own arrays
        cls = {'1D': Spectrum1D, '1DC': Spectrum1DCollection,
               '2D': Spectrum2D, '2DC': Spectrum2DCollection}[kind]
        self.s = cls(*args, x_tick_labels=None if self.labels is None
                     else list(self.labels), metadata=meta)
        self.units = {'x': xu, 'y': yu, 'z': zu}
        if not self.two:
            self.units.pop('z')

    def expect(self, ctx, label, s=None, x=None, y=None, v=None, units=None,
               tol=1e-6, meta=True, labels=True):
        """s describes this object, in the given units"""
        from euphonic import ureg
        s = self.s if s is None else s
        units = {**self.units, **(units or {})}
        want = {'x': self.x if x is None else x}
        if self.two:
            want['y'] = self.y if y is None else y
        want[self.dataax] = self.v if v is None else v
        for a, w in want.items():
            d = getattr(s, a + '_data')
            u0, u1 = self.units[a], units[a]
            f = 1. if u0 == u1 else FACTOR[(u0, u1)]
            ctx.true(f'{label} {a} unit', ureg(str(d.units)) == ureg(u1)
                     or (1 * d.units).to(u1).magnitude == 1,
                     f'{d.units} for {u1}')
            w = [e * f for e in np.asarray(w, dtype=object).ravel()]
            ctx.eq(f'{label} {a} data', np.asarray(d.magnitude).ravel(), w,
                   tol=tol)
        if labels:
            ctx.true(f'{label} tick labels',
                     s.x_tick_labels == (self.labels if labels is True
                                         else labels), f'{s.x_tick_labels}')
        if meta:
            ctx.true(f'{label} metadata', s.metadata == self.meta,
                     f'{s.metadata}')


UCASES = [dict(kind='1D', xu='meV', yu='1/meV', to={'x': '1/cm', 'y': '1/eV'}),
          dict(kind='1D', xu='1/angstrom', yu='meV',
               to={'x': '1/bohr', 'y': 'THz'}),
          dict(kind='1DC', xu='meV', yu='1/meV', to={'x': 'eV', 'y': 'cm'}),
          dict(kind='1DC', xu='1/angstrom', yu='meV',
               to={'x': '1/nm', 'y': '1/cm'}),
          dict(kind='2D', xu='1/angstrom', yu='meV',
               to={'x': '1/bohr', 'y': '1/cm', 'z': 'barn/eV'}),
          dict(kind='2DC', xu='1/angstrom', yu='meV',
               to={'x': '1/bohr', 'y': 'hartree', 'z': 'barn/eV'}),
          dict(kind='2D', xu='1/angstrom', yu='meV', zu='1/meV',
               to={'x': '1/nm', 'y': 'THz', 'z': 'cm'})]


def edges_of(x):
    return [x[0]] + [(a + b) / 2 for a, b in zip(x, x[1:])] + [x[-1]]


def centres_of(x):
    return [(a + b) / 2 for a, b in zip(x, x[1:])]


@harness('C18', functions=FN,
         bounds='all four spectrum classes, 3 x-points (as points or as bin '
         'edges) by 2 y-points, 2 members, every axis (increasing, any '
         'spacing) and every value in [-5,5]; 7 combinations of units',
         cases=[dict(c, edges=e) for c in UCASES for e in (False, True)],
         traces=2)
def units(ctx, kind, xu, yu, to, edges, zu='mbarn/meV'):
    """changing unit attributes changes the description, not the quantity"""
    S = Spec(ctx, kind, xu=xu, yu=yu, zu=zu, edges=edges)
    s = S.s
    S.expect(ctx, 'as built')
    for a, u in to.items():
        setattr(s, a + '_data_unit', u)
    S.expect(ctx, 'new units', units=to)
    S.expect(ctx, 'copy in new units', s.copy(), units=to)
    k = ctx.real('k', -3., 3.)
    S.expect(ctx, 'scaled in new units', s * k, units=to, v=S.v * k)
    S.expect(ctx, 'after scaling a copy', units=to)
    for p, (i0, i1) in zip(s.split(indices=[2]), ((0, 2), (2, None))):
        v = S.v[i0:i1] if kind[-1] != 'C' else S.v[:, i0:i1]
        S.expect(ctx, f'piece {i0}', p, units=to, x=S.x[i0:i1], v=v,
                 labels=[(0, 'A'), (1, 'B')] if i0 == 0 else [(0, 'C')])
    if kind[-1] == 'C':
        t = s.sum()
        w = dict(to)
        T = cp.copy(S)
        T.meta = {'title': 'any', 'n': 3}
        T.expect(ctx, 'sum in new units', t, units=w, v=S.v.sum(axis=0))
    # bins in the new units
    f = FACTOR[(xu, to['x'])]
    if kind != '2DC':
        e = S.x if edges else edges_of(S.x)
        c = centres_of(S.x) if edges else S.x
        ctx.eq('bin edges', s.get_bin_edges().magnitude, [f * t for t in e],
               tol=1e-6)
        ctx.eq('bin centres', s.get_bin_centres().magnitude,
               [f * t for t in c], tol=1e-6)
        ctx.eq('bin widths', s.get_bin_widths().to(xu).magnitude,
               [b - a for a, b in zip(e, e[1:])], tol=1e-6)
    # assignment in the other unit, and back
    for a in list(to):
        d = getattr(s, a + '_data')
        setattr(s, a + '_data_unit', S.units[a])
        setattr(s, a + '_data', d)
    S.expect(ctx, 'after assigning the same data in other units', units=to)
    for a in to:
        setattr(s, a + '_data_unit', S.units[a])
    S.expect(ctx, 'units set back')


@harness('C18', functions=FN,
         bounds='all classes, 4 points or 4 bins by 3, points or bin edges on '
         'either axis, any increasing axis',
         cases=[dict(kind=k, edges=e, yedges=y) for k in KINDS
                for e in (False, True) for y in (False, True)
                if k[0] == '2' or not y])
def bins(ctx, kind, edges, yedges):
    S = Spec(ctx, kind, n=4, ny=3, edges=edges, yedges=yedges)
    s = S.s
    for ax, x, isedge, n in ([('x', S.x, edges, 4)] +
                             ([('y', S.y, yedges, 3)] if S.two else [])):
        kw = {'bin_ax': ax} if S.two else {}
        e = s.get_bin_edges(**kw).magnitude
        c = s.get_bin_centres(**kw).magnitude
        w = s.get_bin_widths(**kw).magnitude
        ctx.true(f'{ax}: one more edge than centres',
                 len(e) == n + 1 and len(c) == n and len(w) == n,
                 f'{len(e)} {len(c)} {len(w)}')
        if len(e) != n + 1 or len(c) != n:
            continue
        if isedge:
            ctx.eq(f'{ax}: edges kept', e, x)
            ctx.eq(f'{ax}: midpoints', c, centres_of(x))
        else:
            ctx.eq(f'{ax}: centres kept', c, x)
            ctx.eq(f'{ax}: edges half way', e, edges_of(x))
        for i in range(n):
            ctx.true(f'{ax}: bin {i} encloses its centre',
                     conj2(e[i] <= c[i] + 1e-9, c[i] <= e[i + 1] + 1e-9))
            ctx.eq(f'{ax}: width {i}', w[i], e[i + 1] - e[i])
    S.expect(ctx, 'unchanged')


def conj2(a, b):
    if isinstance(a, (bool, np.bool_)):
        return b if a else False
    return a & b


@harness('C18', functions=FN,
         bounds='all classes, 5 points (or bin edges), any values; breakpoints '
         'none, one, two, adjacent or all; a jump in a 5-point axis of any '
         'size in [0.05,60] at any place, with thresholds 10 (default) and 4',
         cases=[dict(kind=k, edges=e, idx=i) for k in KINDS
                for e in (False, True)
                for i in ([], [2], [1, 3], [2, 3], [1, 2, 3, 4])] +
         [dict(kind=k, edges=False, btol=b, at=at) for k in ('1D', '1DC', '2D')
          for b, at in ((None, 2), (None, 4), (4., 1), (4., 3))])
def split(ctx, kind, edges, idx=None, btol=None, at=None):
    n = 5
    xs = None
    if idx is None:
        g = ctx.real('gap', .05, 60.)
        th = 10. if btol is None else btol
        for m in (1., th):
            ctx.assume((g - m > 1e-3) | (g - m < -1e-3))
        xs, x = [], ctx.real('x0', -1., 1.)
        for i in range(n):
            if i:
                x = x + (g if i == at else 1.)
            xs.append(x)
    S = Spec(ctx, kind, n=n, edges=edges, xs=xs)
    if idx is not None:
        ps = S.s.split(indices=idx)
        br = [0] + list(idx) + [None]
    else:
        ps = S.s.split() if btol is None else S.s.split(btol=btol)
        br = [0, at, None] if bool(g > th) else [0, None]
    ctx.true('number of pieces', len(ps) == len(br) - 1, f'{len(ps)} {br}')
    if len(ps) != len(br) - 1:
        return
    for p, i0, i1 in zip(ps, br, br[1:]):
        v = S.v[i0:i1] if kind[-1] != 'C' else S.v[:, i0:i1]
        lab = [(i - i0, t) for i, t in S.labels
               if i >= i0 and (i1 is None or i < i1)]
        S.expect(ctx, f'piece from {i0}', p, x=S.x[i0:i1], v=v, labels=lab)
    S.expect(ctx, 'original unchanged')


@harness('C18', functions=FN,
         bounds='all classes, 3x2 points, 2 members, every value and every '
         'factor in [-3,3]; scaling in place and out of place, addition, '
         'copies changed afterwards',
         cases=[dict(kind=k, edges=e) for k in KINDS for e in (False, True)])
def arithmetic(ctx, kind, edges):
    S = Spec(ctx, kind, edges=edges)
    s = S.s
    k = ctx.real('k', -3., 3.)
    t = s * k
    S.expect(ctx, 'product', t, v=S.v * k)
    S.expect(ctx, 'operand of product')
    c = s.copy()
    S.expect(ctx, 'copy', c)
    ident = c
    c *= k
    ctx.true('in place', c is ident)
    S.expect(ctx, 'scaled in place', c, v=S.v * k)
    S.expect(ctx, 'original of scaled copy')
    # the arrays the caller built the spectrum from are the caller's
    for f in ('in', 'out'):
        o = type(s)(*S.args, x_tick_labels=None, metadata={})
        if f == 'in':
            o *= k
        else:
            for p in o.split(indices=[1]):
                p *= k
            S.expect(ctx, 'split pieces scaled', o, labels=None, meta=False)
            if kind[-1] == 'C':
                for p in (o[0], o[0:1], o[[0, 1]], o.sum()):
                    p *= k
                S.expect(ctx, 'items scaled', o, labels=None, meta=False)
        own = [S.x] + ([S.y] if S.two else []) + [S.v]
        for nm, q, w in zip('xyz', S.args, own):
            ctx.eq(f'array {nm} the spectrum was built from ({f})',
                   np.asarray(q.magnitude).ravel(),
                   np.asarray(w, dtype=object).ravel())
    # everything else of a copy may be changed too
    d = s.copy()
    d.metadata['title'] = 'other'
    if 'line_data' in d.metadata:
        d.metadata['line_data'][0]['i'] = 77
    d.x_tick_labels.append((2, 'Z'))
    d.x_data_unit = 'eV'
    d.y_data_unit = '1/eV'
    d.x_data.magnitude[0] = 0.
    raw = d.x_data
    d.x_data = raw * 2
    getattr(d, S.dataax + '_data').magnitude[...] = 0.
    S.expect(ctx, 'original of changed copy')
    # and changing the original does not reach the copy
    s.metadata['title'] = 'third'
    if 'line_data' in s.metadata:
        s.metadata['line_data'][0]['i'] = 78
    s *= 2.
    S.expect(ctx, 'copy of changed original', t, v=S.v * k)


@harness('C18', functions=FN,
         bounds='two Spectrum1D on the same axis, 3 points or bins, every '
         'value; labels and partly common metadata',
         cases=[dict(edges=e, unit=u) for e in (False, True)
                for u in (None, {'x': '1/cm', 'y': '1/eV'})])
def addition(ctx, edges, unit):
    A = Spec(ctx, '1D', edges=edges)
    B = Spec(ctx, '1D', edges=edges, xs=A.x, tag='b')
    B.s.metadata['n'] = 4
    B.meta['n'] = 4
    if unit:
        for a, u in unit.items():
            setattr(A.s, a + '_data_unit', u)
            setattr(B.s, a + '_data_unit', u)
    t = A.s + B.s
    A.expect(ctx, 'left operand', units=unit)
    B.expect(ctx, 'right operand', units=unit)
    A.meta = {'title': 'any'}
    A.expect(ctx, 'sum', t, v=A.v + B.v, units=unit)


@harness('C18', functions=FN,
         bounds='every class with 4 bin edges or 3 points: spacing off regular '
         'by every amount in [-0.4,0.4] of a bin',
         cases=[dict(kind=k, ax=a) for k, a in (('1D', 'x'), ('1DC', 'x'),
                                                ('2D', 'x'), ('2D', 'y'))]
         + [dict(kind=k, ax=a, scale=s) for k, a, s in (
             ('1D', 'x', 1e-8), ('2D', 'y', 1e-21), ('2DC', 'x', 1e-9))])
def regular(ctx, kind, ax, scale=None):
    """assert_regular_bins accepts exactly evenly spaced bin edges"""
    h = ctx.real('h', .5, 2.)
    d = ctx.real('d', -.4, .4)
    ctx.assume((d > 1e-3) | (d < -1e-3) | (d * d <= 0))
    x0 = ctx.real('e0', -2., 2.)
    e = [x0, x0 + h, x0 + 2 * h + d * h, x0 + 3 * h]
    if scale:
        # tiny numbers, as of an energy in joules
        e = [t * scale for t in e]
    S = Spec(ctx, kind, n=3, ny=3, edges=True, yedges=True,
             **({'xs': e} if ax == 'x' else {'ys': e}))
    args = (ax,) if S.two else ()
    try:
        S.s.assert_regular_bins(*args)
        ok = True
    except AssertionError:
        ok = False
    if ok:
        ctx.true('irregular bins found', conj2(d < 1e-3, d > -1e-3))
    else:
        ctx.true('regular bins accepted', (d > 1e-9) | (d < -1e-9))
