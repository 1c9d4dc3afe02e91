"""C19: collections are faithful containers of their spectra"""
import copy as cp
import numpy as np
from vf.harness import harness
from .common import *
from .C18 import FACTOR, axis, conj2

FN = ['Spectrum1DCollection.from_spectra', 'Spectrum2DCollection.from_spectra',
      'SpectrumCollectionMixin.__getitem__', 'SpectrumCollectionMixin.__len__',
      'SpectrumCollectionMixin._validate_item',
      'SpectrumCollectionMixin._get_item_metadata',
      'SpectrumCollectionMixin.iter_metadata',
      'SpectrumCollectionMixin._combine_metadata',
      'SpectrumCollectionMixin._tidy_metadata', 'SpectrumCollectionMixin.sum',
      'SpectrumCollectionMixin.group_by', 'SpectrumCollectionMixin.select',
      'SpectrumCollectionMixin.__add__', 'SpectrumCollectionMixin.copy']

METAS = {
    'pdos': [{'id': 0, 'species': 'Na', 'index': 1, 'weighting': 'coh'},
             {'id': 1, 'species': 'Cl', 'index': 2, 'weighting': 'coh'},
             {'id': 2, 'species': 'Na', 'index': 3, 'weighting': 'coh'},
             {'id': 3, 'species': 'H', 'index': 1, 'weighting': 'coh'}],
    'ragged': [{'id': 0, 'a': 1, 'b': 'x'}, {'id': 1, 'a': 1},
               {'id': 2, 'b': 'x', 'c': 0}, {'id': 3, 'a': 2, 'c': 0}],
    'shared': [{'id': 0, 'a': 5, 'label': 'p'}, {'id': 1, 'a': 5, 'label': 'p'},
               {'id': 2, 'a': 5, 'label': 'q'}, {'id': 3, 'a': 5, 'label': 'p'}],
    'mixed': [{'id': 0, 'a': 1}, {'id': 1, 'a': '1'}, {'id': 2},
              {'id': 3, 'a': ''}],
    'many': [{'id': i, 'species': ('Na', 'Cl', 'H')[i * i % 3], 'index': 25 - i,
              'n': i % 12} for i in range(25)],
}


class Col:
    def __init__(self, ctx, two, meta='pdos', n=4, edges=False, units=None,
                 how='from_spectra', tag='', share=None, ids=None):
        from euphonic import Spectrum1D, Spectrum1DCollection, Spectrum2D, ureg
        from euphonic.spectra import Spectrum2DCollection
        self.two, self.n = two, n
        self.item = Spectrum2D if two else Spectrum1D
        self.cls = Spectrum2DCollection if two else Spectrum1DCollection
        self.axes = ('x', 'y') if two else ('x',)
        self.data = 'z' if two else 'y'
        nx, ny = 3, 2
        if share is not None:
            self.x, self.y = share.x, share.y
        else:
            self.x = axis(ctx, tag + 'x', nx + int(edges), lo=.5, step=.5)
            self.y = axis(ctx, tag + 'y', ny + int(edges), lo=-1., step=2.)
        self.v = ctx.reals(tag + 'v', (n, nx, ny) if two else (n, nx), -5., 5.)
        self.metas = cp.deepcopy(METAS[meta][:n])
        if ids is not None:
            for m, i in zip(self.metas, ids):
                m['id'] = i
        self.labels = [(0, 'G'), (2, 'X')]
        self.u0 = {'x': '1/angstrom', 'y': 'meV', 'z': 'mbarn/meV'} if two \
            else {'x': 'meV', 'y': '1/meV'}
        self.u = dict(self.u0, **(units or {}))
        U = lambda a: ureg.Quantity(1, self.u0[a]).units
        bins = [ctx.const(self.x) * U('x')]
        if two:
            bins.append(ctx.const(self.y) * U('y'))
        self.members = []
        if how == 'from_spectra':
            for i in range(n):
                s = self.item(*[b.copy() for b in bins],
                              self.v[i].copy() * U(self.data),
                              x_tick_labels=list(self.labels),
                              metadata=dict(self.metas[i]))
                for a, u in (units or {}).items():
                    setattr(s, a + '_data_unit', u)
                self.members.append(s)
            self.c = self.cls.from_spectra(self.members)
        else:
            self.c = self.cls(*bins, self.v.copy() * U(self.data),
                              x_tick_labels=list(self.labels),
                              metadata={'line_data': cp.deepcopy(self.metas)})
            for a, u in (units or {}).items():
                setattr(self.c, a + '_data_unit', u)

    def fac(self, a):
        return 1. if self.u[a] == self.u0[a] else FACTOR[(self.u0[a],
                                                         self.u[a])]

    def bins_ok(self, ctx, label, s):
        from euphonic import ureg
        for a in self.axes + (self.data,):
            d = getattr(s, a + '_data')
            ctx.true(f'{label} {a} unit',
                     abs((1 * d.units).to(self.u[a]).magnitude - 1) < 1e-12,
                     f'{d.units}')
        for a in self.axes:
            ctx.eq(f'{label} {a} axis', getattr(s, a + '_data').magnitude,
                   [t * self.fac(a) for t in (self.x, self.y)[a == 'y']],
                   tol=1e-6)
        ctx.true(f'{label} labels', s.x_tick_labels == self.labels)

    def one(self, ctx, label, s, want, meta):
        """s is a single spectrum"""
        ctx.true(f'{label} class', type(s) is self.item, f'{type(s)}')
        self.bins_ok(ctx, label, s)
        ctx.eq(f'{label} values', getattr(s, self.data + '_data').magnitude,
               want * self.fac(self.data), tol=1e-6)
        ctx.true(f'{label} metadata', s.metadata == meta, f'{s.metadata}')

    def many(self, ctx, label, c, idx):
        """c is a collection of members idx, in this order"""
        ctx.true(f'{label} class', type(c) is self.cls, f'{type(c)}')
        self.bins_ok(ctx, label, c)
        ctx.true(f'{label} length', len(c) == len(idx), f'{len(c)}')
        ctx.eq(f'{label} values', getattr(c, self.data + '_data').magnitude,
               np.array([self.v[i] for i in idx], dtype=object)
               * self.fac(self.data), tol=1e-6)
        self.meta(ctx, label, c, [self.metas[i] for i in idx])

    def meta(self, ctx, label, c, ms):
        ctx.true(f'{label} member metadata', list(c.iter_metadata()) == ms,
                 f'{c.metadata}')
        common = {k: v for k, v in ms[0].items()
                  if all(k in m and m[k] == v for m in ms)}
        ctx.true(f'{label} common metadata',
                 {k: v for k, v in c.metadata.items() if k != 'line_data'}
                 == common, f'{c.metadata} not {common}')


UN = {False: [None, {'x': '1/cm', 'y': '1/eV'}, {'y': 'cm'}],
      True: [None, {'x': '1/bohr', 'y': '1/cm', 'z': 'barn/eV'}]}
BASE = [dict(two=t, units=u, how=h) for t in (False, True) for u in UN[t]
        for h in ('from_spectra', 'direct')]


@harness('C19', functions=FN,
         bounds='four members of 3 points (1D) or 3x2 points (2D), points or '
         'bin edges, every value; three patterns of metadata; built from '
         'spectra or directly, in several units; indexing by every integer, '
         '12 slices, lists, arrays and iteration',
         cases=[dict(b, meta=m, edges=e) for b in BASE
                for m, e in (('pdos', False), ('ragged', True))], traces=2)
def access(ctx, two, units, how, meta, edges):
    K = Col(ctx, two, meta, units=units, how=how, edges=edges)
    n = K.n
    c = K.c
    if how == 'from_spectra':
        K.many(ctx, 'collection', c, range(n))
        for i, s in enumerate(K.members):
            K.one(ctx, f'member {i} unchanged', s, K.v[i], K.metas[i])
    ctx.true('length', len(c) == n)
    for i in list(range(-n, n)) + [np.int64(1), np.int32(-1)]:
        K.one(ctx, f'[{i}]', c[i], K.v[i], K.metas[i])
    for i, s in enumerate(c):
        K.one(ctx, f'iterated {i}', s, K.v[i], K.metas[i])
    for sl in (slice(None), slice(1, None), slice(None, -1), slice(0, 2),
               slice(1, 3), slice(-2, None), slice(None, None, 2),
               slice(3, 0, -2), slice(None, None, -1), slice(-3, -1),
               slice(2, 3), slice(0, 3, 2)):
        K.many(ctx, f'[{sl.start}:{sl.stop}:{sl.step}]', c[sl],
               list(range(n))[sl])
    for ix in ([2], [0, 1], [3, 1], [1, 1], [-1, 0], (2, 0), np.array([3, 0]),
               np.array([-2, 1, 2])):
        K.many(ctx, f'[{list(ix)}]', c[ix], [int(i) % n for i in ix])
    K.many(ctx, 'copy', c.copy(), range(n)) if how == 'from_spectra' else None
    for bad in ([0., 1.], ['a'], [True, False, True, True]):
        ctx.expect_raise(f'{bad} refused', (TypeError, IndexError),
                         lambda: c[bad])
    for bad in (n, -n - 1):
        ctx.expect_raise(f'{bad} refused', IndexError, lambda: c[bad])
    # still the same afterwards
    if how == 'from_spectra':
        K.many(ctx, 'collection afterwards', c, range(n))


def common(ms):
    return {k: v for k, v in ms[0].items()
            if all(k in m and m[k] == v for m in ms)}


@harness('C19', functions=FN,
         bounds='four members as before; sum; group_by one or two keys, keys '
         'missing from some members; select by one or two keys with one or '
         'several values',
         cases=[dict(b, meta=m, edges=e) for b in BASE for m, e in
                (('pdos', True), ('ragged', False), ('shared', False),
                 ('mixed', False))],
         traces=2)
def combine(ctx, two, units, how, meta, edges):
    K = Col(ctx, two, meta, units=units, how=how, edges=edges)
    c, n = K.c, K.n
    K.one(ctx, 'sum', c.sum(), K.v.sum(axis=0), common(K.metas))
    keys = {'pdos': [('species',), ('weighting',), ('species', 'index'),
                     ('index',), ('nothing',)],
            'ragged': [('a',), ('a', 'b'), ('c', 'a')],
            'mixed': [('a',), ('a', 'nothing')],
            'shared': [('label',), ('a',), ('a', 'label'), ('id',)]}[meta]
    for ks in keys:
        groups = {}
        for i, m in enumerate(K.metas):
            groups.setdefault(tuple(m.get(k) for k in ks), []).append(i)
        g = c.group_by(*ks)
        ctx.true(f'group_by {ks}: number', len(g) == len(groups), f'{len(g)}')
        if len(g) != len(groups):
            continue
        K.bins_ok(ctx, f'group_by {ks}', g)
        left = dict(groups)
        for j, s in enumerate(g):
            # any order of the groups: identified by the keys grouped by
            kv = tuple(s.metadata.get(k) for k in ks)
            ctx.true(f'group_by {ks}: group {j} is one of the groups',
                     kv in left, f'{kv}')
            if kv not in left:
                continue
            ix = left.pop(kv)
            K.one(ctx, f'group {kv}', s, K.v[ix].sum(axis=0),
                  common([K.metas[i] for i in ix]))
    qs = {'pdos': [dict(species='Na'), dict(species=['Na', 'H']),
                   dict(index=1), dict(index=(3, 1), species=['Na', 'Cl']),
                   dict(weighting='coh')],
          'ragged': [dict(a=1), dict(b='x'), dict(a=[2, 1]), dict(c=0)],
          'mixed': [dict(a=1), dict(a='1'), dict(a=''), dict(a=[1, ''])],
          'shared': [dict(label='p'), dict(a=5, label=['q', 'p'])]}[meta]
    for qq in qs:
        want = {i for i, m in enumerate(K.metas) if all(
            k in m and m[k] in (v if isinstance(v, (list, tuple)) else [v])
            for k, v in qq.items())}
        s = c.select(**qq)
        ids = [m['id'] for m in s.iter_metadata()]
        ctx.true(f'select {qq}: members', sorted(ids) == sorted(want),
                 f'{ids} not {want}')
        if sorted(ids) == sorted(want):
            K.many(ctx, f'select {qq}', s, ids)
    ctx.expect_raise('nothing selected', ValueError,
                     lambda: c.select(species='Xx'))


@harness('C19', functions=FN,
         bounds='collections of 2 and 3 members with every value, in default '
         'and changed units; axes displaced by [-1,1]',
         cases=[dict(two=t, units=u) for t in (False, True) for u in UN[t]])
def addition(ctx, two, units):
    A = Col(ctx, two, 'pdos', n=2, units=units)
    B = Col(ctx, two, 'ragged', n=3, units=units, tag='b', share=A,
            ids=[10, 11, 12])
    t = A.c + B.c
    K = A
    v, m = K.v, K.metas
    A.many(ctx, 'left operand', A.c, range(2))
    B.many(ctx, 'right operand', B.c, range(3))
    ctx.true('class', type(t) is A.cls)
    A.bins_ok(ctx, 'both', t)
    ctx.eq('values', getattr(t, A.data + '_data').magnitude,
           np.concatenate([A.v, B.v]) * A.fac(A.data), tol=1e-6)
    A.meta(ctx, 'both', t, A.metas + B.metas)
    # spectra on different axes do not go together
    a = A.members[0]
    o = B.members[0].copy()
    d = ctx.real('d', -1., 1.)
    ctx.assume((d > 1e-2) | (d < -1e-2))
    for ax in A.axes:
        o = B.members[0].copy()
        q = getattr(o, ax + '_data')
        sh = np.zeros(len(q)).astype(object)
        sh[-1] = d
        setattr(o, ax + '_data', ctx.arr(
            [e + s for e, s in zip(q.magnitude, sh)]) * q.units)
        ctx.expect_raise(f'different {ax} refused', (AssertionError, ValueError),
                         lambda: A.cls.from_spectra([a, o]))
    # nor do spectra whose axes have the same numbers in different units
    for ax in A.axes:
        q = getattr(B.members[0], ax + '_data')
        args = []
        for bx in A.axes:
            v = getattr(B.members[0], bx + '_data')
            if bx == ax:
                from euphonic import ureg
                v = v.magnitude * ureg('eV' if v.check('[energy]')
                                       else '1/nm' if v.check('1/[length]')
                                       and 'cm' not in str(v.units) else 'meV')
            args.append(v)
        o = A.item(*args, getattr(B.members[0], A.data + '_data'),
                   x_tick_labels=list(A.labels), metadata={})
        try:
            r = A.cls.from_spectra([a, o])
        except (AssertionError, ValueError):
            continue
        ctx.true(f'{ax} in other units not taken for the same', False)
    o = B.members[0].copy()
    setattr(o, A.data + '_data_unit', {'y': '1/hartree', 'z': 'barn/meV'}[A.data])
    try:
        r = A.cls.from_spectra([a, o])
    except (AssertionError, ValueError):
        return
    # accepted: then with the values converted
    w = np.array([(getattr(s, A.data + '_data').to(
        getattr(r, A.data + '_data').units, 'reciprocal_spectroscopy'))
        .magnitude for s in (a, o)])
    ctx.eq('mixed units', getattr(r, A.data + '_data').magnitude, w, tol=1e-6)


@harness('C19', functions=FN,
         bounds='25 members with every value; iteration, slices, lists, sum, '
         'group_by and select',
         cases=[dict(two=t, how=h) for t in (False, True)
                for h in ('from_spectra', 'direct')], traces=1)
def many(ctx, two, how):
    K = Col(ctx, two, 'many', n=25, how=how)
    c, n = K.c, K.n
    for i, s in enumerate(c):
        K.one(ctx, f'iterated {i}', s, K.v[i], K.metas[i])
    for i in (0, 9, 10, 11, 24, -1, -25, -11):
        K.one(ctx, f'[{i}]', c[i], K.v[i], K.metas[i])
    for sl in (slice(None, None, 3), slice(20, 8, -1), slice(9, 12)):
        K.many(ctx, f'[{sl.start}:{sl.stop}:{sl.step}]', c[sl],
               list(range(n))[sl])
    ix = [11, 2, 24, 10, 1, 20]
    K.many(ctx, f'{ix}', c[ix], ix)
    K.one(ctx, 'sum', c.sum(), K.v.sum(axis=0), common(K.metas))
    for ks in (('species',), ('n',), ('id',), ('n', 'species')):
        groups = {}
        for i, m in enumerate(K.metas):
            groups.setdefault(tuple(m[k] for k in ks), []).append(i)
        g = c.group_by(*ks)
        ctx.true(f'group_by {ks}: number', len(g) == len(groups), f'{len(g)}')
        for s in g:
            kv = tuple(s.metadata.get(k) for k in ks)
            ctx.true(f'group {kv}', kv in groups)
            ix = groups.pop(kv)
            K.one(ctx, f'group {kv}', s, K.v[ix].sum(axis=0),
                  common([K.metas[i] for i in ix]))
    for qq in (dict(species='Cl'), dict(index=[1, 12, 2, 25]),
               dict(n=[1, 11, 10], species=['Na', 'Cl', 'H'])):
        want = [i for i, m in enumerate(K.metas) if all(
            m[k] in (v if isinstance(v, list) else [v]) for k, v in qq.items())]
        s = c.select(**qq)
        ids = [m['id'] for m in s.iter_metadata()]
        ctx.true(f'select {qq}', sorted(ids) == want, f'{ids}')
        if sorted(ids) == want:
            K.many(ctx, f'select {qq}', s, ids)
