"""C22: constructors and setters accept exactly consistent input"""
import contextlib
import numpy as np
from vf.harness import harness
from .common import *
from .C18 import FACTOR
from .C21 import build, UF, BOHR, HA

FN = ['validate._check_constructor_inputs', 'validate._replace_dim',
      '__init__ of Crystal, ForceConstants, QpointFrequencies, '
      'QpointPhononModes, StructureFactor, DebyeWaller, Spectrum1D, '
      'Spectrum1DCollection, Spectrum2D, Spectrum2DCollection']
FNU = ['validate._check_unit_conversion',
       '__setattr__, unit attributes and setters of the same classes']


class ShapeArr(np.ndarray):
    """an array of which only the (symbolic) shape is known"""
    def __new__(cls, dims, dtype=float):
        o = np.zeros(1, dtype=dtype).view(cls)
        o.dims = tuple(dims)
        return o

    def __array_finalize__(self, obj):
        self.dims = getattr(obj, 'dims', ())

    @property
    def shape(self):
        return self.dims

    @property
    def ndim(self):
        return len(self.dims)

    @property
    def size(self):
        n = 1
        for d in self.dims:
            n = n * d
        return n

    def __len__(self):
        if not self.dims:
            raise TypeError('len() of unsized object')
        return int(self.dims[0])

    def __getitem__(self, i):
        if isinstance(i, (int, np.integer)) and self.dims:
            return ShapeArr(self.dims[1:])
        raise NotImplementedError('item of an array of unknown shape')

    def copy(self, *a, **k):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __array_ufunc__(self, uf, method, *inputs, **k):
        for x in inputs:
            if isinstance(x, np.ndarray) and not isinstance(x, ShapeArr) \
                    and x.ndim:
                raise NotImplementedError
        return self


# arguments: name, kind (unit, or numpy type), dimensions. A string is a size
# shared between arguments, '*' any size, 'a|b' alternatives, 'n+1' one more
S = {
    'Crystal': [('cell_vectors', 'angstrom', (3, 3)),
                ('atom_r', float, ('n', 3)), ('atom_type', str, ('n',)),
                ('atom_mass', 'amu', ('n',))],
    'QpointFrequencies': [('qpts', float, ('q', 3)),
                          ('frequencies', 'meV', ('q', '*')),
                          ('weights', float, ('q',))],
    'QpointPhononModes': [('qpts', float, ('q', 3)),
                          ('frequencies', 'meV', ('q', '3N')),
                          ('eigenvectors', complex, ('q', '3N', 'N', 3)),
                          ('weights', float, ('q',))],
    'StructureFactor': [('qpts', float, ('q', 3)),
                        ('frequencies', 'meV', ('q', '3N')),
                        ('structure_factors', 'mbarn', ('q', '3N')),
                        ('weights', float, ('q',))],
    'DebyeWaller': [('debye_waller', 'angstrom**2', ('N', 3, 3)),
                    ('temperature', 'K', None)],
    'ForceConstants': [('force_constants', 'eV/angstrom**2',
                        ('C', '3N', '3N')), ('sc_matrix', int, None),
                       ('cell_origins', int, ('C', 3)),
                       ('born', 'e', ('N', 3, 3)),
                       ('dielectric', 'e**2/(bohr*hartree)', (3, 3))],
    'Spectrum1D': [('x_data', 'meV', ('y|y+1',)), ('y_data', '1/meV', ('y',))],
    'Spectrum1DCollection': [('x_data', 'meV', ('y|y+1',)),
                             ('y_data', '1/meV', ('*', 'y'))],
    'Spectrum2D': [('x_data', '1/angstrom', ('x|x+1',)),
                   ('y_data', 'meV', ('y|y+1',)),
                   ('z_data', 'mbarn', ('x', 'y'))],
    'Spectrum2DCollection': [('x_data', '1/angstrom', ('x|x+1',)),
                             ('y_data', 'meV', ('y|y+1',)),
                             ('z_data', 'mbarn', ('*', 'x', 'y'))],
}
OPTIONAL = {'weights': ('QpointFrequencies', 'QpointPhononModes',
                        'StructureFactor'), 'born': ('ForceConstants',),
            'dielectric': ('ForceConstants',)}
SC = {'1': np.eye(3), '2': np.diag([2, 1, 1]),
      'sheared2': [[1, 1, 0], [-1, 1, 0], [0, 0, 1]],
      'left2': [[0, 1, 0], [1, 0, 0], [0, 0, 2]],
      '3': [[1, 0, 2], [0, 1, 0], [0, 1, 3]]}
BAD = (TypeError, ValueError)


def cls_of(kind):
    import euphonic
    from euphonic import spectra
    return getattr(euphonic, kind, None) or getattr(spectra, kind)


def a_crystal(ctx, n):
    from euphonic import Crystal, ureg
    return Crystal(ctx.const(np.eye(3) * 4) * ureg('angstrom'),
                   ctx.const(np.arange(3. * n).reshape(n, 3) / 7),
                   np.array(['Na', 'C', 'Cl'][:n]),
                   ctx.const(np.ones(n)) * ureg('amu'))


def size(ctx, name, hi):
    """a size 1..hi"""
    v = ctx.real(name, 1., hi)
    if not ctx.symbolic:
        return int(round(v))
    c = v == 1
    for k in range(2, hi + 1):
        c = c | (v == k)
    ctx.assume(c)
    return v


def array_of(ctx, dims, kind):
    from euphonic import ureg
    dt = kind if not isinstance(kind, str) else float
    if ctx.symbolic:
        a = ShapeArr(dims, '<U2' if dt is str else dt)
    else:
        a = np.full(dims, 'H') if dt is str else np.ones(dims, dtype=dt)
        a = np.asarray(a)
    return ureg.Quantity(a, kind) if isinstance(kind, str) else a


def consistent(tmpl, dims, sizes):
    """formula: the dimensions fit; binds the sizes not known yet"""
    if len(tmpl) != len(dims):
        return False
    c = True

    def known(s):
        if not isinstance(s, str):
            return s
        return sizes.get(s)
    for t, d in zip(tmpl, dims):
        if t == '*':
            continue
        if isinstance(t, str) and '|' in t:
            s = sizes[t.split('|')[0]]
            c = ((d == s) | (d == s + 1)) & c
            continue
        k = known(t)
        if k is None:
            sizes[t] = d
        else:
            c = (d == k) & c
    return c


def sizes_first(args):
    # arguments with alternatives last, so that the sizes are known
    return sorted(args, key=lambda a: any('|' in str(t) for t in a[2] or ()))


SHAPES = [dict(kind=k, n=n, sc=s) for k in S for n, s in (
    [(2, k2) for k2 in SC] + [(1, '1')] if k == 'ForceConstants' else
    [(1, '1'), (2, '1')] if k in ('QpointPhononModes', 'StructureFactor',
                                  'DebyeWaller', 'QpointFrequencies')
    else [(1, '1')])]


@harness('C22', functions=FN, bounds='every argument of every class: each '
         'array dimension is a symbolic size 1-4 (1-7 where 3*n_atoms is '
         'expected), one argument may also have a dimension too many or too '
         'few; crystals of 1-2 atoms, five supercell matrices of 1-3 cells',
         cases=SHAPES, opts={'max_paths': 4000}, traces=8)
def shapes(ctx, kind, n, sc):
    cls = cls_of(kind)
    args = S[kind]
    fixed = {'N': n, '3N': 3 * n}
    kw = {}
    if kind not in ('Crystal',) and not kind.startswith('Spectrum'):
        kw['crystal'] = a_crystal(ctx, n)
    fixed['C'] = int(round(abs(np.linalg.det(np.array(SC[sc])))))
    free = [i for i, a in enumerate(args) if a[2] is not None]
    odd = ctx.choice('odd', [None] + [(i, s) for i in free for s in (-1, 1)])
    dims = {}
    for i, (a, k, t) in enumerate(args):
        if a == 'temperature':
            from euphonic import ureg
            kw[a] = ureg.Quantity(5., 'K')
        elif a == 'sc_matrix':
            kw[a] = np.array(SC[sc], dtype=int)
        else:
            tt = list(t)
            if odd is not None and odd[0] == i:
                tt = tt[:-1] if odd[1] < 0 else tt + ['*']
            dims[a] = tuple(size(ctx, f'{a}{j}', 7 if s == '3N' else 4)
                            for j, s in enumerate(tt))
            kw[a] = array_of(ctx, dims[a], k)
    sizes = dict(fixed)
    want = True
    for a, k, t in sizes_first(args):
        if a in dims:
            ok = consistent(t, dims[a], sizes)
            want = ok & want if not ok is False else False
            if ok is False:
                break
    try:
        with quiet():
            o = cls(**kw)
    except BAD as e:
        if type(e).__name__ == 'NotImplementedError':
            raise
        ctx.true('refused only if inconsistent', want == False
                 if isinstance(want, bool) else ~want)
        return
    ctx.true('accepted only if consistent', want)
    if want is False:
        return
    if kind == 'Crystal':
        ctx.true('n_atoms', dims['atom_r'][0] == o.n_atoms)
    elif 'qpts' in dims:
        ctx.true('n_qpts', dims['qpts'][0] == o.n_qpts)
    elif kind == 'ForceConstants':
        ctx.true('n_cells_in_sc', dims['cell_origins'][0] == o.n_cells_in_sc)


def good(ctx, kind, n=2):
    """valid concrete arguments"""
    from euphonic import ureg
    kw = {}
    if kind != 'Crystal' and not kind.startswith('Spectrum'):
        kw['crystal'] = a_crystal(ctx, n)
    d = {'n': n, 'q': 2, 'N': n, '3N': 3 * n, 'C': 2, 'x': 3, 'y': 2, '*': 2,
         'y|y+1': 2, 'x|x+1': 4}
    for a, k, t in S[kind]:
        if a == 'temperature':
            kw[a] = ureg.Quantity(5., 'K')
        elif a == 'sc_matrix':
            kw[a] = np.array(SC['2'], dtype=int)
        else:
            s = tuple(d.get(x, x) for x in t)
            v = np.full(s, 'H') if k is str else \
                np.ones(s, k if not isinstance(k, str) else float)
            if k in (str, int):
                kw[a] = v
            else:
                v = ctx.const(v, dtype=v.dtype)
                kw[a] = ureg.Quantity(v, k) if isinstance(k, str) else v
    return kw


@harness('C22', functions=FN, bounds='2 atoms, 2 q-points, 3x2 spectra; each '
         'argument in turn replaced with each of: a bare array, a list, a '
         'number, a string, None, a quantity',
         cases=[dict(kind=k) for k in S], traces=0)
def types(ctx, kind):
    from euphonic import ureg
    cls = cls_of(kind)
    kw = good(ctx, kind)
    with quiet():
        cls(**kw)
    a = ctx.choice('arg', list(kw))
    x = kw[a]
    q = isinstance(x, ureg.Quantity)
    m = x.magnitude if q else x
    wrong = [('a string', 'meV'), ('a number', 3.), ('a dict', {'a': 1.})]
    if a not in OPTIONAL:
        wrong.append(('None', None))
    if q:
        wrong += [('a bare array', m), ('a list', [1., 2.])]
    elif a != 'crystal':
        wrong += [('a list', np.asarray(x).tolist()
                   if not ctx.symbolic else [[1., 2., 3.]] * 2),
                  ('a quantity', ureg.Quantity(m, 'meV') if
                   np.asarray(m).dtype.kind not in 'U' else 3. * ureg('K'))]
    nm, w = ctx.choice('wrong', wrong)
    with quiet():
        ctx.expect_raise(f'{kind} {a} as {nm}', TypeError,
                         lambda: cls(**{**kw, a: w}))
    for b in OPTIONAL:
        if b in kw and kind != 'ForceConstants' and nm == 'a number':
            with quiet():
                cls(**{k: v for k, v in kw.items() if k != b})
                ctx.true(f'{b} is optional', True)


NOT = {'angstrom': ('amu', 'e', 's', 'angstrom**2', 'K', '1/meV'),
       'amu': ('angstrom', 'meV', 'K', 'e', '1/amu', 'THz'),
       'meV': ('K', 'amu', '1/meV', 's', 'meV**2', 'angstrom**2', '1/THz'),
       'mbarn': ('angstrom', 'meV', '1/angstrom**2', 'mbarn/meV'),
       'angstrom**2': ('angstrom', 'meV', '1/angstrom**2'),
       'K': ('meV', '1/K', 's', 'THz'),
       'eV/angstrom**2': ('meV', 'eV/angstrom', 'hartree*bohr**2'),
       'e': ('meV', 'amu', '1/e'),
       'e**2/(bohr*hartree)': ('e', 'bohr*hartree/e**2', 'e**2/bohr', '')}


@harness('C22', functions=FN, bounds='2 atoms, 2 q-points; each quantity given '
         'in each of several units of another dimension',
         cases=[dict(kind=k) for k in S if not k.startswith('Spectrum')],
         traces=0)
def dimensionality(ctx, kind):
    from euphonic import ureg
    from pint import DimensionalityError
    cls = cls_of(kind)
    kw = good(ctx, kind)
    a, u = ctx.choice('arg', [(a, u) for a, k, _ in S[kind]
                              if isinstance(k, str) for u in NOT[k]])
    w = {**kw, a: ureg.Quantity(kw[a].magnitude, u)}
    with quiet():
        ctx.expect_raise(f'{kind} {a} in {u}', DimensionalityError,
                         lambda: cls(**w))


# units that can be converted to (with factors) and not
OK = {'cell_vectors': ['bohr', 'nm'], 'atom_mass': ['kg', 'm_e'],
      'frequencies': ['1/cm', 'THz', 'hartree', 'eV'],
      'structure_factors': ['mbarn', 'bohr**2'],
      'debye_waller': ['bohr**2', 'mbarn'], 'temperature': ['mK'],
      'force_constants': ['hartree/bohr**2', 'meV/nm**2'],
      'born': ['C'], 'dielectric': ['e**2/(angstrom*eV)']}
UF.update({('angstrom', 'nm'): .1, ('amu', 'kg'): 1.66053906660e-27,
        ('eV/angstrom**2', 'meV/nm**2'): 1e5, ('meV', 'eV'): 1e-3,
        ('K', 'mK'): 1e3})
FACT = UF
OKS = {'1D': {'x_data': ['1/cm'], 'y_data': ['1/eV', 'ps']},
       '1DC': {'x_data': ['THz'], 'y_data': ['1/eV', '1/THz']},
       '2D': {'x_data': ['1/nm'], 'y_data': ['1/cm'], 'z_data': ['barn/eV']},
       '2DC': {'x_data': ['1/bohr'], 'y_data': ['THz'],
               'z_data': ['barn/eV']}}
NOTS = {'meV': ('K', 'amu', 'meV**2', 'angstrom**2', 'e'),
        '1/meV': ('K', 'amu', 'mbarn', '1/meV**2'),
        '1/angstrom': ('K', 'amu', '1/angstrom**2', 'mbarn'),
        'mbarn/meV': ('K', 'mbarn', 'mbarn*meV', 'angstrom', '1/meV')}
OBJ = [('Crystal', ''), ('ForceConstants', 'born'), ('QpointFrequencies', ''),
       ('QpointPhononModes', 'weights'), ('StructureFactor', 'temp'),
       ('DebyeWaller', ''), ('1D', 'edges'), ('1DC', ''), ('2D', ''),
       ('2DC', 'edges')]
for _k, _v in {('meV', 'THz'): FACTOR[('meV', 'THz')]}.items():
    FACT.setdefault(_k, _v)


def unit_options(kind, O):
    good_, bad = [], []
    for a, (v, u) in O.quant.items():
        good_ += [(a, u, u2) for u2 in (OKS[kind] if kind in OKS else OK).get(
            a, [])]
        bad += [(a, u, u2) for u2 in (NOTS if kind in OKS else NOT)[u]]
    return good_, bad


@harness('C22', functions=FNU, bounds='2 atoms, 2 q-points, 3x2 spectra, every '
         'value symbolic; each unit attribute set to units of the same and of '
         'other dimensions',
         cases=[dict(kind=k, opt=o) for k, o in OBJ], traces=1)
def unit_attributes(ctx, kind, opt):
    O = build(ctx, kind, opt)
    g, b = unit_options(kind, O)
    ok, (a, u, u2) = ctx.choice('unit', [(1, x) for x in g]
                                + [(0, x) for x in b])
    with quiet():
        if ok:
            setattr(O.o, a + '_unit', u2)
            O2 = O
            O2.expect(ctx, f'{a} in {u2}', O.o, {a: u2})
            setattr(O.o, a + '_unit', u)
        else:
            ctx.expect_raise(f'{kind}.{a}_unit = {u2}', ValueError,
                             lambda: setattr(O.o, a + '_unit', u2))
        O.expect(ctx, 'back', O.o)


@harness('C22', functions=FNU, bounds='2 atoms, 2 q-points, 3x2 spectra, every '
         'value symbolic; each quantity attribute assigned values in units of '
         'the same and of other dimensions', cases=[
             dict(kind=k, opt=o) for k, o in OBJ], traces=1)
def setters(ctx, kind, opt):
    from euphonic import ureg
    O = build(ctx, kind, opt)
    g, b = unit_options(kind, O)
    ok, (a, u, u2) = ctx.choice('unit', [(1, x) for x in g]
                                + [(0, x) for x in b])
    v = np.asarray(O.quant[a][0], dtype=object)
    if v.shape:
        new = ctx.reals('new', v.shape, -3., 3.)
        val = ureg.Quantity(new.copy(), u2)
    else:
        new = ctx.real('new', 0., 900.)
        val = ureg.Quantity(new, u2)
    with quiet():
        if ok:
            setattr(O.o, a, val)
            O.quant[a] = (new, u2)
            O.expect(ctx, f'{a} assigned', O.o)
            setattr(O.o, a + '_unit', u)
            from .C21 import Obj
            # and in the units of before
            f = FACT[(u, u2)]
            w = np.asarray(new, dtype=object)
            O.quant[a] = (np.array([x / f for x in w.ravel()], dtype=object
                                   ).reshape(w.shape), u)
        else:
            try:
                setattr(O.o, a, val)
                ctx.true(f'{kind}.{a} in {u2} refused', False)
            except ValueError:
                ctx.true(f'{kind}.{a} in {u2} refused', True)
            except Exception as e:
                ctx.true(f'{kind}.{a} in {u2} refused',
                         type(e).__name__ == 'DimensionalityError', repr(e))
        O.expect(ctx, 'afterwards', O.o)


@harness('C22', functions=FNU, bounds='2 q-points, 1 atom, every (positive) '
         'frequency symbolic; wavelengths', cases=[dict(how=h) for h in
                                                   ('unit', 'set', 'build')],
         traces=1)
def wavelength(ctx, how):
    """energies as wavelengths: not proportional"""
    from euphonic import ureg, QpointFrequencies
    f = ctx.reals('f', (2, 3), 1., 30.)
    c = a_crystal(ctx, 1)
    q = ctx.const(np.zeros((2, 3)))
    HC = 12.398419843320026e6     # meV angstrom
    if how == 'build':
        o = QpointFrequencies(c, q, ureg.Quantity(f.copy(), 'angstrom'))
    else:
        o = QpointFrequencies(c, q, ureg.Quantity(
            f.copy() if how == 'unit' else f * 2., 'meV'))
        if how == 'set':
            o.frequencies = ureg.Quantity(f.copy(), 'angstrom')
    if how == 'unit':
        o.frequencies_unit = 'angstrom'
        ctx.eq('wavelength', o.frequencies.magnitude, [
            [HC / x for x in r] for r in f], tol=1e-6)
    else:
        ctx.eq('wavelength', o.frequencies.magnitude, f, tol=1e-6)
        o.frequencies_unit = 'meV'
        ctx.eq('energy', o.frequencies.magnitude, [
            [HC / x for x in r] for r in f], tol=1e-6)


@harness('C22', functions=['ForceConstants.__init__'], bounds='2 atoms, 2 '
         'cells, every entry symbolic; Born charges and dielectric tensor '
         'given or not', cases=[dict(born=b, eps=e) for b in (0, 1)
                                for e in (0, 1)], traces=1)
def born_and_dielectric(ctx, born, eps):
    from euphonic import ureg, ForceConstants
    kw = good(ctx, 'ForceConstants')
    b = ctx.reals('b', (2, 3, 3), -3., 3.)
    d = ctx.reals('eps', (3, 3), -2., 2.)
    kw['born'] = ureg.Quantity(b.copy(), 'e') if born else None
    kw['dielectric'] = ureg.Quantity(d.copy(), 'e**2/(angstrom*eV)') if eps \
        else None
    with quiet():
        if born and not eps:
            # the charges alone cannot be used
            try:
                ForceConstants(**kw)
                ctx.true('Born charges without dielectric refused', False)
            except Exception:
                ctx.true('Born charges without dielectric refused', True)
            return
        o = ForceConstants(**kw)
    for a, v, u in (('born', b if born else None, 'e'),
                    ('dielectric', d if eps else None, 'e**2/(angstrom*eV)')):
        g = getattr(o, a)
        if v is None:
            ctx.true(a, g is None)
        else:
            ctx.true(a + ' unit', g.units == ureg(u).units, f'{g.units}')
            ctx.eq(a, g.magnitude, v)
