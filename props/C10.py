"""C10: lattice geometry and grids"""
import itertools
import math
import numpy as np
from vf.harness import harness
from .common import *

FN = ['Crystal.reciprocal_cell', 'Crystal.cell_volume', 'Crystal.cell_vectors '
      '(getter, setter)', 'Crystal.get_mp_grid_spec', 'util._cell_vectors_to_volume']


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
            a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def mk(ctx, cell, unit, n=1):
    from euphonic import Crystal, ureg
    return Crystal(ctx.arr(cell) * ureg(unit), ctx.const([[0., 0., 0.]] * n),
                   np.array(['Na'] * n), ctx.const([23.] * n) * ureg('amu'))


@harness('C10', functions=FN, bounds='every cell with entries in [-5,5] and '
         'absolute volume at least 1, left- and right-handed; cell units angstrom, '
         'bohr, nm; after construction, assignment, or change of unit',
         cases=[dict(unit=u, how=h) for u, h in (
             ('angstrom', 'new'), ('bohr', 'new'), ('nm', 'assign'),
             ('angstrom', 'unit'))], traces=3)
def reciprocal(ctx, unit, how):
    from euphonic import ureg
    a = [[ctx.real(f'a{i}{j}', -5., 5.) for j in range(3)] for i in range(3)]
    hand = ctx.choice('hand', [1, -1])
    det = dot(a[0], cross(a[1], a[2]))
    ctx.assume(det * hand >= 1.)
    if how == 'assign':
        cr = mk(ctx, np.eye(3), 'angstrom')
        cr.cell_volume(), cr.reciprocal_cell()
        cr.cell_vectors = ctx.arr(a) * ureg(unit)
    else:
        cr = mk(ctx, a, unit)
    if how == 'unit':
        cr.reciprocal_cell()
        cr.cell_vectors_unit = 'bohr'
        ctx.true('unit', cr.cell_vectors.units == ureg('bohr').units)
    ctx.eq('cell', cr.cell_vectors.to(unit).magnitude, a)
    b = cr.reciprocal_cell().to(f'1/{unit}').magnitude
    ctx.eq('a_i.b_j', [[dot(a[i], [b[j, k] for k in range(3)])
                        for j in range(3)] for i in range(3)],
           2 * math.pi * np.eye(3))
    ctx.eq('volume', cr.cell_volume().to(f'{unit}**3').magnitude, det * hand)
    ctx.eq('cell after', cr.cell_vectors.to(unit).magnitude, a)


GS = {'tric': [[3., .2, 0.], [-.6, 3.5, .3], [0., .4, 4.1]],
      'left': [[-.6, 3.5, .3], [3., .2, 0.], [0., .4, 4.1]],
      'flat': [[1.8, 0., 0.], [-.9, 1.6, 0.], [0., 0., 7.]]}


@harness('C10', functions=FN, bounds='three cell shapes times every scale in '
         '[0.7,1.5]; every spacing from 0.4 to 1.6 inverse angstrom given in '
         'three units; cell units angstrom and bohr', cases=[
             dict(cu='angstrom', su='1/angstrom', shape='tric'),
             dict(cu='bohr', su='1/bohr', shape='flat'),
             dict(cu='angstrom', su='1/nm', shape='left')], traces=4,
         opts={'max_paths': 400})
def grid_spec(ctx, cu, su, shape):
    from euphonic import ureg
    s = ctx.real('scale', 0.7, 1.5)
    d = ctx.real('d', 0.4, 1.6)
    f = conv(1., 'angstrom', cu)
    cell = GS[shape]
    cr = mk(ctx, [[x * s * f for x in r] for r in cell], cu)
    g = conv(1., '1/angstrom', su)
    spec = cr.get_mp_grid_spec(d * g * ureg(su))
    ctx.true('three integers', len(spec) == 3 and all(
        isinstance(int(x), int) and int(x) == x and x >= 1 for x in spec))
    det = dot(cell[0], cross(cell[1], cell[2]))
    for i in range(3):
        c = cross(cell[(i + 1) % 3], cell[(i + 2) % 3])
        b = math.sqrt(dot(c, c)) * 2 * math.pi / abs(det)      # times scale
        n = float(spec[i])
        ctx.true(f'spacing {i} small enough', b <= s * d * (n * (1 + 1e-9)))
        ctx.true(f'grid {i} coarsest', b >= s * d * ((n - 1) * (1 - 1e-9)))


@harness('C10', functions=['util.mp_grid'], bounds='grids with 1-5 divisions per '
         'direction (sizes enumerated)', cases=[dict()], traces=0)
def mp_points(ctx):
    from euphonic.util import mp_grid
    g = ctx.choice('grid', [g for g in itertools.product((1, 2, 3, 4, 5),
                                                         repeat=3)
                            if sum(g) <= 9 and len(set(g)) > 1 or g in
                            ((1, 1, 1), (2, 2, 2), (3, 3, 3))])
    p = mp_grid(g)
    want = [[(2. * r - n - 1) / (2. * n) for r, n in zip(x, g)] for x in
            itertools.product(*[range(1, n + 1) for n in g])]
    ctx.true('number of points', p.shape == (g[0] * g[1] * g[2], 3))
    order = sorted(range(len(p)), key=lambda i: [round(float(v), 9)
                                                 for v in p[i]])
    ctx.eq('points', ctx.arr([[p[i, k] for k in range(3)] for i in order]),
           sorted(want), record=False)
    # spglib-style gamma offset is not applied: the grid maps onto itself
    neg = sorted([[-v for v in w] for w in want])
    ctx.eq('inversion', ctx.arr([[p[i, k] for k in range(3)] for i in order]),
           neg, record=False)


@harness('C10', functions=['util.get_all_origins',
                           'ForceConstants._get_shell_origins'],
         bounds='ranges within [-2,4], steps 1-3; shells 0-4 (sizes enumerated)',
         cases=[dict()], traces=0)
def origins(ctx):
    from euphonic.util import get_all_origins
    from euphonic import ForceConstants
    lo = ctx.choice('lo', [(0, 0, 0), (-2, -1, 0), (1, -2, -1)])
    n = ctx.choice('n', [(1, 1, 1), (2, 3, 1), (3, 1, 2), (4, 2, 3)])
    st = ctx.choice('step', [1, 2, 3])
    hi = tuple(a + b for a, b in zip(lo, n))
    if lo == (0, 0, 0) and st == 1:
        o = get_all_origins(hi)
    else:
        o = get_all_origins(hi, min_xyz=lo, step=st)
    want = sorted(itertools.product(*[range(a, b, st) for a, b in zip(lo, hi)]))
    ctx.true('every origin once', sorted(map(tuple, np.asarray(o, int).tolist()))
             == want)
    f = getattr(ForceConstants, '_get_shell_origins', None)
    if f is not None:
        k = ctx.choice('shell', [0, 1, 2, 4])
        s = sorted(map(tuple, np.asarray(f(k), int).tolist()))
        ref = sorted(t for t in itertools.product(range(-k, k + 1), repeat=3)
                     if max(map(abs, t)) == k)
        ctx.true('shell', s == ref)


@harness('C10', functions=['Crystal.get_species_idx', 'Crystal.to_spglib_cell',
                           'util._get_unique_elems_and_idx'],
         bounds='every position in [-2,2] and lattice entry in [1,5] of 4 atoms in '
         '5 species arrangements (enumerated)', cases=[dict()], traces=2)
def species(ctx):
    from euphonic import Crystal, ureg
    t = ctx.choice('types', [('Na', 'Cl', 'Na', 'Cl'), ('B', 'A', 'A', 'C'),
                             ('X', 'X', 'X', 'X'), ('D', 'C', 'B', 'A'),
                             ('Si', 'O', 'O', 'Si')])
    r = ctx.reals('r', (4, 3), -2., 2.)
    c = ctx.reals('c', (3, 3), 1., 5.)
    cr = Crystal(c * ureg('angstrom'), r, np.array(t),
                 ctx.reals('m', 4, 1., 200.) * ureg('amu'))
    idx = cr.get_species_idx()
    first = list(dict.fromkeys(t))
    ctx.true('species in order of appearance', [str(k) for k in idx] == first)
    ctx.true('indices', all([int(i) for i in idx[s]] == [
        k for k in range(4) if t[k] == s] for s in first))
    lat, pos, num = cr.to_spglib_cell()
    ctx.eq('lattice', ctx.arr(lat), c)
    ctx.eq('positions', ctx.arr(pos), r)
    ctx.true('species numbers', all((num[i] == num[j]) == (t[i] == t[j])
                                    for i in range(4) for j in range(4)))
