"""C28: what goes into and comes out of a Brille grid"""
import contextlib
import io
import sys
import types
import numpy as np
from vf.harness import harness
from .common import *

FN = ['BrilleInterpolator.from_force_constants', 'BrilleInterpolator.__init__',
      'BrilleInterpolator.calculate_qpoint_phonon_modes',
      'BrilleInterpolator.calculate_qpoint_frequencies',
      'BrilleInterpolator._br_grid_calculate_phonons',
      'Crystal.to_spglib_cell', 'validate._check_constructor_inputs']
HA = 27211.386245988            # meV
GRIDS = {'trellis': 'BZTrellisQdc', 'mesh': 'BZMeshQdc', 'nest': 'BZNestQdc'}
CELLS = {'cubic': (np.diag([4., 4., 4.]), [[0., 0, 0], [.5, .5, .5]],
                   ['Na', 'Cl']),
         'hex': (np.array([[3., 0, 0], [-1.5, 1.5 * 3 ** .5, 0], [0, 0, 5.]]),
                 [[0., 0, 0]], ['Si']),
         'low': (np.array([[3.1, .2, 0.], [-.4, 4.2, .3], [.5, -.1, 5.3]]),
                 [[.1, .2, .3], [.4, .4, .7]], ['O', 'O'])}


class Brille:
    """a stand-in for Brille, which is not installed: it writes down what it is
    given, and interpolates to any values at all"""

    def __init__(self, ctx, n_grid, volume, answer):
        self.ctx = ctx
        self.calls = {}
        self.grids = []
        B = self
        m = self.module = types.ModuleType('brille')

        def rec(n):
            def __init__(o, *a, **k):
                B.calls[n] = (o, a, k)
            return type(n, (), {'__init__': __init__})
        for n in ('Symmetry', 'Basis', 'Lattice'):
            setattr(m, n, rec(n))

        class BrillouinZone:
            def __init__(self, lattice):
                B.calls['bz'] = (self, (lattice,), {})
                self.ir_polyhedron = types.SimpleNamespace(volume=volume)
        m.BrillouinZone = BrillouinZone

        class Grid:
            def __init__(self, bz, **k):
                B.grids.append(self)
                self.bz, self.kwargs = bz, k
                self.rlu = ctx.reals('rlu', (n_grid, 3), -1., 1.)
                self.filled = 0

            def fill(self, v, vel, vw, e, eel, ew):
                self.filled += 1
                self.values, self.vectors = v, e
                self.elements = (tuple(vel), tuple(vw), tuple(eel), tuple(ew))

            def ir_interpolate_at(self, q, **k):
                B.asked = (q, k)
                return answer
        for n in GRIDS.values():
            setattr(m, n, type(n, (Grid,), {}))

    def __enter__(self):
        self.saved = {k: sys.modules.get(k) for k in ('brille',
                                                      'euphonic.brille')}
        sys.modules['brille'] = self.module
        sys.modules.pop('euphonic.brille', None)
        import importlib
        return importlib.import_module('euphonic.brille').BrilleInterpolator

    def __exit__(self, *a):
        import euphonic
        for k, v in self.saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
        if self.saved['euphonic.brille'] is None and hasattr(euphonic,
                                                             'brille'):
            del euphonic.brille


def objects(ctx, cell):
    from euphonic import Crystal, ForceConstants, ureg
    a, r, ty = CELLS[cell]
    n = len(ty)
    cr = Crystal(ctx.const(a) * ureg('angstrom'), ctx.const(r), np.array(ty),
                 ctx.reals('mass', (n,), 1., 200.) * ureg('amu'))
    fc = ForceConstants(cr, ctx.const(np.zeros((1, 3 * n, 3 * n)))
                        * ureg('hartree/bohr**2'), np.eye(3, dtype=int),
                        np.zeros((1, 3), dtype=int))
    return cr, fc, n, ty, a, r


BR = [dict(cell=c, grid=g, by=b, kw=k) for c, g, b, k in (
    ('cubic', 'trellis', None, None), ('hex', 'mesh', None, {'asr': 'realspace'}),
    ('low', 'nest', None, None), ('low', 'trellis', 'density', None),
    ('hex', 'mesh', 'density', None), ('hex', 'nest', 'density', None),
    ('hex', 'trellis', 'npts', {'asr': 'reciprocal', 'dipole': False}),
    ('low', 'mesh', 'npts', {'insert_gamma': True, 'reduce_qpts': True}),
    ('hex', 'nest', 'kwargs', {'use_c': False}),
    ('hex', 'trellis', 'kwargs', None), ('hex', 'mesh', 'default', None))]


@harness('C28', functions=FN, bounds='crystals of 1-2 atoms in three lattices, '
         'three kinds of grid of three points by number, density or given '
         'settings; every mass, grid point, frequency, eigenvector component, '
         'interpolated value and zone volume symbolic; Brille itself replaced by '
         'a stand-in that returns arbitrary values', cases=BR, traces=1)
def interpolator(ctx, cell, grid, by, kw):
    from euphonic import ForceConstants, QpointPhononModes, ureg
    cr, fc, n, ty, a, r = objects(ctx, cell)
    m, ng, nq = 3 * n, 3, 2
    vol = ctx.real('vol', .05, 3.)
    vals = ctx.reals('val', (nq, m, 1), -1e-3, 1e-2)
    re = ctx.reals('vre', (nq, m, m), -1., 1.)
    im = ctx.reals('vim', (nq, m, m), -1., 1.)
    vecs = re + im * 1j
    B = Brille(ctx, ng, vol, (vals, vecs))
    f = ctx.reals('f', (ng, m), -20., 90.)
    ev = ctx.reals('ere', (ng, m, n, 3), -1., 1.) + ctx.reals(
        'eim', (ng, m, n, 3), -1., 1.) * 1j
    log = []

    def phonons(self, qpts, **k):
        log.append((self, qpts, k))
        return QpointPhononModes(self.crystal, qpts, f * ureg('meV'), ev)
    saved = ForceConstants.calculate_qpoint_phonon_modes
    ForceConstants.calculate_qpoint_phonon_modes = phonons
    args = {'grid_type': grid}
    if by == 'npts':
        args['grid_npts'] = 37
    elif by == 'density':
        args['grid_density'] = dens = 8
    elif by == 'kwargs':
        args['grid_kwargs'] = {'some': 3, 'other': 'x'}
    if by == 'default':
        args = {'grid_type': grid}
    given = None if kw is None else dict(kw)
    if kw is not None:
        args['interpolation_kwargs'] = given
    try:
        with B as cls, quiet(), contextlib.redirect_stdout(io.StringIO()):
            ctx.expect_raise('unknown grid', ValueError, lambda:
                             cls.from_force_constants(fc, grid_type='cube'))
            bi = cls.from_force_constants(fc, **args)
            q = ctx.reals('q', (nq, 3), -3., 3.)
            out = bi.calculate_qpoint_phonon_modes(q)
            asked = B.asked
            fr = bi.calculate_qpoint_frequencies(q, threads=3)
            asked2 = B.asked
            ctx.expect_raise('not a grid', TypeError, lambda: cls(cr, 3.))
            other = object.__new__(type(B.grids[0]))
            other.rlu = ctx.const(np.zeros((ng + 1, 3)))
            other.values, other.vectors = B.grids[0].values, B.grids[0].vectors
            ctx.expect_raise('not filled', ValueError, lambda: cls(cr, other))
    finally:
        ForceConstants.calculate_qpoint_phonon_modes = saved
    ctx.true('options unchanged', given == kw, f'{given}')
    # the lattice
    lat = B.calls['Lattice']
    ctx.true('lattice', lat[2]['symmetry'] is B.calls['Symmetry'][0]
             and lat[2]['basis'] is B.calls['Basis'][0]
             and lat[2].get('snap_to_symmetry') is True
             and B.calls['bz'][1][0] is lat[0])
    num = lambda v: np.array([[float(x) for x in w] for w in v])
    ctx.true('lattice vectors', np.allclose(num(lat[1][0]), a, atol=1e-9,
                                            rtol=0))
    ctx.true('positions', np.allclose(num(B.calls['Basis'][1][0]), r))
    kinds = [int(x) for x in B.calls['Basis'][1][1]]
    ctx.true('species', len(kinds) == n and all(
        (kinds[i] == kinds[j]) == (ty[i] == ty[j])
        for i in range(n) for j in range(n)))
    W, t = (np.array(x, dtype=float) for x in B.calls['Symmetry'][1])
    order = {'cubic': 48, 'hex': 24, 'low': 2}[cell]
    ctx.true('symmetry operations', len(W) == len(t) == order, f'{len(W)}')
    pos = np.array(r)
    for w, s in zip(W, t):
        G = np.array(a) @ np.array(a).T
        ctx.true('isometry', np.allclose(w.T @ G @ w, G, atol=1e-6))
        img = (pos @ w.T + s)
        ctx.true('maps atoms on atoms', all(any(
            ty[i] == ty[j] and np.allclose((img[i] - pos[j] + .5) % 1, .5,
                                           atol=1e-4)
            for j in range(n)) for i in range(n)))
    # the grid
    ctx.true('one grid', len(B.grids) == 1 and type(
        B.grids[0]).__name__ == GRIDS[grid])
    g = B.grids[0]
    npts = 37 if by == 'npts' else 1000
    k = dict(g.kwargs)
    if by == 'kwargs':
        ctx.true('settings', k == {'some': 3, 'other': 'x'}, f'{k}')
    elif grid == 'trellis':
        ctx.true('triangulation', k.pop('always_triangulate', None) is False)
        ctx.eq('volume per point', k.pop('node_volume_fraction'),
               1 / dens if by == 'density' else vol / npts)
        ctx.true('no other setting', not k)
    elif grid == 'mesh':
        ctx.eq('volume per point', k.pop('max_size'),
               1 / dens if by == 'density' else vol / npts)
        p = k.pop('max_points')
        if by == 'density':
            ctx.true('number of points', (p <= vol * dens) & (
                p > vol * dens - 1))
        else:
            ctx.true('number of points', p == npts)
        ctx.true('no other setting', not k)
    else:
        p = k.pop('number_density')
        if by == 'density':
            ctx.true('number of points', (p <= vol * dens) & (
                p > vol * dens - 1))
        else:
            ctx.true('number of points', p == npts)
        ctx.true('no other setting', not k)
    # what it is filled with
    ctx.true('calculated once', len(log) == 1 and log[0][0] is fc)
    ctx.eq('grid points', log[0][1], g.rlu)
    ctx.true('options', log[0][2] == {**(kw or {}), 'insert_gamma': False,
                                      'reduce_qpts': False}, f'{log[0][2]}')
    ctx.true('filled once', g.filled == 1)
    ctx.eq('frequencies in the grid', g.values, [
        [[f[i, j] / HA] for j in range(m)] for i in range(ng)], tol=1e-6)
    ctx.eq('eigenvectors in the grid', g.vectors, [
        [[ev[i, j, x, c] for x in range(n) for c in range(3)]
         for j in range(m)] for i in range(ng)])
    ctx.true('kinds of elements', g.elements == (
        (1,), (1., 0., 0.), (0, m, 0, 2, 1), (0., 1., 0.)), f'{g.elements}')
    # what comes out
    ctx.eq('asked at', asked[0], q)
    ctx.eq('asked at again', asked2[0], q)
    ctx.true('threads', asked[1].get('useparallel') is True
             and asked[1].get('threads', 0) >= 1 and asked2[1] == {
                 'threads': 3}, f'{asked[1]} {asked2[1]}')
    for o in (out, fr):
        ctx.true('crystal', o.crystal is cr or np.array_equal(
            o.crystal.atom_type, cr.atom_type))
        ctx.eq('q-points', o.qpts, q)
        ctx.eq('frequencies', o.frequencies.to('meV').magnitude, [
            [vals[i, j, 0] * HA for j in range(m)] for i in range(nq)],
            tol=1e-6)
        ctx.eq('weights', o.weights, [.5, .5])
    ctx.eq('eigenvectors', out.eigenvectors, [[[[
        vecs[i, j, 3 * x + c] for c in range(3)] for x in range(n)]
        for j in range(m)] for i in range(nq)])
