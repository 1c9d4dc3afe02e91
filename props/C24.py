"""C24: sphere sampling and powder averages"""
import json
import math
import os
import tempfile
import numpy as np
from vf.harness import harness
from .common import *

FN = ['sampling.golden_square', 'sampling.regular_square',
      'sampling.golden_sphere', 'sampling.sphere_from_square_grid',
      'sampling.spherical_polar_grid', 'sampling.spherical_polar_improved',
      'sampling.random_sphere', 'sampling.recurrence_sequence']
FNP = ['powder.sample_sphere_dos', 'powder.sample_sphere_pdos',
       'powder.sample_sphere_structure_factor', 'powder._get_qpts_sphere',
       'powder._qpts_cart_to_frac', 'powder._get_default_bins']
PHI = (1 + math.sqrt(5)) / 2


class symbolic_random:
    """random numbers in [0, 1) as inputs"""
    NAMES = ('random', 'random_sample', 'rand', 'uniform', 'ranf', 'sample')

    def __init__(self, ctx, again=()):
        self.ctx, self.n, self.drawn = ctx, 0, []
        self.again = list(again)

    def draw(self, shape=None):
        def one():
            self.n += 1
            v = self.again.pop(0) if self.again else self.ctx.real(f'u{self.n}', 0., .999999)
            self.drawn.append(v)
            return v
        if shape is None:
            return one()
        shape = (shape,) if isinstance(shape, (int, np.integer)) else \
            tuple(shape)
        n = int(np.prod(shape))
        a = self.ctx.arr([one() for _ in range(n)] or np.zeros(0))
        return a.reshape(shape)

    def __enter__(self):
        self.saved = {n: getattr(np.random, n) for n in self.NAMES}
        for n in ('random', 'random_sample', 'ranf', 'sample'):
            setattr(np.random, n, self.draw)
        np.random.rand = lambda *s: self.draw(s or None)
        np.random.uniform = lambda low=0., high=1., size=None: \
            self.draw(size) * (high - low) + low
        return self

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(np.random, n, f)


def rows(x, n):
    return [list(t) for t in x]


def near(ctx, label, a, b, width):
    """|a-b| <= width"""
    d = a - b
    ctx.true(label, (d <= width + 1e-9) & (d >= -width - 1e-9))


def cyc(ctx, label, a, b, width, period):
    """distance of a and b on a circle"""
    d = a - b
    c = None
    for k in (-1, 0, 1):
        e = d + k * period
        t = (e <= width + 1e-9) & (e >= -width - 1e-9)
        c = t if c is None else c | t
    ctx.true(label, c)


def square_reference(kind, args, offset=True):
    if kind == 'golden':
        n, = args
        return [((i / n + (1 / (2 * n) if offset else 0)) % 1, (i / PHI) % 1)
                for i in range(n)]
    rows_, cols = args
    ox, oy = (.5 / cols, .5 / rows_) if offset else (0, 0)
    return [(i / cols + ox, j / rows_ + oy) for i in range(cols)
            for j in range(rows_)]


SQ = [('golden', (n,)) for n in (1, 2, 3, 7)] + [
    ('regular', g) for g in ((1, 1), (1, 3), (2, 1), (3, 2))]


@harness('C24', functions=FN, bounds='1-7 points, every random number symbolic '
         'in [0, 1)', cases=[dict(kind=k, args=a, offset=o, jitter=j)
                             for k, a in SQ for o in (True, False)
                             for j in (False, True) if not (
                                 j and k == 'golden' and a[0] > 3)],
         traces=2)
def squares(ctx, kind, args, offset, jitter):
    """points in the unit square; jitter moves each inside its cell"""
    from euphonic import sampling
    f = getattr(sampling, kind + '_square')
    with symbolic_random(ctx) as R:
        p = rows(f(*args, offset=offset, jitter=jitter), 2)
    ref = square_reference(kind, args, offset)
    ctx.true('number of points', len(p) == len(ref), f'{len(p)}')
    n = len(ref)
    w = (.5 / math.sqrt(n),) * 2 if kind == 'golden' else \
        (.5 / args[1], .5 / args[0])
    for i, (a, b) in enumerate(zip(p, ref)):
        for c in range(2):
            if not jitter:
                ctx.true('points', abs(a[c] - b[c]) < 1e-9, f'{a} {b}')
                continue
            if kind == 'golden':
                ctx.true('inside the square', (a[c] >= -1e-9) & (a[c] <= 1 + 1e-9))
                cyc(ctx, 'jitter', a[c], b[c], w[c], 1.)
            else:
                if offset:
                    ctx.true('inside the square', (a[c] >= -1e-9)
                             & (a[c] <= 1 + 1e-9))
                near(ctx, 'jitter', a[c], b[c], w[c])
    if jitter:
        ctx.true('random displacements', len(R.drawn) == 2 * n)
        ctx.true('points are displaced', any(
            bool(abs(a[c] - b[c]) > 0) if not ctx.symbolic else
            not isinstance(a[c], float) for a, b in zip(p, ref)
            for c in range(2)))


def polar(v):
    return [(2 * math.pi * y, math.acos(2 * x - 1)) for x, y in v]


def sphere_reference(kind, args):
    """(phi, theta, half cell in phi, in theta)"""
    if kind == 'golden':
        return [p + (None, None) for p in polar(square_reference(
            'golden', args))]
    if kind == 'square-grid':
        return [p + (None, None) for p in polar(square_reference(
            'regular', args))]
    if kind == 'polar':
        a, b = args
        return [(-math.pi + 2 * math.pi * i / a, math.pi * (j + .5) / b,
                 math.pi / a, math.pi / b / 2) for i in range(a)
                for j in range(b)]
    raise ValueError


def call(kind, args, **k):
    from euphonic import sampling as s
    return rows({'golden': s.golden_sphere, 'polar': s.spherical_polar_grid,
                 'square-grid': s.sphere_from_square_grid,
                 'improved': s.spherical_polar_improved,
                 'random': s.random_sphere}[kind](*args, **k), 3)


SPH = [('golden', (1,)), ('golden', (2,)), ('golden', (6,)),
       ('square-grid', (1, 1)), ('square-grid', (3, 2)),
       ('square-grid', (2, 3)), ('polar', (1, 1)), ('polar', (2, 1)),
       ('polar', (1, 3)), ('polar', (3, 2)), ('polar', (4, 4)),
       ('improved', (6,)), ('improved', (7,)), ('improved', (13,)),
       ('improved', (24,)), ('random', (1,)), ('random', (3,))]


@harness('C24', functions=FN, bounds='1-24 points, every random number symbolic '
         'in [0, 1); polar and Cartesian', cases=[
             dict(kind=k, args=a, jitter=j) for k, a in SPH
             for j in (False, True) if not (j and k == 'random' or
                                            j and k == 'golden' and a[0] > 2)],
         traces=2)
def spheres(ctx, kind, args, jitter):
    """unit vectors where the scheme puts them; jitter stays in the cell"""
    kw = {} if kind == 'random' else {'jitter': jitter}
    with symbolic_random(ctx) as R:
        pol = call(kind, args, cartesian=False, **kw)
        draw = list(R.drawn)
    with symbolic_random(ctx, draw) as R2:
        car = call(kind, args, **kw)
    n = args[0] if kind in ('golden', 'improved', 'random') else \
        args[0] * args[1]
    ctx.true('number of points', len(pol) == n == len(car), f'{len(pol)}')
    for a, c in zip(pol, car):
        ctx.true('unit radius', a[0] == 1)
        ctx.eq('unit vector', c[0] * c[0] + c[1] * c[1] + c[2] * c[2], 1.)
        s = np.sin(ctx.arr([a[1], a[2]]))
        k = np.cos(ctx.arr([a[1], a[2]]))
        ctx.eq('Cartesian = polar', c, [k[0] * s[1], s[0] * s[1], k[1]],
               scale_tol=1e-9)
        if kind != 'golden' or not jitter:
            ctx.true('polar angle', (a[2] >= -1e-9)
                     & (a[2] <= math.pi + 1e-9))
    if kind == 'random':
        # uniform on the sphere: z uniform in -1..1, phi in 0..2pi
        for i, a in enumerate(pol):
            x, y = draw[2 * i], draw[2 * i + 1]
            ctx.eq('z', car[i][2], 2 * x - 1, scale_tol=1e-9)
            ctx.eq('phi', a[1], 2 * math.pi * y)
    elif kind == 'improved':
        improved_rings(ctx, args[0], pol, jitter)
    elif not jitter:
        for a, r in zip(pol, sphere_reference(kind, args)):
            ctx.true('phi', abs(a[1] - r[0]) < 1e-9, f'{a[1]} for {r[0]}')
            ctx.true('theta', abs(a[2] - r[1]) < 1e-7, f'{a[2]} for {r[1]}')
    elif kind == 'polar':
        for a, r in zip(pol, sphere_reference(kind, args)):
            near(ctx, 'jitter in phi', a[1], r[0], r[2])
            near(ctx, 'jitter in theta', a[2], r[1], r[3])
    elif kind == 'square-grid':
        # equal area cells: phi and z
        w = math.pi / args[0], 1. / args[1]
        for a, c, r in zip(pol, car, sphere_reference(kind, args)):
            near(ctx, 'jitter in phi', a[1], r[0], w[0])
            near(ctx, 'jitter in z', c[2], math.cos(r[1]), w[1])
    if jitter:
        ctx.true('random displacements', len(draw) == 2 * n)


def improved_rings(ctx, n, pol, jitter):
    """rings of equally spaced points, about as dense everywhere"""
    m = int(math.sqrt(math.pi / 4 * n))
    if jitter:
        ref = call('improved', (n,), cartesian=False)
    else:
        ref = pol
    rings = {}
    for a in ref:
        j = int(round(float(a[2]) / math.pi * m - .5))
        ctx.true('ring', abs(a[2] - math.pi * (j + .5) / m) < 1e-9)
        rings.setdefault(j, []).append(float(a[1]))
    ctx.true('rings', sorted(rings) == list(range(m)))
    tot = sum(math.sin(math.pi * (j + .5) / m) for j in range(m))
    for j, ph in rings.items():
        k = len(ph)
        want = n * math.sin(math.pi * (j + .5) / m) / tot
        ctx.true('share of the ring', abs(k - want) <= 1.5, f'{k} for {want}')
        ctx.true('even spacing', all(abs(x + math.pi - 2 * math.pi * i / k)
                                     < 1e-9 for i, x in enumerate(ph)))
    if jitter:
        for a, r in zip(pol, ref):
            k = len(rings[int(round(float(r[2]) / math.pi * m - .5))])
            near(ctx, 'jitter in phi', a[1], r[1], math.pi / k)
            near(ctx, 'jitter in theta', a[2], r[2], math.pi / m / 2)


@harness('C24', functions=FN + ['powder._get_qpts_sphere'], bounds='number of '
         'points any integer 6-420 (improved), 1-60 (others, and through '
         'powder)', cases=[dict(kind=k, lo=a, hi=b) for k, a, b in (
             [('improved', a, a + 60) for a in range(6, 420, 60)]
             + [('golden', 1, 60), ('random', 1, 60), ('golden-square', 1, 60),
                ('recurrence', 0, 60), ('recurrence2', 0, 30),
                ('p:sphere-projected-grid', 1, 60),
                ('p:spherical-polar-grid', 1, 60),
                ('p:spherical-polar-improved', 6, 60), ('p:golden', 1, 60),
                ('p:Golden', 1, 8), ('p:Random-Sphere', 1, 9),
                ('p:random-sphere', 1, 60)])],
         thorough_cases=[dict(kind='improved', lo=a, hi=a + 100)
                         for a in range(420, 2600, 100)], traces=0,
         opts={'max_paths': 500})
def counts(ctx, kind, lo, hi):
    """the number of points asked for, of unit length, all different"""
    from euphonic import sampling, powder
    n = ctx.choice('npts', list(range(lo, hi)))
    if kind.startswith('recurrence'):
        d = 2 if kind[-1] == '2' else 3
        p = list(sampling.recurrence_sequence(n, order=d) if d == 2
                 else sampling.recurrence_sequence(n))
        x = 1.
        for _ in range(200):       # x^(d+1) = x + 1
            x = (1 + x) ** (1 / (d + 1))
        for i, t in enumerate(p):
            ctx.true('recurrence', len(t) == d and all(
                0 <= v < 1 and abs((v - i / x ** (k + 1) + .5) % 1 - .5) < 1e-5
                for k, v in enumerate(t)), f'{t}')
        ctx.true('number of points', len(p) == n)
        return
    if kind == 'golden-square':
        p = list(sampling.golden_square(n))
        ctx.true('number of points', len(p) == n)
        ctx.true('range', all(0 <= v < 1 for t in p for v in t))
        return
    want = n
    if kind.startswith('p:'):
        s = kind[2:]
        with quiet():
            import contextlib
            import io
            with contextlib.redirect_stdout(io.StringIO()):
                p = powder._get_qpts_sphere(n, sampling=s) if hasattr(
                    powder, '_get_qpts_sphere') else None
        if p is None:
            ctx.true('no such helper', True)
            return
        if s.endswith('-grid'):
            want = next(2 * k * k for k in range(1, 99) if 2 * k * k >= n)
    else:
        p = call(kind, (n,))
    p = np.array(p, dtype=float)
    ctx.true('number of points', p.shape == (want, 3), f'{p.shape} for {want}')
    ctx.true('unit vectors', bool(np.all(abs((p ** 2).sum(axis=1) - 1)
                                         < 1e-9)))
    ctx.true('different points', len({tuple(np.round(r, 9)) for r in p})
             == want)


@harness('C24', functions=FN, bounds='fewer points than a scheme allows',
         cases=[{}], traces=0)
def too_few(ctx):
    from euphonic import sampling, powder
    n = ctx.choice('n', list(range(0, 6)))
    ctx.expect_raise('improved', ValueError, lambda: list(
        sampling.spherical_polar_improved(n)))


def cart_of(ctx, q, cell):
    """fractional to Cartesian, for cell vectors as rows"""
    a = [list(r) for r in cell]
    cr = lambda u, v: [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2],
                       u[0] * v[1] - u[1] * v[0]]
    b = [cr(a[1], a[2]), cr(a[2], a[0]), cr(a[0], a[1])]
    vol = sum(x * y for x, y in zip(a[0], b[0]))
    return [sum(q[i] * b[i][k] for i in range(3)) * (2 * math.pi) / vol
            for k in range(3)]


CELLS = {'cubic': [[4., 0, 0], [0, 4., 0], [0, 0, 4.]],
         'triclinic': [[4., .3, -.7], [1.1, 3., .2], [-.5, .9, 5.]],
         'left': [[0, 4., 0], [3., 0, 0], [.4, 0, 5.]]}


def fake_fc(ctx, cell, nq, calls, n=1):
    """force constants whose phonons are symbolic"""
    from euphonic import (Crystal, ForceConstants, QpointFrequencies,
                          QpointPhononModes, ureg)
    c = Crystal(ureg.Quantity(cell, 'angstrom'), ctx.const(np.zeros((n, 3))),
                np.array(['Na', 'Cl'][:n]),
                ureg.Quantity(ctx.const(np.array([20., 35.][:n])), 'amu'))
    fc = ForceConstants(c, ureg.Quantity(ctx.const(np.zeros((1, 3 * n, 3 * n))),
                                         'hartree/bohr**2'),
                        np.eye(3, dtype=int), np.zeros((1, 3), dtype=int))

    def modes(cls):
        def f(qpts, *a, **k):
            calls.append((cls.__name__, qpts, a, dict(k)))
            f_ = ctx.reals('f' if len(qpts) == nq else 'g',
                           (len(qpts), 3 * n), 1., 20.)
            ev = []
            if cls is QpointPhononModes:
                e = np.eye(3 * n).reshape(3 * n, n, 3) * (1 + 0j)
                ev = [ctx.const(np.array([e] * len(qpts)), dtype=complex)]
            return cls(c, qpts, ureg.Quantity(f_, 'meV'), *ev)
        return f
    fc.__dict__['calculate_qpoint_frequencies'] = modes(QpointFrequencies)
    fc.__dict__['calculate_qpoint_phonon_modes'] = modes(QpointPhononModes)
    return fc


def directions(ctx, scheme, npts, draws):
    """what the scheme returns (see the harnesses above)"""
    k = next(j for j in range(1, 99) if 2 * j * j >= npts)
    kind, args = {'golden': ('golden', (npts,)),
                  'sphere-projected-grid': ('square-grid', (2 * k, k)),
                  'spherical-polar-grid': ('polar', (2 * k, k)),
                  'spherical-polar-improved': ('improved', (npts,)),
                  'random-sphere': ('random', (npts,))}[scheme]
    with symbolic_random(ctx, draws):
        kw = {'jitter': True} if draws and kind != 'random' else {}
        return call(kind, args, **kw)


POW = [dict(what=w, scheme=s, npts=n, cell=c) for w, s, n, c in (
    ('dos', 'golden', 2, 'triclinic'), ('dos', 'sphere-projected-grid', 2,
                                        'left'),
    ('pdos', 'spherical-polar-grid', 2, 'cubic'),
    ('pdos', 'golden', 3, 'triclinic'), ('sf', 'golden', 2, 'triclinic'),
    ('dos', 'random-sphere', 2, 'triclinic'), ('sf', 'random-sphere', 1,
                                               'left'),
    ('sf', 'spherical-polar-improved', 6, 'triclinic'),
    ('dos', 'spherical-polar-improved', 7, 'left'),
    ('dos', 'sphere-projected-grid', 5, 'triclinic'),
    ('sf', 'spherical-polar-grid', 2, 'triclinic'))]
POW += [dict(what=w, scheme=s, npts=2, cell='triclinic', jitter=True)
        for w, s in (('dos', 'sphere-projected-grid'),
                     ('sf', 'spherical-polar-grid'), ('pdos', 'golden'))]
POW += [dict(what=w, scheme='spherical-polar-improved', npts=6,
             cell='triclinic', jitter=True) for w in ('dos', 'sf')]
POW += [dict(what='pdos', scheme='golden', npts=2, cell='cubic', weight=w)
        for w in ('coherent', 'dict')]


@harness('C24', functions=FNP, bounds='1-8 directions by every scheme, |Q| and '
         'random numbers symbolic, three cells; the phonons returned for them '
         'are symbolic; energy bins given', cases=POW, traces=1)
def powder_average(ctx, what, scheme, npts, cell, jitter=False, weight=None):
    """phonons at the directions times |Q|; each direction weighs the same"""
    from euphonic import powder, ureg
    Q = ctx.real('Q', .2, 5.)
    calls = []
    C = ctx.const(np.array(CELLS[cell]))
    k = next(j for j in range(1, 99) if 2 * j * j >= npts)
    nq = 2 * k * k if scheme.endswith('-grid') else npts
    fc = fake_fc(ctx, C, nq, calls)
    bins = ureg.Quantity(ctx.const(np.array([0., 25.])), 'meV')
    kw = dict(sampling=scheme, npts=npts, jitter=jitter, energy_bins=bins,
              use_c=False)
    import contextlib
    import io
    with quiet(), symbolic_random(ctx) as R, \
            contextlib.redirect_stdout(io.StringIO()):
        if what == 'dos':
            r = powder.sample_sphere_dos(fc, ureg.Quantity(Q, '1/angstrom'),
                                         **kw)
        elif what == 'pdos':
            r = powder.sample_sphere_pdos(fc, ureg.Quantity(Q * 10, '1/nm'),
                                          **kw, **{
                None: {}, 'coherent': dict(weighting='coherent'),
                'dict': dict(weighting='incoherent', cross_sections={
                    'Na': ureg.Quantity(2.5, 'barn')})}[weight])
        else:
            b = {'Na': ureg.Quantity(3.63, 'fm')}
            r = powder.sample_sphere_structure_factor(
                fc, ureg.Quantity(Q, '1/angstrom'), temperature=None,
                scattering_lengths=b, **kw)
    ctx.true('one calculation', len(calls) == 1)
    name, q, a, k2 = calls[0]
    ctx.true('arguments passed on', k2.get('use_c') is False)
    ctx.true('random displacements', bool(R.drawn) == (
        jitter or scheme == 'random-sphere'))
    dirs = directions(ctx, scheme, npts, R.drawn)
    ctx.true('number of q-points', np.shape(q) == (nq, 3), f'{np.shape(q)}')
    got = [cart_of(ctx, row, CELLS[cell]) for row in q]
    ctx.eq('q-points on the sphere', got, [[x * Q for x in d] for d in dirs],
           scale_tol=1e-9)
    # all modes are inside the one energy bin, 0-25 meV
    if what == 'sf':
        # polarisation along x, y, z: sum over modes of |b Q.e|^2/(2 m w)
        f = ctx.reals('f', (nq, 3), 1., 20.)
        tot = 0
        for i in range(nq):
            for j in range(3):
                tot = tot + got[i][j] * got[i][j] / f[i, j]
        # (fm)^2 / (amu meV) hbar^2
        u = (3.63e-5) ** 2 / (2 * 20. / 1.0) * 4.1801592898
        val = r.y_data.to('angstrom**2/meV').magnitude
        ctx.eq('mean over the directions', val * 1e11,
               [tot * (u / nq / 25. * 1e11)], tol=1e-5, scale_tol=1e-6)
    else:
        val = r.y_data.to('1/meV').magnitude.ravel() if what == 'dos' else \
            np.asarray(r.y_data.magnitude).ravel()
        if what == 'dos':
            ctx.eq('states per energy', val, [3. / 25.], tol=1e-6)
        elif weight:
            # one atom: the mass ratio is 1
            from euphonic.util import get_reference_data
            xs = 2.5 if weight == 'dict' else get_reference_data(
                'BlueBook', 'coherent_cross_section')['Na'].to(
                    'barn').magnitude
            ctx.eq('weighted states per energy', r.y_data.to(
                'barn/meV').magnitude.ravel(), [3. / 25. * xs], tol=1e-6)
    ctx.eq('bins', r.x_data.to('meV').magnitude, [0., 25.])


@harness('C24', functions=FNP, bounds='2 directions; symbolic phonons',
         cases=[dict(what=w) for w in ('dos', 'pdos', 'sf')], traces=1)
def default_bins(ctx, what):
    """1000 bins from 0 to 1.05 times the largest energy"""
    from euphonic import powder, ureg
    calls = []
    fc = fake_fc(ctx, ctx.const(np.array(CELLS['cubic'])), 2, calls)
    f = ctx.reals('f', (2, 3), 1., 20.)
    # the largest energy is known to be f[1, 2]
    ctx.assume(f[1, 2] > 19.)
    for i in range(2):
        for j in range(3):
            if (i, j) != (1, 2):
                ctx.assume(f[i, j] < 18.)
    g = {'dos': powder.sample_sphere_dos, 'pdos': powder.sample_sphere_pdos,
         'sf': powder.sample_sphere_structure_factor}[what]
    kw = dict(scattering_lengths={'Na': ureg.Quantity(3.63, 'fm')},
              temperature=None) if what == 'sf' else {}
    seen = []
    from euphonic import QpointFrequencies, QpointPhononModes, StructureFactor
    pairs = [(QpointFrequencies, 'calculate_dos'),
             (QpointPhononModes, 'calculate_pdos'),
             (StructureFactor, 'calculate_1d_average')]
    saved = [(c, n, c.__dict__.get(n)) for c, n in pairs]

    class Stop(Exception):
        pass

    def spy(self, bins, *a, **k):
        seen.append(bins)
        raise Stop
    try:
        for c, n in pairs:
            setattr(c, n, spy)
        try:
            g(fc, ureg.Quantity(1., '1/angstrom'), npts=2, **kw)
        except Stop:
            pass
    finally:
        for c, n, o in saved:
            if o is None:
                delattr(c, n)
            else:
                setattr(c, n, o)
    e, = seen
    e = e.to('meV').magnitude
    ctx.true('edges', np.shape(e) == (1001,), f'{np.shape(e)}')
    for i in (0, 1, 500, 999, 1000):
        ctx.eq(f'edge {i}', e[i], f[1, 2] * (1.05 * i / 1000), tol=1e-9)


def data_file(b):
    """a data set of the user's"""
    fd, name = tempfile.mkstemp(suffix='.json')
    with os.fdopen(fd, 'w') as f:
        json.dump({'physical_property': {'coherent_scattering_length': {
            '__units__': 'fm', **{k: v.to('fm').magnitude
                                  for k, v in b.items()}}}}, f)
    return name


@harness('C24', functions=FNP, bounds='structure factors with a temperature, a '
         'Debye-Waller factor, both (agreeing or not) or none; symbolic '
         'temperatures', cases=[dict(how=h) for h in (
             'none', 'dw', 'both', 'both mK', 'conflict', 'conflict 0',
             'auto', 'auto 0', 'default', 'name')],
         traces=1)
def debye_waller_choice(ctx, how):
    """which Debye-Waller exponent is used"""
    from euphonic import powder, ureg, DebyeWaller, QpointPhononModes
    calls, used, grids = [], [], []
    fc = fake_fc(ctx, ctx.const(np.array(CELLS['cubic'])), 2, calls)
    T = ctx.real('T', 10., 500.)
    dw = DebyeWaller(fc.crystal, ureg.Quantity(ctx.reals('W', (1, 3, 3), 0., 1.),
                                               'angstrom**2'),
                     ureg.Quantity(T, 'K'))
    b = {'Na': ureg.Quantity(3.63, 'fm')}
    kw = {'none': dict(temperature=None), 'dw': dict(dw=dw, temperature=None),
          'both': dict(dw=dw, temperature=ureg.Quantity(T, 'K')),
          'both mK': dict(dw=dw, temperature=ureg.Quantity(T * 1e3, 'mK')),
          'conflict': dict(dw=dw, temperature=ureg.Quantity(
              T + ctx.real('dT', 1., 50.), 'K')),
          'conflict 0': dict(dw=dw, temperature=ureg.Quantity(0., 'K')),
          'auto 0': dict(temperature=ureg.Quantity(0., 'K'), dw_spacing=
                         ureg.Quantity(.6, '1/angstrom')),
          'name': dict(temperature=None, scattering_lengths=data_file(b) if
                       how == 'name' else b),
          'auto': dict(temperature=ureg.Quantity(T, 'K'), dw_spacing=
                       ureg.Quantity(.6, '1/angstrom')),
          'default': dict(dw_spacing=ureg.Quantity(1., '1/angstrom'))}[how]
    auto = DebyeWaller(fc.crystal, ureg.Quantity(
        ctx.reals('A', (1, 3, 3), 0., 1.), 'angstrom**2'),
        kw['temperature'] if kw.get('temperature') is not None else
        ureg.Quantity(273., 'K'))

    class Stop(Exception):
        pass

    def sf(self, scattering_lengths='', dw=None):
        used.append((self, scattering_lengths, dw))
        raise Stop

    def cdw(self, temperature, *a, **k):
        grids.append((self.qpts, temperature, a, k))
        return auto
    sv = (QpointPhononModes.calculate_structure_factor,
          QpointPhononModes.calculate_debye_waller)
    def run():
        QpointPhononModes.calculate_structure_factor = sf
        QpointPhononModes.calculate_debye_waller = cdw
        try:
            powder.sample_sphere_structure_factor(
                fc, ureg.Quantity(1., '1/angstrom'), npts=2,
                asr='realspace', **{'scattering_lengths': b, **kw},
                energy_bins=ureg.Quantity(
                    ctx.const(np.array([0., 9.])), 'meV'))
        except Stop:
            pass
        finally:
            (QpointPhononModes.calculate_structure_factor,
             QpointPhononModes.calculate_debye_waller) = sv
    with quiet():
        if how.startswith('conflict'):
            ctx.expect_raise('temperatures differ', ValueError, run)
            ctx.true('nothing is calculated', not used)
            return
        run()
    (ph, sl, d), = used
    if how == 'name':
        if isinstance(sl, str):
            from euphonic.util import get_reference_data
            sl = get_reference_data(sl, 'coherent_scattering_length')
        os.remove(kw['scattering_lengths'])
        ctx.true('data set', {k: complex(v.to('fm').magnitude) for k, v in
                              sl.items()} == {k: complex(v.to('fm').magnitude)
                                              for k, v in b.items()})
    else:
        ctx.true('scattering lengths', sl == b)
    ctx.true('arguments passed on', all(c[3].get('asr') == 'realspace'
                                        for c in calls))
    want = {'none': None, 'dw': dw, 'both': dw, 'both mK': dw, 'auto': auto,
            'default': auto, 'auto 0': auto, 'name': None}[how]
    ctx.true('Debye-Waller exponent', d is want)
    if how in ('auto', 'auto 0', 'default'):
        (q, t, a, k), = grids
        ctx.eq('temperature', t.to('K').magnitude, {'auto': T, 'auto 0': 0.,
                                                      'default': 273.}[how],
               tol=1e-9)
        # reciprocal length 2 pi / 4 = 1.57
        n = 2 if how == 'default' else 3
        ctx.true('grid for the exponent', np.shape(q) == (n ** 3, 3))
        ctx.true('phonons on the grid and on the sphere',
                 [len(c[1]) for c in calls] == [n ** 3, 2])
    else:
        ctx.true('no grid', not grids and len(calls) == 1)
