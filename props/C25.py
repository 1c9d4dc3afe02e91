"""C25: q-point paths: abscissa, zone centres, turns and labels"""
import itertools
import math
import numpy as np
from vf.harness import harness
from .common import *

FN = ['util._calc_abscissa', 'util.direction_changed', 'util.is_gamma',
      'util.get_qpoint_labels', 'util._recip_space_labels',
      'util._get_qpt_label', 'util._generic_qpt_labels',
      'QpointFrequencies.get_dispersion',
      'QpointFrequencies._get_qpt_axis_and_labels']

PATHS = {'pn': 'p n', 'nn': 'n n', 'a': 'a', 'pa': 'p a', 'pp': 'p p', 'pGp': 'p G p', 'pzp': 'p z p', 'pJ': 'p J',
         'tp': 't p', 'gp': 'g p', 'n': '', 'Gz': 'G z', 'JpG': 'J p G',
         'ppp': 'p p p', 'tGt': 't G t'}


def step(ctx, kind, i):
    """(difference of two q-points, whether they are the same point)"""
    if kind == 'a':        # any direction
        return [ctx.real(f'd{i}{c}', -.4, .4) for c in range(3)], False
    if kind == 'p':        # one octant per step
        sg = ((1, -1, 1), (-1, -1, 1), (1, 1, -1))[i % 3]
        return [ctx.real(f'd{i}{c}', 0., .4) * sg[c] for c in range(3)], False
    if kind == 't':        # a very short step
        return [ctx.real(f'd{i}{c}', -1e-4, 1e-4) for c in range(3)], False
    if kind == 'z':
        return [0., 0., 0.], True
    if kind == 'n':        # not quite the same point in another cell
        G = ctx.choice(f'G{i}', [(1, 0, 0), (0, -1, 2)])
        return [g + ctx.real(f'd{i}{c}', .0005, .004)
                for c, g in enumerate(G)], False
    if kind == 'J':        # to somewhere else in another cell
        return [ctx.real(f'd{i}0', .6, .9), ctx.real(f'd{i}1', -1.9, -1.6),
                ctx.real(f'd{i}2', -.4, .4)], False
    G = ctx.choice(f'G{i}', [(1, 0, 0), (0, -1, 0), (1, 1, -2), (-1, 0, 3)])
    if kind == 'G':
        return [float(g) for g in G], True
    # the same up to rounding
    return [g + ctx.real(f'd{i}{c}', -1e-4, 1e-4)
            for c, g in enumerate(G)], True


@harness('C25', functions=FN, bounds='paths of 1-4 q-points with any steps: '
         'components up to 0.4, very short (1e-4), none, reciprocal lattice '
         'vectors (exactly, up to 1e-4, or to 0.0005-0.004 per coordinate), or to '
         'another cell; any start; '
         'triclinic cell in angstrom, bohr or nm; frequencies symbolic',
         cases=[dict(path=p, unit=u, via=v) for p, u, v in (
             ('a', 'angstrom', 'dispersion'), ('pa', 'angstrom', 'dispersion'),
             ('pp', 'angstrom', 'dispersion'), ('pGp', 'angstrom', 'dispersion'),
             ('pzp', 'bohr', 'dispersion'), ('pJ', 'nm', 'dispersion'),
             ('tp', 'angstrom', 'dispersion'), ('gp', 'angstrom', 'dispersion'),
             ('n', 'angstrom', 'dispersion'), ('pn', 'bohr', 'dispersion'),
             ('nn', 'angstrom', 'dos'), ('Gz', 'bohr', 'dispersion'),
             ('JpG', 'angstrom', 'dispersion'), ('ppp', 'angstrom', 'dispersion'),
             ('tGt', 'nm', 'dispersion'), ('pGp', 'angstrom', 'dos'),
             ('pp', 'bohr', 'dos'), ('pJ', 'angstrom', 'sqw'),
             ('pGp', 'bohr', 'sqw'))], traces=2)
def abscissa(ctx, path, unit, via):
    """Cartesian length of the path, without steps between equivalent points"""
    from euphonic import QpointFrequencies, QpointPhononModes, ureg
    import euphonic.qpoint_frequencies as qf
    cr = crystal(ctx, 'tri1')
    cr.cell_vectors_unit = unit
    q = [[ctx.real(f'q{c}', -1., 1.) for c in range(3)]]
    want = [0.]
    a = np.array(GEOM['tri1']['cell'])
    b = 2 * math.pi * np.linalg.inv(a).T         # rows, 1/angstrom
    for i, k in enumerate(PATHS[path].split()):
        d, same = step(ctx, k, i)
        q.append([x + y for x, y in zip(q[-1], d)])
        l = 0.
        if not same:
            v = [sum(d[j] * b[j, c] for j in range(3)) for c in range(3)]
            l = np.sqrt(ctx.arr([v[0] * v[0] + v[1] * v[1] + v[2] * v[2]]))[0]
        want.append(want[-1] + l)
    n = len(q)
    f = ctx.reals('f', (n, 3), 1., 20.)
    seen = []
    mark = [(0, 'start'), (n - 1, 'end')]

    def labels(qpts, cell=None):
        seen.append((qpts, cell))
        return mark
    saved = getattr(qf, 'get_qpoint_labels', None)
    if saved is not None:
        qf.get_qpoint_labels = labels
    try:
        if via == 'sqw':
            ph = QpointPhononModes(cr, ctx.arr(q), ureg.Quantity(f, 'meV'),
                                   ctx.const(np.ones((n, 3, 1, 3)),
                                             dtype=complex))
            sf = ph.calculate_structure_factor({'Na': ureg.Quantity(3.63, 'fm')})
            s = sf.calculate_sqw_map(ureg.Quantity(
                ctx.const(np.array([0., 25.])), 'meV'))
        else:
            ph = QpointFrequencies(cr, ctx.arr(q), ureg.Quantity(f, 'meV'))
            s = ph.get_dispersion() if via == 'dispersion' else \
                ph.calculate_dos_map(ureg.Quantity(
                    ctx.const(np.array([0., 25.])), 'meV'))
    finally:
        if saved is not None:
            qf.get_qpoint_labels = saved
    x = s.x_data
    ctx.true('unit', x.units == ureg(f'1/{unit}').units)
    x = x.to('1/angstrom').magnitude
    ctx.true('one per q-point', np.shape(x) == (n,), f'{np.shape(x)}')
    ctx.eq('abscissa', x, want, tol=1e-6, scale_tol=1e-9)
    if via == 'dispersion':
        ctx.eq('bands', s.y_data.to('meV').magnitude, [
            [f[i, j] for i in range(n)] for j in range(3)])
    if seen:
        ctx.eq('labelled points', seen[0][0], q)
        ctx.true('labels', [tuple(t) for t in s.x_tick_labels] == mark)
        ctx.eq('cell', ctx.const(np.array(seen[0][1][0], dtype=float)),
               cr.cell_vectors.magnitude)


DIRS = [((3., 4., 0.), 5.), ((0., 0., 1.), 1.), ((1., 2., 2.), 3.),
        ((-2., 1., 2.), 3.), ((2., 3., 6.), 7.), ((0., 4., -3.), 5.)]


@harness('C25', functions=FN, bounds='3-4 q-points from any start with steps of '
         'any length up to 0.1 in directions with rational angles (between '
         'two), or three arbitrary points; tolerance default or given',
         cases=[dict(pair=list(p), n=n, tol=t) for p, n, t in (
             ((0, 1), 3, None), ((2, 3), 3, None), ((4, 2), 3, 1e-4),
             ((0, 0), 3, None), ((5, 0), 4, None), ((1, 4), 4, 1e-3))],
         traces=2)
def turns(ctx, pair, n, tol):
    """the direction changed: a.b and |a||b| differ by more than tol"""
    from euphonic.util import direction_changed
    q = [[ctx.real(f'q{c}', -1., 1.) for c in range(3)]]
    s, d = [], []
    for i in range(n - 1):
        u, l = DIRS[pair[i % 2]]
        t = ctx.real(f's{i}', 0., .1)
        sg = ctx.choice(f'sign{i}', [1, -1]) if i == 1 else 1
        d.append([t * sg * x for x in u])
        s.append(t * l)
        q.append([x + y for x, y in zip(q[-1], d[-1])])
    r = direction_changed(ctx.arr(q), *([] if tol is None else [tol]))
    ctx.true('one per inner point', np.shape(r) == (n - 2,), f'{np.shape(r)}')
    tol = 5e-6 if tol is None else tol
    for i in range(n - 2):
        dot = sum(a * b for a, b in zip(d[i], d[i + 1]))
        if i == 0 and bool(dot < 0):
            dot = -dot
        elif i and bool(dot < 0):
            dot = -dot
        gap = s[i] * s[i + 1] - dot
        if bool(r[i]):
            ctx.true('changed', gap >= tol * (1 - 1e-9))
        else:
            ctx.true('not changed', gap <= tol * (1 + 1e-9))
        if pair[0] == pair[1]:
            ctx.true('straight on', not bool(r[i]))


@harness('C25', functions=FN, bounds='every point with integer coordinates '
         'up to 5, or with one coordinate at least 1e-9 from an integer; one '
         'point or three', cases=[dict(n=n) for n in (1, 3)], traces=2)
def zone_centre(ctx, n):
    from euphonic.util import is_gamma
    pts, want = [], []
    for i in range(n):
        k = [float(ctx.choice(f'k{i}{c}', [-3, 0, 5])) if i == 0 and n == 1 else
             (1., -4., 0.)[c] for c in range(3)]
        w = True
        if ctx.choice(f'off{i}', [False, True]):
            c = ctx.choice(f'c{i}', [0, 1, 2])
            k[c] = k[c] + ctx.real(f'x{i}', 1e-9, 1 - 1e-9)
            w = False
        pts.append(k)
        want.append(w)
    if n == 1:
        r = is_gamma(ctx.arr(pts[0]))
        ctx.true('scalar', np.shape(r) == ())
        r = [r]
    else:
        r = is_gamma(ctx.arr(pts))
        ctx.true('one per point', np.shape(r) == (n,))
    for a, w in zip(r, want):
        ctx.true('zone centre', bool(a) == w, f'{a} for {w}')


# -- labels ------------------------------------------------------------------
A_, B_, C_ = 3., 4., 5.5
CELLS = {'cF': [[0, 2., 2.], [2., 0, 2.], [2., 2., 0]],
         'oI': [[-A_ / 2, B_ / 2, C_ / 2], [A_ / 2, -B_ / 2, C_ / 2],
                [A_ / 2, B_ / 2, -C_ / 2]],
         'hP': [[3., 0, 0], [-1.5, 1.5 * 3 ** .5, 0], [0, 0, 5.]],
         'cI': [[-2., 2, 2], [2., -2, 2], [2, 2, -2]],
         'tP': [[3., 0, 0], [0, 3., 0], [0, 0, 5.]]}
TXT = {0.: '0', .25: '1/4', .75: '3/4', .5: '1/2', 1 / 3: '1/3', 2 / 3: '2/3',
       .375: '3/8', .625: '5/8'}


def names(cell, p):
    """names of point p (any that mean the same point up to G)"""
    if cell is None:
        return {' '.join(TXT[x % 1] for x in p)}
    import seekpath
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        pc = seekpath.get_path((CELLS[cell], [[0, 0, 0]], [0]))['point_coords']
    return {r'$\Gamma$' if k == 'GAMMA' else k for k, v in pc.items()
            if any(np.allclose((np.array(v) - np.roll(p, r) + .5) % 1, .5,
                               rtol=0, atol=1e-9) for r in range(3))}


def special(cell):
    if cell is None:
        return [(0., 0., 0.), (.25, .5, .25), (.5, 0., .75), (1 / 3, 2 / 3, .5),
                (.375, .625, 0.)]
    import seekpath
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        pc = seekpath.get_path((CELLS[cell], [[0, 0, 0]], [0]))['point_coords']
    return [tuple(v) for v in pc.values()]


def ask(ctx, qpts, cell):
    from euphonic.util import get_qpoint_labels
    kw = {} if cell is None else {'cell': (CELLS[cell], [[0., 0., 0.]], [0])}
    with quiet():
        return [(i, str(l)) for i, l in get_qpoint_labels(ctx.arr(qpts), **kw)]


@harness('C25', functions=FN, bounds='every special point of five lattices, and '
         'generic names for no lattice; with any of four reciprocal lattice '
         'vectors added, coordinates permuted cyclically, and rounding errors up to '
         '1e-7 in every coordinate',
         cases=[dict(cell=c, part=i) for c in [None] + list(CELLS)
                for i in range(5 if c is None else len(special(c)))],
         traces=1, opts={'max_paths': 400})
def point_names(ctx, cell, part):
    """special points get their name in every cell"""
    p = special(cell)[part]
    p = tuple(np.roll(p, ctx.choice('roll', [0, 1, 2])))
    G = ctx.choice('G', [(0, 0, 0), (1, 0, -1), (-2, 1, 0), (0, 0, 1)])
    q = [p[c] + G[c] + ctx.real(f'e{c}', -1e-7, 1e-7) for c in range(3)]
    far = [p[0] + .1103, p[1] - .0707, p[2] + .0319]
    r = ask(ctx, [q, far], cell)
    ctx.true('both ends', [i for i, _ in r] == [0, 1], f'{r}')
    want = names(cell, p)
    ctx.true('name', r[0][1] in want, f'{r[0][1]} for {want}')
    ctx.true('no name for another point', r[1][1] == '', f'{r[1][1]}')


# what happens along the path, and which of its points have labels
WALKS = {
    # straight: G -> X in three steps, turn, on to another special point
    'turn': [('S', 0), ('b', 0, 1), ('S', 1), ('b', 1, 2), ('S', 2)],
    'straight': [('S', 0), ('b', 0, 1), ('S', 1)],
    'gamma inside': [('S', 1), ('b', 1, 0), ('S', 0), ('m', 0, 1), ('S', 1, -1)],
    'repeat': [('S', 1), ('b', 1, 0), ('S', 0), ('S', 0), ('b', 0, 2),
               ('S', 2)],
    'repeat other': [('S', 0), ('b', 0, 2), ('S', 2), ('S', 2), ('b', 2, 1),
                     ('S', 1)],
    'two': [('S', 0), ('S', 2)], 'one': [('S', 1)],
}


@harness('C25', functions=FN, bounds='seven walks between special points of '
         'four lattices, inner points anywhere along the way (symbolic)',
         cases=[dict(cell=c, walk=w) for c in (None, 'cF', 'hP', 'tP')
                for w in WALKS], traces=1)
def walks(ctx, cell, walk):
    """labels at the ends, turns, zone centres and repeated points only"""
    sp = special(cell)
    S = [np.array(sp[0])]
    ok = [np.array(p) for p in sp[1:]]
    # two more that are not collinear with each other
    for p, q in itertools.combinations(ok, 2):
        if np.linalg.norm(np.cross(p, q)) > .05:
            S += [p, q]
            break
    q, want = [], []
    w = WALKS[walk]
    for i, t in enumerate(w):
        if t[0] == 'S':
            q.append([float(x) * (t[2] if len(t) > 2 else 1)
                      for x in S[t[1]]])
            end = i in (0, len(w) - 1)
            gam = t[1] == 0
            nxt = i + 1 < len(w) and w[i + 1] == t
            prev = i > 0 and w[i - 1] == t
            corner = not end and not nxt and not prev and \
                walk == 'turn'
            if end or gam or nxt or corner:
                want.append((i, names(cell, np.array(q[-1]))))
        else:
            a, b = S[t[1]], S[t[2]]
            if t[0] == 'm':
                b = -b
            u = ctx.real(f't{i}', .15, .85)
            q.append([float(a[c]) + float(b[c] - a[c]) * u for c in range(3)])
    r = ask(ctx, q, cell)
    ctx.true('labelled points', [i for i, _ in r] == [i for i, _ in want],
             f'{r} for {want}')
    for (i, l), (j, ns) in zip(r, want):
        ctx.true('label', l in ns, f'{l} for {ns}')


@harness('C25', functions=FN, bounds='two or three arbitrary points none of '
         'which is special (symbolic in a box)', cases=[dict(n=2), dict(n=3)],
         traces=1)
def coordinates_as_labels(ctx, n):
    """without any name, labels are the rounded coordinates"""
    q = [[.1 + .2 * i + ctx.real(f'q{i}{c}', .001, .0045) + .01 * c
          for c in range(3)] for i in range(n)]
    if n == 3:
        q[2][1] = q[2][1] + .3
    r = ask(ctx, q, None)
    ctx.true('points', [i for i, _ in r] == list(range(n)), f'{r}')
    for i, l in r:
        v = [float(x) for x in l.strip('[] ').split()]
        ctx.true('rounded coordinates', len(v) == 3)
        for c in range(3):
            ctx.true('coordinate', (q[i][c] - v[c] <= .0051)
                     & (q[i][c] - v[c] >= -.0051))


@harness('C25', functions=FN, bounds='paths of 130 and 400 q-points with turns, '
         'repeated points and jumps between equivalent points; three of the '
         'q-points up to 0.05 beside the path (symbolic)',
         cases=[dict(n=130, cell=None), dict(n=400, cell=None),
                dict(n=130, cell='tP')], traces=1)
def long_path(ctx, n, cell):
    """abscissa and labelled points far along a path"""
    from euphonic import QpointFrequencies, ureg
    rng = np.random.default_rng(n)
    a = np.array(GEOM['tri1']['cell'])
    b = 2 * math.pi * np.linalg.inv(a).T
    third = n // 3
    d = np.zeros((n - 1, 3))
    d[:third, 0] = .5 / third                     # G to (1/2, 0, 0)
    d[third:2 * third, 1] = .5 / third            # on to (1/2, 1/2, 0)
    left = n - 1 - 2 * third - 2
    d[2 * third] = 0.                             # twice
    d[2 * third + 1] = [0., 0., 1.]               # and in the next cell
    d[2 * third + 2:, 2] = .5 / left              # to (1/2, 1/2, 3/2)
    q = [[0., 0., 0.]]
    for v in d:
        q.append([x + float(y) for x, y in zip(q[-1], v)])
    if cell is None:
        for i in (third // 2, third + 7, n - 9):
            q[i][2 if i != n - 9 else 0] += ctx.real(f'q{i}', .001, .05)
    else:
        # only along the line, so that it is no turn
        q[n - 9][2] = q[n - 9][2] + ctx.real('u', 0., .2 / left)
    want = [0.]
    for i in range(n - 1):
        s = [q[i + 1][c] - q[i][c] for c in range(3)]
        l = 0.
        if i not in (2 * third, 2 * third + 1):
            v = [sum(s[j] * float(b[j, c]) for j in range(3)) for c in range(3)]
            l = root(sum(x * x for x in v))
        want.append(want[-1] + l)
    if cell is None:
        # the abscissa at every point
        cr = crystal(ctx, 'tri1')
        f = ctx.const(rng.uniform(1., 20., (n, 3)))
        ph = QpointFrequencies(cr, ctx.arr(q), ureg.Quantity(f, 'meV'))
        import euphonic.qpoint_frequencies as qf
        saved = getattr(qf, 'get_qpoint_labels', None)
        if saved is not None:
            qf.get_qpoint_labels = lambda *a, **k: [(0, 'x')]
        try:
            s = ph.get_dispersion()
        finally:
            if saved is not None:
                qf.get_qpoint_labels = saved
        x = s.x_data.to('1/angstrom').magnitude
        ctx.true('one per q-point', np.shape(x) == (n,), f'{np.shape(x)}')
        ctx.eq('abscissa', x, want, tol=1e-6, scale_tol=1e-9)
        return
    r = ask(ctx, q, cell)
    at = [0, third, 2 * third, 2 * third + 1, 2 * third + 2, n - 1]
    got = [i for i, _ in r]
    # ends, turn and repeated point for certain; the jump to the next cell
    # counts as a piece of the path in its own right
    for i in (0, third, 2 * third, n - 1):
        ctx.true(f'{i} labelled', i in got, f'{got}')
    ctx.true('no others labelled', set(got) <= set(at), f'{got}')
    for i, l in r:
        if i == third:
            ctx.true('name', l in names(cell, np.array([.5, 0., 0.])), l)
