"""C17: reorder_frequencies"""
import itertools
import math
import numpy as np
from vf.harness import harness
from .common import *

FN = ['QpointPhononModes.reorder_frequencies', 'util.direction_changed',
      'util.is_gamma', 'QpointPhononModes.__init__']

# orthonormal complex vectors, one per row
E3 = np.array([[.6, .8j, 0], [.8j, .6, 0], [0, 0, 1]])
PHASES = [1, 1j, -1, .6 + .8j, .8 - .6j, -1j, 1, -.6 + .8j, 1j]
TURN = {'straight': [[0., 0., 0.], [.1, 0., 0.], [.3, 0., 0.]],
        'turn': [[.2, .1, 0.], [.3, .1, 0.], [.3, .2, 0.]],
        'gamma_mid': [[-.1, 0., 0.], [0., 0., 0.], [.1, 0., 0.]],
        'gamma_first': [[1., 0., 2.], [1.1, 0., 2.], [1.2, 0., 2.]],
        'gamma_last': [[.8, 0., 0.], [.9, 0., 0.], [1., 0., 0.]]}


def build(ctx, qpts, coefs, n_atoms=1):
    """eigenvectors at q i = coefs[i] (modes by modes of q i-1) x phases x the
    eigenvectors of q i-1, so that the modulus of their overlap with mode b
    of the previous point is coefs[i][a][b] exactly (coefs >= 0)"""
    from euphonic import Crystal, QpointPhononModes, ureg
    n = 3 * n_atoms
    base = np.eye(n, dtype=complex)
    base[:3, :3] = E3
    nq = len(qpts)
    ev = [[[base[b, c] for c in range(n)] for b in range(n)]]
    for i in range(1, nq):
        cur = []
        if all(isinstance(x, float) for r in coefs[i] for x in r):
            ph = np.array([[PHASES[(a * n + b) % 9] for b in range(n)]
                           for a in range(n)])
            cur = (np.array(coefs[i]) * ph @ base).tolist()
        for a in range(n) if not cur else ():
            row = []
            for c in range(n):
                row.append(sum(coefs[i][a][b] * PHASES[(a * n + b) % 9]
                               * base[b, c] for b in range(n)))
            cur.append(row)
        ev.append(cur)
        if i < nq - 1:
            # the next point's overlaps refer to this point's own vectors,
            # which have to be orthonormal: only permutations here
            nb = np.zeros((n, n), dtype=complex)
            for a in range(n):
                b = int(np.argmax([float(x) for x in coefs[i][a]]))
                nb[a] = PHASES[(a * n + b) % 9] * base[b]
            base = nb
    # not in ascending order
    fr = [[100. * (i + 1) + (b * 2 + 1) % n for b in range(n)]
          for i in range(nq)]
    if n % 2 == 0:
        fr = [[100. * (i + 1) + b for b in range(n)] for i in range(nq)]
    cell = np.diag([3., 4., 5.])
    crystal = Crystal(ctx.const(cell) * ureg('angstrom'),
                      ctx.const(np.arange(3 * n_atoms).reshape(n_atoms, 3)
                                * .1),
                      np.array(['Si'] * n_atoms),
                      ctx.const([28.] * n_atoms) * ureg('amu'))
    q = ctx.arr([[x for x in p] for p in qpts])
    e = ctx.arr([[[[ev[i][b][3 * j + a] for a in range(3)]
                   for j in range(n_atoms)] for b in range(n)]
                 for i in range(nq)])
    m = QpointPhononModes(crystal, q, ctx.const(fr) * ureg('meV'), e)
    return m, fr, ev


def result(ctx, m, fr, ev, n_atoms=1):
    """permutation applied at each q-point; checks that eigenvectors follow"""
    from euphonic import ureg
    with quiet():
        out = m.frequencies.to("meV").magnitude
    n = 3 * n_atoms
    perms = []
    for i in range(len(fr)):
        row = [float(x) for x in np.asarray(out[i]).ravel()]
        p = [int(np.argmin([abs(x - y) for y in fr[i]])) for x in row]
        ctx.true(f'q{i} frequencies only permuted', sorted(p) == list(range(n))
                 and all(abs(row[k] - fr[i][p[k]]) < 1e-6
                         for k in range(n)), f'{row}')
        perms.append(p)
    for i in range(len(fr)):
        if sorted(perms[i]) != list(range(n)):
            continue
        got = m.eigenvectors[i]
        ctx.eq(f'q{i} eigenvectors follow', [
            [got[k, j, a] for j in range(n_atoms) for a in range(3)]
            for k in range(n)], [ev[i][perms[i][k]] for k in range(n)])
    return perms


def matched(ctx, label, c, prev, cur):
    """c[a][b] overlap of mode a here with mode b before. prev[k], cur[k]: the
    mode in branch k before and here."""
    n = len(c)
    got = {p: k for p, k in zip(prev, cur)}     # prev mode -> mode here
    # the greatest of all overlaps is always kept
    for a in range(n):
        for b in range(n):
            if got[b] == a:
                continue
            conds = [c[a][b] > c[x][y] + 1e-9 for x in range(n) for y in range(n)
                     if (x, y) != (a, b)]
            ctx.true(f'{label}: greatest overlap ({a},{b}) connected',
                     neg(conj(conds)))
    # where every mode has one clear partner, that assignment is found
    for p in itertools.permutations(range(n)):
        if all(got[b] == p[b] for b in range(n)):
            continue
        conds = []
        for b in range(n):
            a = p[b]
            conds += [c[a][b] > c[x][b] + 1e-9 for x in range(n) if x != a]
            conds += [c[a][b] > c[a][y] + 1e-9 for y in range(n) if y != b]
        ctx.true(f'{label}: clear partners {p}', neg(conj(conds)))


def conj(cs):
    r = True
    for c in cs:
        if isinstance(c, (bool, np.bool_)):
            if not c:
                return False
            continue
        r = c if r is True else (r & c)
    return r


def neg(c):
    return (not c) if isinstance(c, (bool, np.bool_)) else ~c


PERMS = {'id': [0, 1, 2], 'cyc': [1, 2, 0], 'swap': [0, 2, 1]}


def pmat(p):
    c = [[0.] * len(p) for _ in p]
    for b, a in enumerate(p):
        c[a][b] = 1.
    return c


def overlaps(ctx, n, zero=()):
    return [[0. if (a, b) in zero else ctx.real(f'c{a}{b}', 0.05, 1.)
             for b in range(n)] for a in range(n)]


@harness('C17', functions=FN, opts={'abs_mode': 'fork'},
         bounds='three modes, two or three q-points on a straight, a turning '
         'and gamma-crossing paths, every 3x3 matrix of overlap moduli in '
         '[0.05,1] (with some exactly 0) with complex phases',
         cases=[dict(path='straight', first=None, zero=()),
                dict(path='straight', first='cyc', zero=()),
                dict(path='straight', first='swap', zero=()),
                dict(path='turn', first='cyc', zero=()),
                dict(path='straight', first=None,
                     zero=((0, 0), (0, 1), (1, 0), (1, 1))),
                dict(path='straight', first=None, zero=((2, 2), (1, 2))),
                dict(path='gamma_mid', first='cyc', zero=()),
                dict(path='gamma_last', first='swap', zero=())])
def permutation(ctx, path, first, zero):
    qp = TURN[path]
    c = overlaps(ctx, 3, {tuple(z) for z in zero})
    if first is None:
        m, fr, ev = build(ctx, qp[:2], [None, c])
    else:
        m, fr, ev = build(ctx, qp, [None, pmat(PERMS[first]), c])
    with quiet():
        m.reorder_frequencies()
    ps = result(ctx, m, fr, ev)
    ctx.true('first q-point unchanged', ps[0] == [0, 1, 2], f'{ps[0]}')
    if any(sorted(p) != [0, 1, 2] for p in ps):
        return
    if first is None:
        matched(ctx, 'q1', c, ps[0], ps[1])
        return
    ctx.true('q1 follows q0', ps[1] == PERMS[first], f'{ps[1]}')
    if path == 'turn':
        ctx.true('order carried where the direction changes', ps[2] == ps[1])
    else:
        matched(ctx, 'q2', c, ps[1], ps[2])


@harness('C17', functions=FN, opts={'abs_mode': 'fork'},
         bounds='three modes; two or four q-points with gamma-equivalent '
         'points first, inside or last and reorder_gamma=False; every 3x3 '
         'matrix of overlap moduli in [0.05,1] at the point under test',
         cases=[dict(gam=0, at=1), dict(gam=1, at=1), dict(gam=1, at=2),
                dict(gam=1, at=3), dict(gam=3, at=3), dict(gam=3, at=2),
                dict(gam=0, at=2), dict(gam=2, at=1), dict(gam=None, at=2)])
def gamma_fixed(ctx, gam, at):
    """reorder_gamma=False leaves the order alone at gamma-equivalent points
    and at the point after them, and reorders everywhere else"""
    nq = at + 1
    g0 = 0 if gam is None else gam
    qp = [[1. + .125 * (i - g0) + (.06 if gam is None else 0), -2., 0.]
          for i in range(max(nq, g0 + 1))]
    c = overlaps(ctx, 3)
    ps = [PERMS['swap'], PERMS['cyc'], PERMS['swap']]
    co = [None] + [pmat(ps[i % 3]) for i in range(1, len(qp))]
    co[at] = c
    fixed = set() if gam is None else {gam, gam + 1}
    if at + 1 < len(qp):
        qp, co = qp[:at + 1], co[:at + 1]
    if gam is not None and gam > at:
        fixed = set()
    m, fr, ev = build(ctx, qp, co)
    with quiet():
        m.reorder_frequencies(reorder_gamma=False)
    r = result(ctx, m, fr, ev)
    if any(sorted(p) != [0, 1, 2] for p in r):
        return
    for i in range(1, len(qp)):
        if i in fixed:
            ctx.true(f'q{i} order carried next to gamma', r[i] == r[i - 1],
                     f'{r}')
        elif i == at:
            matched(ctx, f'q{i}', c, r[i - 1], r[i])
        else:
            p = ps[i % 3]
            ctx.true(f'q{i} reordered', r[i] == [p[b] for b in r[i - 1]],
                     f'{r}')


@harness('C17', functions=FN, opts={'abs_mode': 'fork'},
         bounds='three q-points with every step length in [0.05,2] along one '
         'axis (forward or back) or after a right-angle turn; fixed '
         'eigenvectors',
         cases=[dict(kind='straight'), dict(kind='back'), dict(kind='turn'),
                dict(kind='oblique')])
def direction(ctx, kind):
    t1 = ctx.real('t1', .05, 2.)
    t2 = ctx.real('t2', .05, 2.)
    q1 = [.3 + t1, -.2, .1]
    q2 = {'straight': [q1[0] + t2, -.2, .1], 'back': [q1[0] - t2, -.2, .1],
          'turn': [q1[0], -.2 + t2, .1],
          'oblique': [q1[0] + t2, -.2, .1 - t2]}[kind]
    co = [None, pmat(PERMS['cyc']), pmat(PERMS['swap'])]
    m, fr, ev = build(ctx, [[.3, -.2, .1], q1, q2], co)
    with quiet():
        m.reorder_frequencies()
    r = result(ctx, m, fr, ev)
    ctx.true('q1 follows q0', r[1] == PERMS['cyc'], f'{r}')
    p = PERMS['swap']
    if kind in ('straight', 'back'):
        ctx.true('reordered along the line', r[2] == [p[b] for b in r[1]],
                 f'{r}')
    else:
        ctx.true('carried round the corner', r[2] == r[1], f'{r}')


# an orthogonal 4x4 overlap matrix whose greatest elements are on the diagonal
# and whose last diagonal element vanishes
def _o4():
    o = np.eye(6)
    o[:3, :3] = np.eye(3) - 1 / 3
    o[:3, 3] = 1 / math.sqrt(3)
    o[3, :3] = 1 / math.sqrt(3)
    o[3, 3] = 0.
    return o


@harness('C17', functions=FN, opts={'abs_mode': 'fork'},
         bounds='two atoms, six orthonormal modes of which four mix, every '
         'order of those modes at the second q-point (24)',
         cases=[dict(p=list(p)) for p in
                list(itertools.permutations(range(4)))[::5]],
         thorough_cases=[dict(p=list(p)) for p in
                         itertools.permutations(range(4))])
def vanishing(ctx, p):
    """an exactly vanishing overlap left over must not lose or repeat a mode"""
    s = ctx.real('s', .2, 1.)
    o = _o4()
    rows = list(p) + [4, 5]
    c = [[float(o[a, b]) for b in range(6)] for a in rows]
    c[4][4] = s
    m, fr, ev = build(ctx, TURN['straight'][:2], [None, c], 2)
    with quiet():
        m.reorder_frequencies()
    result(ctx, m, fr, ev, 2)


@harness('C17', functions=FN, opts={'abs_mode': 'fork'},
         bounds='four atoms, 12 modes permuted at random along straight paths '
         'of 4, 40 and 130 q-points (one with a turn, one beginning at gamma); '
         'every overlap of two modes in [0.05,0.95] at the last q-point',
         cases=[dict(nq=4, kind='straight'), dict(nq=40, kind='turn'),
                dict(nq=130, kind='gamma')],
         traces=1)
def many(ctx, nq, kind):
    n = 12
    rng = np.random.default_rng(nq)
    t0 = 0. if kind == 'gamma' else .013
    qp = [[t0 + .0071 * i, 0., 0.] for i in range(nq)]
    turn = None
    if kind == 'turn':
        turn = nq // 2           # the path bends at this point
        for i in range(turn + 1, nq):
            qp[i] = [qp[turn][0], .0071 * (i - turn), 0.]
    ps = [None] + [[int(x) for x in rng.permutation(n)] for _ in range(nq - 1)]
    co = [None] + [pmat(p) for p in ps[1:]]
    a, b = ps[-1][2], ps[-1][7]      # partners of modes 2 and 7 before
    for x in (a, b):
        for y in (2, 7):
            co[-1][x][y] = ctx.real(f'c{x}_{y}', .05, .95)
    c = co[-1]
    m, fr, ev = build(ctx, qp, co, 4)
    with quiet():
        m.reorder_frequencies()
    r = result(ctx, m, fr, ev, 4)
    ctx.true('first q-point unchanged', r[0] == list(range(n)))
    if any(sorted(p) != list(range(n)) for p in r):
        return
    for i in range(1, nq - 1):
        # the bend at point i - 1 is not crossed
        w = r[i - 1] if turn is not None and i - 1 == turn else \
            [ps[i][k] for k in r[i - 1]]
        ctx.true(f'q{i} follows', r[i] == w, f'{r[i]} for {w}')
    got = dict(zip(r[-2], r[-1]))
    for k in range(n):
        if k not in (2, 7):
            ctx.true(f'mode {k} at the end', got[k] == ps[-1][k])
    ctx.true('modes 2 and 7', {got[2], got[7]} == {a, b}, f'{got}')
    straight = got[2] == a
    # connected so that the greatest of the four overlaps is kept
    four = {(x, y): c[x][y] for x in (a, b) for y in (2, 7)}
    keep = [(a, 2), (b, 7)] if straight else [(a, 7), (b, 2)]
    for k, v in four.items():
        if k not in keep:
            ctx.true('greatest overlap connected', neg(conj(
                [v > w + 1e-6 for j, w in four.items() if j != k])))
