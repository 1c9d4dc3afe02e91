"""C11: re-indexing of force constants of other codes"""
import itertools
import numpy as np
from vf.harness import harness
from .common import *

FN = ['util.convert_fc_phases', 'util._get_supercell_relative_idx',
      'util.get_all_origins']

SC = {
    'chain2': [[2, 0, 0], [0, 1, 0], [0, 0, 1]],
    'chain3': [[1, 0, 0], [0, 1, 0], [0, 0, 3]],
    'plane': [[2, 0, 0], [0, 1, 0], [0, 0, 2]],
    'shear': [[2, 1, 0], [0, 1, 0], [0, 0, 1]],
    'shear3': [[1, 0, 0], [1, 3, 0], [0, 0, 1]],
    'root2': [[1, 1, 0], [-1, 1, 0], [0, 0, 1]],
    'fcc4': [[-1, 1, 1], [1, -1, 1], [1, 1, -1]],
    'left': [[0, 1, 0], [2, 0, 0], [0, 0, 1]],
    'mono': [[2, 0, 1], [0, 1, 0], [0, 0, 2]],
    'one': [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    'big': [[3, 0, 0], [0, 2, 0], [0, 0, 2]],
    'chain13': [[1, 0, 0], [0, 13, 0], [0, 0, 1]],
}


def cells_of(sc):
    """a representative cell for every class modulo the supercell"""
    sc = np.array(sc)
    n = abs(int(round(np.linalg.det(sc))))
    out = []
    for c in itertools.product(range(-3, max(5, n)), repeat=3):
        if len(out) == n:
            break
        if all(not same(sc, c, d) for d in out) and min(c) >= 0:
            out.append(c)
    assert len(out) == n
    return out


def same(sc, a, b):
    """do two cells differ by a supercell translation (exact integer test)"""
    sc = np.array(sc, dtype=int)
    d = int(round(np.linalg.det(sc)))
    adj = np.rint(np.linalg.inv(sc) * d).astype(int)
    v = (np.array(a, int) - np.array(b, int)) @ adj
    return not (v % d).any()


def klass(sc, cells, c):
    return [k for k, d in enumerate(cells) if same(sc, c, d)][0]


def layout(n_at, cells, order):
    """(primitive atom, cell) of each supercell atom"""
    nc = len(cells)
    full = [(j, c) for j in range(n_at) for c in range(nc)]
    if order == 'atom-major':
        return full
    if order == 'cell-major':
        return [(j, c) for c in range(nc) for j in range(n_at)]
    if order == 'reversed':
        return full[::-1]
    k = 3 if len(full) % 3 else 5           # a stride permutation
    while np.gcd(k, len(full)) != 1:
        k += 2
    return [full[(k * i + 2) % len(full)] for i in range(len(full))]


def run(ctx, sc, n_at, fmt, far=True):
    from euphonic.util import convert_fc_phases
    S = np.array(SC[sc], dtype=int)
    cells = cells_of(S)
    nc = len(cells)
    lay = layout(n_at, cells, ctx.choice('order', [
        'atom-major', 'cell-major', 'reversed', 'stride']))
    # the copy of each primitive atom whose row is stored
    pick = ctx.choice('copy', ['first', 'last', 'mixed'])
    p2s = []
    for j in range(n_at):
        js = [k for k, (jj, _) in enumerate(lay) if jj == j]
        p2s.append({'first': js[0], 'last': js[-1],
                    'mixed': js[(2 * j + 1) % len(js)]}[pick])
    # supercell atoms may be given in a neighbouring supercell
    wrap = ctx.choice('wrapped', [0, 1, 2])
    shifts = [(0, 0, 0)] * len(lay)
    if wrap:
        opt = [(0, 0, 0), (-1, 0, 0), (0, 1, 0), (0, 0, -1)] if wrap == 1 else \
            [(0, 0, 0), (0, -1, 0), (0, 0, 0), (-1, 0, -1), (0, 0, 0)]
        shifts = [opt[k % len(opt)] for k in range(len(lay))]
    r = ctx.reals('r', (n_at, 3), -1., 1.)
    noise = ctx.real('noise', -8e-6, 8e-6)
    cell_of = [tuple(int(x) for x in np.array(cells[c]) + np.array(s) @ S)
               for (j, c), s in zip(lay, shifts)]
    sgn = [1, -1]
    sc_r = [[r[j, k] + cell_of[n][k] + noise * sgn[(n + k) % 2]
             for k in range(3)] for n, (j, c) in enumerate(lay)]
    phi = ctx.reals('phi', (n_at, n_at, nc, 3, 3), -1., 1.)
    cl = {}

    def Phi(i, j, v):
        v = tuple(int(x) for x in v)
        if v not in cl:
            cl[v] = klass(S, cells, v)
        return phi[i, j, cl[v]]
    rows = range(len(lay)) if fmt == 'full' else p2s
    fc = [[[[Phi(lay[a][0], j, np.array(cell_of[n]) - cell_of[a])[x, y]
             for y in range(3)] for x in range(3)]
           for n, (j, c) in enumerate(lay)] for a in rows]
    out, org = convert_fc_phases(
        ctx.arr(fc), ctx.arr([[r[j, k] for k in range(3)]
                              for j in range(n_at)]), ctx.arr(sc_r),
        np.array(p2s), np.array([j for j, _ in lay]), S)
    org = [[int(x) for x in o] for o in org]
    ctx.true('every cell of the supercell once', len(org) == nc and all(
        not same(S, a, b) for a, b in itertools.combinations(org, 2)))
    ctx.true('the home cell is one of them', [0, 0, 0] in org)
    want = [[[Phi(i, j, o)[x, y] for j in range(n_at) for y in range(3)]
             for i in range(n_at) for x in range(3)] for o in org]
    ctx.eq('force constants by cell and atom', out, want)


B = ('every force constants array with the periodicity of the supercell and every '
     'fractional position in [-1,1]; {} supercells with {} atoms in the cell; four '
     'atom orders, three choices of the copy whose row is stored, atoms given in '
     'the same or a neighbouring supercell; position noise up to 8e-6')


@harness('C11', functions=FN, bounds=B.format('8 (2-4 cells, incl. non-diagonal, '
         'left-handed)', '1-3'), cases=[
             dict(sc='chain2', n=2, fmt='compact'),
             dict(sc='plane', n=2, fmt='compact'),
             dict(sc='root2', n=2, fmt='full'),
             dict(sc='shear', n=3, fmt='compact'),
             dict(sc='chain3', n=2, fmt='full'),
             dict(sc='shear3', n=2, fmt='compact'),
             dict(sc='left', n=2, fmt='compact'),
             dict(sc='fcc4', n=1, fmt='compact'),
             dict(sc='one', n=2, fmt='full')],
         thorough_cases=[dict(sc='fcc4', n=2, fmt='compact'),
                         dict(sc='mono', n=2, fmt='full'),
                         dict(sc='big', n=1, fmt='compact'),
                         dict(sc='shear3', n=3, fmt='full')], traces=3)
def convert(ctx, sc, n, fmt):
    run(ctx, sc, n, fmt)


@harness('C11', functions=FN, bounds='as above, one supercell atom displaced by '
         'between 1e-4 and 0.4 of a cell vector from where its cell would put it, '
         'or a supercell matrix of the wrong determinant: must be refused',
         cases=[dict(what='displaced'), dict(what='det')], traces=2)
def refuse(ctx, what):
    from euphonic.util import convert_fc_phases
    n_at = 2
    S = np.array(SC['chain3'])
    cells = cells_of(S)
    lay = layout(n_at, cells, 'stride')
    r = ctx.reals('r', (n_at, 3), -1., 1.)
    d = ctx.real('d', 1e-4, 0.4)
    sg = ctx.choice('sign', [1, -1])
    k0 = ctx.choice('atom', list(range(len(lay))))
    ax = ctx.choice('axis', [0, 1, 2])
    sc_r = [[r[j, k] + cells[c][k] + (d * sg if what == 'displaced' and
                                      (n, k) == (k0, ax) else 0)
             for k in range(3)] for n, (j, c) in enumerate(lay)]
    if what == 'det':
        S = S * np.array([[2], [1], [1]])
    ctx.expect_raise('refused', RuntimeError if what == 'displaced'
                     else ValueError, lambda: convert_fc_phases(
        ctx.const(np.zeros((n_at, len(lay), 3, 3))), r, ctx.arr(sc_r),
        np.array([[j for j, _ in lay].index(i) for i in range(n_at)]),
        np.array([j for j, _ in lay]), S))


@harness('C11', functions=FN[1:], bounds='11 supercell matrices; cell origins in '
         'any of four orders, each optionally given in a neighbouring supercell '
         '(enumerated); 101-cell chain for the chunked search', cases=[dict()],
         thorough_cases=[], traces=0)
def relative_idx(ctx):
    import euphonic.util as u
    f = getattr(u, '_get_supercell_relative_idx', None)
    if f is None:
        ctx.note('no _get_supercell_relative_idx: covered through convert only')
        return
    name = ctx.choice('sc', list(SC) + ['chain101'])
    S = np.diag([101, 1, 1]) if name == 'chain101' else np.array(SC[name])
    cells = [(i, 0, 0) for i in range(101)] if name == 'chain101' \
        else cells_of(S)
    k = ctx.choice('order', [1, -1, 2, 0])
    if k == -1:
        cells = cells[:1] + cells[:0:-1]
    elif k == 2:
        cells = cells[:1] + cells[2:] + cells[1:2]
    if k == 0:
        cells = [tuple(np.array(c) + (np.array([1, -1, 0]) @ S if i % 2 else 0))
                 for i, c in enumerate(cells)]
    idx = f(np.array(cells), S)
    n = len(cells)
    ok = all(same(S, np.array(cells[j]) - cells[i], cells[int(idx[i, j])])
             for i in range(n) for j in range(n))
    ctx.true('difference vectors found', ok)
