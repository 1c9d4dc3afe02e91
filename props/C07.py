"""C07: every equivalent image at the supercell boundary, and no other"""
import itertools
import numpy as np
from vf.harness import harness
from .common import *

FN = ['ForceConstants._calculate_supercell_images', 'crystal.get_all_origins',
      'ForceConstants._calculate_dyn_mat',
      'ForceConstants._calculate_phonons_at_qpts (image weights)']
Q = [0.1234, 0.2718, -0.3141]
MARGIN = 0.0025      # half-width (in face distances) of the excluded band


def setup(name):
    return {
        # (cell, frac positions as functions of the parameter, sc, lo, hi)
        'tri_x': ('tri2', lambda x: [[0.05, 0.1, 0.0], [x, 0.55, 0.35]], 0., 1.),
        'tri_z': ('tri2', lambda x: [[0.05, 0.1, 0.0], [0.45, 0.55, x]], -.1, .6),
        'diag': ('tri2', lambda x: [[0.05, 0.1, 0.0], [x, x, x]], 0., 1.),
        'home': ('tri2', lambda x: [[x, 0.1, 0.2], [0.45, 0.55, 0.35]], -.5, 1.),
        'hex': ('hex2', lambda x: [[0, 0, 0], [x, 2 / 3., 0.5]], 0., .7),
        'nondiag': ('nondiag2', lambda x: [[0., 0., 0.], [0.4, x, 0.25]], 0., 1.),
        'neg': ('neg2', lambda x: [[0., 0., 0.], [x, 0.4, 0.25]], 0., 1.),
        'fcc': ('fcc2', lambda x: [[0., 0., 0.], [x, x, 0.4]], 0., 1.),
        # atoms far outside the home cell
        'far': ('cub2u', lambda x: [[0., 0., .2], [x, .3, .1]], 1.1, 2.2),
        'perm': ('tri2perm', lambda x: [[0., 0., 0.], [0.1, x, 0.4]], 0., 2.),
    }[name]


def candidates(shells=3):
    return [np.array(s) for s in itertools.product(range(-shells, shells + 1),
                                                   repeat=3)]


@harness('C07', functions=FN, bounds='two atoms, one coordinate of one atom '
         'anywhere in the stated range except within 0.25% of a face of the '
         'Wigner-Seitz cell (exact boundary positions: see the special '
         'positions), 6 supercells (diagonal, non-diagonal, left-handed, '
         'cells in any order), every force constants array',
         cases=[dict(name=k) for k in ('tri_x', 'tri_z', 'hex', 'nondiag', 'neg',
                                       'home', 'far')],
         thorough_cases=[dict(name=k) for k in ('diag', 'fcc', 'perm')], traces=2)
def moving_atom(ctx, name):
    g, pos, lo, hi = setup(name)
    geo = dict(GEOM[g])
    x = ctx.real('x', lo, hi)
    r = pos(x)
    geo_c = dict(geo)
    check(ctx, geo_c, r, geo['cell'], assume=True)


FACES = [p for p in itertools.product((-1, 0, 1), repeat=3) if p > (0, 0, 0)]


@harness('C07', functions=FN, bounds='for each of the 13 pairs of neighbouring '
         'supercells: a lattice in which they give a face of the Wigner-Seitz '
         'cell, an atom anywhere on a line through that face',
         cases=[dict(p=list(p)) for p in FACES], traces=1)
def every_face(ctx, p):
    k = [abs(v) for v in p].index(1)
    U = [p] + [[float(a == b) for a in range(3)] for b in range(3) if b != k]
    # p @ L is the shortest vector; slightly triclinic
    L = np.rint(np.linalg.inv(np.array(U, float))) @ np.array(
        [[3., .04, -.06], [.1, 3.2, .05], [-.03, .02, 3.5]])
    assert np.allclose(np.array(p) @ L, [3., .04, -.06])
    geo = dict(cell=L.tolist(), types=['Na', 'Cl'],
               sc=[[1, 0, 0], [0, 1, 0], [0, 0, 1]])
    x = ctx.real('x', .3, .7)
    off = np.array([.01, .06, .08]) @ np.linalg.inv(L)
    check(ctx, geo, [[0., 0., 0.], [x * float(v) + float(o)
                                    for v, o in zip(p, off)]],
          geo['cell'], assume=True)


@harness('C07', functions=FN, bounds='two atoms; one lattice shear or length '
         'anywhere in the stated range except within 0.25% of a change of the '
         'image list; every force constants array',
         cases=[dict(which='shear'), dict(which='length')],
         thorough_cases=[dict(which='angle')], traces=2)
def changing_cell(ctx, which):
    geo = dict(GEOM['tri2'])
    cell = [list(map(float, v)) for v in geo['cell']]
    if which == 'shear':
        cell[0][1] = ctx.real('s', 0.1, .4)
    elif which == 'length':
        cell[2][2] = ctx.real('s', 4., 4.25)
    else:
        cell[2][0] = ctx.real('s', -.3, .3)
    check(ctx, geo, geo['r'], cell, assume='cell')


SPECIAL = {
    'half_x': ('tri2', [[0.05, 0.1, 0.0], [1.05, 0.1, 0.]]),
    'cub_corner': (dict(cell=[[3., 0, 0], [0, 3., 0], [0, 0, 3.]], types=['Na', 'Cl'],
                        sc=[[2, 0, 0], [0, 2, 0], [0, 0, 1]]),
                   [[0., 0., 0.], [0.5, 0.5, 0.5]]),
    'cub_unit': ('cub2u', [[0., 0., 0.], [0.5, 0.5, 0.5]]),
    'cub_face': ('cub2u', [[0., 0., 0.], [0.5, 0., 0.]]),
    'cub_edge': ('cub2u', [[0.2, 0.3, 0.], [0.7, 0.8, 0.]]),
    'fcc': ('fcc2', [[0., 0., 0.], [.5, .5, .5]]),
    'hex': ('hex2', [[0., 0., 0.], [1 / 3., 2 / 3., .5]]),
    'outside': ('cub2u', [[2., -1., 0.], [0.5, 3.5, 0.5]]),
    # distances from the face well inside the tolerance bands of the search
    'noise': ('cub2u', [[0., 0., 0.], [0.5 + 1e-9, 0.5 - 1e-9, 0.2]]),
}


@harness('C07', functions=FN, bounds='atoms on faces, edges and corners of the '
         'Wigner-Seitz cell in 9 arrangements; every force constants array; one '
         'q-point component anywhere in [-1,1]',
         cases=[dict(name=k) for k in SPECIAL], traces=2)
def boundary(ctx, name):
    g, r = SPECIAL[name]
    geo = dict(GEOM[g]) if isinstance(g, str) else dict(g)
    q = list(Q)
    q[1] = ctx.real('q', -1., 1.)
    check(ctx, geo, r, geo['cell'], assume=False, q=q)


def check(ctx, geo, r, cell, assume, q=Q):
    from euphonic import Crystal, ForceConstants, ureg
    sc = np.array(geo['sc'])
    cells = np.array(geo['cells'], dtype=np.int32) if 'cells' in geo \
        else sc_cells(sc)
    n = len(r)
    L = [[sum(float(sc[a, b]) * cell[b][k] for b in range(3)) for k in range(3)]
         for a in range(3)]
    P = [p for p in itertools.product((-1, 0, 1), repeat=3) if any(p)]
    P = [p for p in P if p > (0, 0, 0)]      # one of each +-pair
    Lp = [[sum(p[a] * L[a][k] for a in range(3)) for k in range(3)] for p in P]
    L2 = [sum(v * v for v in u) for u in Lp]
    ims = {}
    for nc, o in enumerate(cells):
        for i in range(n):
            for j in range(n):
                f = [r[j][k] - r[i][k] + float(o[k]) for k in range(3)]
                d = [sum(f[a] * cell[a][k] for a in range(3)) for k in range(3)]
                # d . Lp and L . Lp: s.Lp is linear in s
                base = [sum(d[k] * u[k] for k in range(3)) for u in Lp]
                LL = [[sum(L[a][k] * u[k] for k in range(3)) for a in range(3)]
                      for u in Lp]
                out = []
                for s in candidates(2):
                    ok = True
                    for b, ll, l2 in zip(base, LL, L2):
                        t = b
                        for a in range(3):
                            if s[a]:
                                t = t + ll[a] * float(s[a])
                        if assume == 'cell' or (assume and i != j):
                            if zero(t - l2 * 0.5) or zero(t + l2 * 0.5):
                                continue     # always exactly on the face
                            hi_, lo_ = l2 * (.5 + MARGIN), l2 * (.5 - MARGIN)
                            if bool((t > hi_) | (-t > hi_)):
                                ok = False
                                break
                            ctx.assume((t < lo_) & (-t < lo_))
                        else:
                            if abs(val(t)) > float(val(l2)) * .50001:
                                ok = False
                                break
                    if ok:
                        out.append(s @ sc)
                ims[nc, i, j] = out
    fc = herm_fc(ctx, 'fc', cells, sc, n)
    cr = Crystal(ctx.arr(cell) * ureg('angstrom'), ctx.arr(r),
                 np.array(geo['types']), ctx.const([23., 35.5]) * ureg('amu'))
    obj = ForceConstants(cr, fc * ureg('hartree/bohr**2'), sc, cells)
    with EchoEigh(ctx):
        m = obj.calculate_qpoint_phonon_modes(
            ctx.arr([q]), use_c=False, reduce_qpts=False)
    ma = [conv(v, 'amu', 'electron_mass') for v in (23., 35.5)]
    ref = dyn_mat_ref(ctx, fc, q, cells, ims, n, ma)
    ctx.eq('images', echo_matrix(ctx, m, 0), ref)


def zero(t):
    """identically zero"""
    if not hasattr(t, 't'):
        return abs(t) < 1e-9
    return all(abs(c) < 1e-9 for c in t.t.values())


def val(t):
    return float(t.const_val()) if hasattr(t, 'is_const') else float(t)
