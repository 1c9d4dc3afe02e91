"""C09: mode gradients and widths"""
import math
import numpy as np
from vf.harness import harness
from .common import *

FN = ['ForceConstants._calculate_dyn_mat (gradient)',
      'ForceConstants._calculate_phonons_at_q',
      'ForceConstants._calculate_phonons_at_qpts', 'util.mode_gradients_to_widths']


def grad_ref(ctx, fc, q, cells, ims, n, m_au, cell_bohr):
    """d/dq of the mass-weighted Fourier sum, q Cartesian"""
    n3 = 3 * n
    G = [[[0.0] * n3 for _ in range(n3)] for _ in range(3)]
    for nc in range(len(cells)):
        for i in range(n):
            for j in range(n):
                I = ims[nc, i, j]
                for s in I:
                    v = s + cells[nc]
                    arg = 0.0
                    for k in range(3):
                        if v[k]:
                            arg = arg + q[k] * (2 * math.pi * float(v[k]))
                    ph = cexp(arg) if any(v) else 1.0
                    R = [sum(float(v[k]) * float(cell_bohr[k][a])
                             for k in range(3)) for a in range(3)]
                    for a in range(3):
                        if R[a] == 0:
                            continue
                        for x in range(3):
                            for y in range(3):
                                G[a][3 * i + x][3 * j + y] = \
                                    G[a][3 * i + x][3 * j + y] + \
                                    fc[nc, 3 * i + x, 3 * j + y] * ph * complex(
                                        0, R[a] / len(I))
    for a in range(3):
        for i in range(n3):
            for j in range(n3):
                G[a][i][j] = G[a][i][j] / math.sqrt(m_au[i // 3] * m_au[j // 3])
    return G


@harness('C09', functions=FN, opts={'abs_mode': 'atom', 'max_mode': 'atom'},
         bounds='1-3 atoms, supercells of 1-4 cells (one q-point: four '
         'atoms, 12 cells and one atom, 17 cells), one q-point component '
         'anywhere in [-1.2,1.2], every force constants array, every eigenvector '
         'and eigenvalue of either sign (eigensolver taken as arbitrary), with and '
         'without eigenvectors returned, two length units',
         cases=[dict(g='sc1', ax=0, unit='angstrom', red=True),
                dict(g='tri2', ax=0, unit='bohr', red=True),
                dict(g='tri2', ax=2, unit='angstrom', red=False),
                dict(g='tri3', ax=1, unit='bohr', red=False),
                dict(g='chain17', ax=None, unit='angstrom', red=False)],
         thorough_cases=[dict(g='big4', ax=None, unit='angstrom', red=True),
                         dict(g='tri2perm', ax=1, unit='angstrom', red=True),
                         dict(g='nondiag2', ax=1, unit='angstrom', red=True),
                         dict(g='hex2', ax=1, unit='bohr', red=True)], traces=2)
def gradient(ctx, g, ax, unit, red):
    from euphonic import ForceConstants, Crystal, ureg
    geo = GEOM[g]
    n = len(geo['r'])
    n3 = 3 * n
    cells, ims = ws_images(geo)
    fc = herm_fc(ctx, 'fc', cells, geo['sc'], n)
    m = [23., 35.5, 16., 40.][:n]
    cell = np.array(geo['cell'])
    f = conv(1., 'angstrom', unit)
    cr = Crystal(ctx.const(cell * f) * ureg(unit), ctx.const(geo['r']),
                 np.array(geo['types']), ctx.const(m) * ureg('amu'))
    q = [0.13, -0.27, 0.41]
    if ax is not None:
        q[ax] = ctx.real('q', -1.2, 1.2)
    obj = ForceConstants(cr, fc * ureg('hartree/bohr**2'), np.array(geo['sc']),
                         cells)
    signs = ctx.choice('signs', ['pos', 'mixed'])
    stub = EighStub(ctx, signs=lambda k, i: -1 if (signs == 'mixed' and i == 0)
                    else 1)
    with stub, quiet():
        r, gr = obj.calculate_qpoint_phonon_modes(
            ctx.arr([q]), use_c=False, reduce_qpts=red,
            return_mode_gradients=True)
        n_eig = len(stub.calls)
    ctx.true('one diagonalisation', n_eig == 1)
    ctx.true('gradient unit', gr.check('[energy]*[length]'))
    ctx.true('gradient in the length unit of the crystal',
             gr.units == ureg('meV') .units * ureg(unit).units)
    G = gr.to('hartree*bohr').magnitude
    w = r.frequencies.to('hartree').magnitude
    e = r.eigenvectors
    m_au = [conv(x, 'amu', 'electron_mass') for x in m]
    D = grad_ref(ctx, fc, q, cells, ims, n, m_au,
                 cell * conv(1., 'angstrom', 'bohr'))
    modes = range(n3) if n == 1 else (0, 3, 5)
    for k in modes:
        for a in range(3):
            s = 0.0
            for i in range(n3):
                ei = e[0, k, i // 3, i % 3]
                for j in range(n3):
                    ej = e[0, k, j // 3, j % 3]
                    s = s + ei.conjugate() * ej * D[a][i][j]
            s = getattr(s, 'real', s) / (2 * w[0, k])
            ctx.eq(f'mode {k} direction {a}', G[0, k, a], s)


@harness('C09', functions=FN, opts={'abs_mode': 'atom', 'max_mode': 'atom'},
         bounds='one atom; every force constants array, eigenvector and '
         'eigenvalue; gradients in a list of 3 q-points, with and without '
         'eigenvectors', cases=[dict()], traces=2)
def same_without_eigenvectors(ctx):
    geo = GEOM['sc1']
    obj, fc, _, _, _ = make_fc(ctx, 'sc1', mass=ctx.const([23.]))
    Q = ctx.const([[.1, .2, .3], [.4, -.1, .05], [1.1, .2, .3]])
    with EchoEigh(ctx), quiet():
        r, g1 = obj.calculate_qpoint_phonon_modes(
            Q, use_c=False, return_mode_gradients=True)
        f, g2 = obj.calculate_qpoint_frequencies(
            Q, use_c=False, return_mode_gradients=True)
    ctx.true('shape', g1.shape == (3, 3, 3) and g2.shape == (3, 3, 3))
    ctx.eq('gradients', g2.to('meV*bohr').magnitude, g1.to('meV*bohr').magnitude,
           record=False)
    ctx.eq('repeat', g1[2].magnitude, g1[0].magnitude, record=False)


@harness('C09', functions=['util.mode_gradients_to_widths'],
         bounds='2 q-points, 3 modes, every vector or scalar gradient, one cell '
         'vector component anywhere in [2,8], left- and right-handed, 2 unit '
         'combinations', cases=[dict(vec=v, lu=l) for v in (True, False)
                                for l in ('angstrom', 'bohr')], traces=2)
def widths(ctx, vec, lu):
    from euphonic import ureg
    from euphonic.util import mode_gradients_to_widths
    # three modes: scalar gradients of one atom look like a list of vectors
    shape = (2, 3, 3) if vec else (2, 3)
    lo = -2. if vec else 0.
    g = ctx.reals('g', shape, lo, 2.)
    cell = [[3., .2, 0.], [.1, 4., .3], [0., .4, ctx.real('c', 2., 8.)]]
    if ctx.choice('hand', ['right', 'left']) == 'left':
        cell = [cell[1], cell[0], cell[2]]
    w = mode_gradients_to_widths(g * ureg(f'meV*{lu}'), ctx.arr(cell) * ureg(lu))
    ctx.true('unit', w.check('[energy]'))
    ctx.true('shape', w.shape == (2, 3))
    a, b, c = cell
    V = (a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0])
         + a[2] * (b[0] * c[1] - b[1] * c[0]))
    V = -V if ctx.choices['hand'] == 1 else V
    dq = 2. / cbrt(V * 2.)
    for i in range(2):
        for j in range(3):
            n = root(sum(g[i, j, k] * g[i, j, k] for k in range(3))) if vec \
                else g[i, j]
            ctx.eq(f'width {i}{j}', w.to('meV').magnitude[i, j], n * dq)
    ctx.eq('input kept', g, ctx.arr([[[g[i, j, k] for k in range(3)]
                                      for j in range(3)] for i in range(2)])
           if vec else ctx.arr([[g[i, j] for j in range(3)] for i in range(2)]))


def cbrt(x):
    from fractions import Fraction
    if hasattr(x, 'sqrt') and not isinstance(x, (float, np.floating)):
        return x ** Fraction(1, 3)
    return float(np.cbrt(x))
