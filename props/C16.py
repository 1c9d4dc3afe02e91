"""C16: the Debye-Waller exponent"""
import itertools
import math
import numpy as np
from vf.harness import harness
from .common import *
from .C15 import KB

FN = ['QpointPhononModes.calculate_debye_waller', 'DebyeWaller.__init__',
      'Crystal.get_symmetry_equivalent_atoms', 'Crystal.get_species_idx',
      'Crystal.to_spglib_cell', 'Crystal.reciprocal_cell']
MEV = conv(1., 'meV', 'hartree')
AMU = conv(1., 'amu', 'electron_mass')
A2B = conv(1., 'angstrom', 'bohr')


def crys16(ctx, cell, r, ty, masses, cu='angstrom'):
    from euphonic import Crystal, ureg
    return Crystal(ctx.const(np.array(cell)) * conv(1., 'angstrom', cu)
                   * ureg(cu), ctx.const(r), np.array(ty),
                   ctx.arr(masses) * ureg('amu'))


def coth_over(f, T):
    """coth(f/2kT)/f, f in meV"""
    x = f * MEV
    if T is None or (not hasattr(T, 't') and T == 0):
        return 1. / x
    E = rexp(-1. * x * (1. / KB) / T)
    return (1. + E) / ((1. - E) * x)


def evecs(ctx, name, nq, nm, n, sym, seed=3):
    rng = np.random.default_rng(seed)
    er = rng.uniform(-1, 1, (nq, nm, n, 3))
    ei = rng.uniform(-1, 1, (nq, nm, n, 3))
    if ctx.symbolic:
        er, ei = er.astype(object), ei.astype(object)
    for q, b in sym:
        for j in range(n):
            for a in range(3):
                er[q, b, j, a] = ctx.real(f'{name}r{q}_{b}{j}{a}', -1., 1.)
                ei[q, b, j, a] = ctx.real(f'{name}i{q}_{b}{j}{a}', -1., 1.)
    return er, ei


def tensor(er, ei, f, w, masses, T, fmin, n):
    """sum over q-points and modes of one weighted average, bohr^2"""
    nq, nm = er.shape[:2]
    W = [[[0.0] * 3 for _ in range(3)] for _ in range(n)]
    tot = 0.0
    for q in range(nq):
        tot = tot + w[q]
        for b in range(nm):
            if f[q][b] < fmin:
                continue
            c = coth_over(f[q][b], T) * w[q]
            for j in range(n):
                for a in range(3):
                    for d in range(a, 3):
                        W[j][a][d] = W[j][a][d] + (
                            er[q, b, j, a] * er[q, b, j, d]
                            + ei[q, b, j, a] * ei[q, b, j, d]) * c
    for j in range(n):
        for a in range(3):
            for d in range(a, 3):
                W[j][a][d] = W[j][d][a] = W[j][a][d] / (masses[j] * (4. * AMU))
    return W, tot


CELL = [[3.1, 0.2, 0.], [-.4, 4.2, .3], [.5, -.1, 5.3]]


@harness('C16', functions=FN, bounds='1-2 atoms, 1-3 q-points, every component '
         'of the eigenvectors of two modes in [-1,1] (+i), one frequency '
         'anywhere in [-5,13] meV except within 1e-6 of the cutoff (0.01 meV by '
         'default, or 2 meV), every mass in [1,200] amu, every split of the '
         'weights, temperature 0, 35 K or anywhere in [5,600] K; cells in '
         'angstrom or bohr',
         cases=[dict(n=1, nq=2, f='sym', T=35., fm=None, cu='angstrom'),
                dict(n=1, nq=2, f='sym', T=0., fm=2., cu='bohr'),
                dict(n=2, nq=1, f='num', T='sym', fm=None, cu='angstrom'),
                dict(n=2, nq=3, f='num', T=0., fm=None, cu='bohr'),
                dict(n=1, nq=1, f='sym', T=300., fm=2., cu='angstrom'),
                dict(n=1, nq=2, f='num', T=90., fm=6., cu='angstrom'),
                dict(n=1, nq=1, f='num', T=90., fm=5., cu='bohr')],
         traces=3)
def formula(ctx, n, nq, f, T, fm, cu):
    from euphonic import QpointPhononModes, ureg
    ty = ['Na', 'Cl'][:n]
    masses = [ctx.real(f'm{j}', 1., 200.) for j in range(n)]
    cr = crys16(ctx, CELL, [[0., 0., 0.], [.3, .2, .45]][:n], ty, masses, cu)
    nm = 3 * n
    er, ei = evecs(ctx, 'e', nq, nm, n, [(0, 1), (nq - 1, nm - 1)])
    fr = [[(3.1 if fm != 5. else 5. - 1.9) + 1.9 * b + .8 * q
           for b in range(nm)] for q in range(nq)]
    if fm == 5.:
        fr[0][1] = 5.           # exactly at the cutoff: kept
    cut = .01 if fm is None else fm
    if f == 'sym':
        x = ctx.real('f', -5., 13.)
        if bool(x <= cut):
            ctx.assume(x <= cut - 1e-6)
        else:
            ctx.assume(x >= cut + 1e-6)
        fr[nq - 1][1] = x
    t = ctx.real('T', 5., 600.) if T == 'sym' else T
    w0 = ctx.real('w0', .1, 1.)
    w = {1: [2.5], 2: [w0, 2.5 - w0], 3: [w0, 1.2, 1.3 - w0]}[nq]
    e = er + ei * 1j
    m = QpointPhononModes(cr, ctx.const([[.1, .2, .3], [.4, .1, 0.],
                                         [0., .5, .25]][:nq]),
                          ctx.arr(fr) * ureg('meV'), ctx.arr(e) if ctx.symbolic
                          else e, weights=ctx.arr(w))
    kw = {} if fm is None else dict(frequency_min=fm * ureg('meV'))
    with quiet():
        out = m.calculate_debye_waller(t * ureg('K'), symmetrise=False, **kw)
    ctx.true('units', out.debye_waller.units == ureg(cu + '**2').units)
    got = out.debye_waller.to('bohr**2').magnitude
    W, _ = tensor(er, ei, fr, w, masses, t, cut, n)
    for j in range(n):
        ctx.eq(f'atom {j}', got[j], [[x * (1 / 2.5) for x in r] for r in W[j]],
               scale_tol=0,
               floor=0. if ctx.symbolic else 1e-13 * abs(got[j]).max())
        ctx.eq('symmetric', got[j], got[j].T)
    ctx.eq('temperature', out.temperature.to('K').magnitude, t)
    ctx.true('crystal', out.crystal is m.crystal or out.crystal.n_atoms == n)
    ctx.eq('input', m.frequencies.to('meV').magnitude, fr)


@harness('C16', functions=FN, bounds='1000, 1001, 1999, 2000 and 2001 q-points '
         '(one atom) of which the first, the last and those next to multiples '
         'of 1000 have arbitrary eigenvectors of one mode and arbitrary weights',
         cases=[dict(nq=1000), dict(nq=1001), dict(nq=2001)],
         thorough_cases=[dict(nq=1999), dict(nq=2000), dict(nq=3001)], traces=1)
def many(ctx, nq):
    from euphonic import QpointPhononModes, ureg
    cr = crys16(ctx, CELL, [[0., 0., 0.]], ['Na'], [23.])
    idx = sorted({0, nq - 1} | {i for i in (999, 1000, 1999, 2000) if i < nq})
    er, ei = evecs(ctx, 'e', nq, 3, 1, [(i, 2) for i in idx])
    rng = np.random.default_rng(5)
    fr = rng.uniform(2., 30., (nq, 3))
    wt = rng.uniform(.2, 2., nq)
    w = [float(x) for x in wt]
    tot = 0.
    for k, i in enumerate(idx[:-1]):
        w[i] = ctx.real(f'w{i}', .1, 50.)
    w[idx[-1]] = 60. * len(idx) - sum(w[i] for i in idx[:-1])
    W = sum(float(wt[i]) for i in range(nq) if i not in idx) + 60. * len(idx)
    e = er + ei * 1j
    m = QpointPhononModes(cr, ctx.const(rng.uniform(-.5, .5, (nq, 3))),
                          ctx.const(fr) * ureg('meV'),
                          ctx.arr(e) if ctx.symbolic else e,
                          weights=ctx.arr(w))
    with quiet():
        out = m.calculate_debye_waller(0. * ureg('K'), symmetrise=False)
    ref, _ = tensor(er, ei, fr, w, [23.], 0., .01, 1)
    ctx.eq('tensor', out.debye_waller.to('bohr**2').magnitude[0],
           [[x / W for x in r] for r in ref[0]], scale_tol=1e-10)


h = math.sqrt(3) / 2
CRYS = {
    'nacl': ([[0., 2., 2.], [2., 0., 2.], [2., 2., 0.]],
             [[0., 0., 0.], [.5, .5, .5]], ['Na', 'Cl']),
    'diamond': ([[0., 2., 2.], [2., 0., 2.], [2., 2., 0.]],
                [[0., 0., 0.], [.25, .25, .25]], ['Si', 'Si']),
    'hcp': ([[3., 0., 0.], [-1.5, 3 * h, 0.], [0., 0., 4.9]],
            [[1 / 3, 2 / 3, .25], [2 / 3, 1 / 3, .75]], ['Mg', 'Mg']),
    'wurtz': ([[3., 0., 0.], [-1.5, 3 * h, 0.], [0., 0., 4.9]],
              [[1 / 3, 2 / 3, .0], [2 / 3, 1 / 3, .5], [1 / 3, 2 / 3, .37],
               [2 / 3, 1 / 3, .87]], ['Zn', 'Zn', 'O', 'O']),
    'tetra': ([[3., 0., 0.], [0., 3., 0.], [0., 0., 4.4]],
              [[.1, .2, .0], [-.1, -.2, 0.], [-.2, .1, 0.], [.2, -.1, 0.]],
              ['O'] * 4),
    'trig3': ([[4.9, 0., 0.], [-2.45, 4.9 * h, 0.], [0., 0., 5.4]],
              [[.47, 0., 0.], [0., .47, 1 / 3 + 1 / 3], [-.47, -.47, 1 / 3]],
              ['Si'] * 3),
    'mono': ([[3., 0., 0.], [0., 4., 0.], [1., 0., 5.]],
             [[.1, .2, .3], [-.1, .7, .2], [.3, .1, .45]], ['Na', 'Na', 'Cl']),
    'centred': ([[3., 0., 0.], [0., 4., 0.], [0., 0., 5.]],
                [[0., 0., 0.], [.5, .5, .5]], ['Na', 'Na']),
    'tri': ([[3.1, 0.2, 0.], [-.4, 4.2, .3], [.5, -.1, 5.3]],
            [[.1, .2, .3], [-.1, -.2, -.3]], ['Na', 'Na']),
    'scatt': ([[4., 0., 0.], [0., 4., 0.], [0., 0., 4.]],
              [[0., 0., 0.], [.5, .5, 0.], [1.5, 0., -.5], [0., -.5, .5]],
              ['Cu'] * 4),
}


def symmetries(cell, r, ty):
    """every operation (R, permutation) by brute force over integer matrices
    and atom differences"""
    cell, r = np.array(cell), np.array(r)
    G = cell @ cell.T
    rows = [np.array(v) for v in itertools.product((-1, 0, 1), repeat=3)]
    ops = []
    # rows of rot^T are the images of the lattice vectors
    cand = [[v for v in rows if abs(v @ G @ v - G[i, i]) < 1e-6]
            for i in range(3)]
    for a, b, c in itertools.product(*cand):
        M = np.array([a, b, c])
        if np.abs(M @ G @ M.T - G).max() > 1e-6:
            continue
        rot = M.T           # fractional coordinates transform with the columns
        first = [i for i in range(len(r)) if ty[i] == ty[0]]
        for k in first:
            t = r[k] - rot @ r[0]
            perm = []
            for i in range(len(r)):
                x = rot @ r[i] + t
                hit = [j for j in range(len(r)) if ty[j] == ty[i] and np.abs(
                    (x - r[j]) - np.rint(x - r[j])).max() < 1e-6]
                if len(hit) != 1:
                    break
                perm.append(hit[0])
            else:
                R = cell.T @ rot @ np.linalg.inv(cell.T)
                ops.append((R, perm))
    return ops


@harness('C16', functions=FN, bounds='ten crystals of 2-4 atoms (cubic, '
         'hexagonal, trigonal, tetragonal, monoclinic, triclinic, centred and '
         'non-symmorphic; coordinates also outside [0,1)), every component of '
         'the eigenvectors of one mode in [-1,1] (+i), every frequency of '
         'another in [1,40] meV',
         cases=[dict(which=w) for w in CRYS], traces=2)
def symmetrised(ctx, which):
    from euphonic import QpointPhononModes, ureg
    cell, r, ty = CRYS[which]
    n = len(r)
    cr = crys16(ctx, cell, r, ty, [20. + 3 * len(t) + ord(t[0]) for t in ty])
    masses = [20. + 3 * len(t) + ord(t[0]) for t in ty]
    er, ei = evecs(ctx, 'e', 1, 3 * n, n, [(0, 1)])
    fr = [[3.1 + 1.9 * b for b in range(3 * n)]]
    fr[0][2] = ctx.real('f', 1., 40.)
    e = er + ei * 1j
    m = QpointPhononModes(cr, ctx.const([[.1, .2, .3]]), ctx.arr(fr)
                          * ureg('meV'), ctx.arr(e) if ctx.symbolic else e)
    with quiet():
        out = m.calculate_debye_waller(0. * ureg('K'))
        raw = m.calculate_debye_waller(0. * ureg('K'), symmetrise=False)
    W, _ = tensor(er, ei, fr, [1.], masses, 0., .01, n)
    ops = symmetries(cell, r, ty)
    want = [[[0.0] * 3 for _ in range(3)] for _ in range(n)]
    for R, perm in ops:
        for i in range(n):
            for a in range(3):
                for b in range(3):
                    x = 0.0
                    for c in range(3):
                        for d in range(3):
                            k = float(R[a, c] * R[b, d]) / len(ops)
                            if abs(k) > 1e-12:
                                x = x + W[i][c][d] * k
                    want[perm[i]][a][b] = want[perm[i]][a][b] + x
    got = out.debye_waller.to('bohr**2').magnitude
    ctx.eq('unsymmetrised', raw.debye_waller.to('bohr**2').magnitude, W,
           scale_tol=1e-9)
    ctx.eq('symmetrised', got, want, scale_tol=1e-8)
    for t in sorted(set(ty)):
        js = [j for j in range(n) if ty[j] == t]
        ctx.eq(f'trace {t}', sum(got[j, a, a] for j in js for a in range(3)),
               sum(W[j][a][a] for j in js for a in range(3)))
