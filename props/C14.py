"""C14: the one-phonon structure factor"""
import json
import math
import os
import numpy as np
from vf.harness import harness
from .common import *
from .C13 import table

FN = ['QpointPhononModes.calculate_structure_factor', 'StructureFactor.__init__',
      'Crystal.reciprocal_cell', 'util.get_reference_data',
      'DebyeWaller.__init__', 'DebyeWaller.debye_waller']

CELL = [[3.1, 0.2, 0.], [-.4, 4.2, .3], [.5, -.1, 5.3]]
POS = [[0.125, 0.25, 0.5], [0.375, -.25, 0.875], [0.75, 0.5, 0.0]]
AMU = conv(1., 'amu', 'electron_mass')
A2B = conv(1., 'angstrom', 'bohr')
REC = 2 * math.pi * np.linalg.inv(np.array(CELL) * A2B).T


def crys14(ctx, ty, masses, pos=None):
    from euphonic import Crystal, ureg
    return Crystal(ctx.const(CELL) * ureg('angstrom'),
                   ctx.arr(pos or POS[:len(ty)]), np.array(ty),
                   ctx.arr(masses) * ureg('amu'))


def qdot(q):
    return [sum(q[k] * float(REC[k, a]) for k in range(3)) for a in range(3)]


def reference(ctx, q, r, b, m, e, W=None):
    """|sum_j b_j m_j^-1/2 (Q.conj(e_j)) exp(2 pi i q.r_j) exp(-Q.W_j.Q)|^2"""
    n = len(b)
    Q = qdot(q)
    F = 0.0
    for j in range(n):
        ph = cexp(2 * math.pi * sum(q[k] * r[j][k] for k in range(3)))
        if W is not None:
            ph = ph * rexp(-sum(W[j][a][c] * Q[a] * Q[c] for a in range(3)
                                for c in range(3)))
        qe = sum(Q[a] * (e[j][a].conjugate() if hasattr(e[j][a], 'conjugate')
                         else e[j][a]) for a in range(3))
        F = F + qe * ph * (b[j] / root(m[j] * AMU))
    return F * (F.conjugate() if hasattr(F, 'conjugate') else np.conj(F))


@harness('C14', functions=FN, opts={'abs_mode': 'atom'},
         bounds='1-3 atoms in a triclinic cell, 1-2 q-points (one anywhere in '
         '[-2.5,2.5]^3 or fixed), every eigenvector component of two modes in '
         '[-1,1] (+i), every mass in [1,200] amu, every scattering length per '
         'element in [-10,15] fm or the packaged table, every frequency in '
         '[1,50] meV or negative, every symmetric Debye-Waller tensor with '
         'entries in [-0.02,0.02] A^2',
         cases=[dict(ty=('Na',), q='sym', sl='dict', W=None, r='num'),
                dict(ty=('Na', 'Cl'), q='sym', sl='dict', W=None, r='num'),
                dict(ty=('Na', 'Cl'), q='num', sl='dict', W='sym', r='num'),
                dict(ty=('Cl', 'H', 'Cl'), q='num', sl='Sears1992', W=None,
                     r='num'),
                dict(ty=('Gd', 'Li'), q='num', sl='Sears1992', W='sym', r='num'),
                dict(ty=('Na', 'Cl'), q='sym', sl='dict', W='num', r='num'),
                dict(ty=('Na', 'Cl'), q='num', sl='dict', W=None, r='sym')],
         traces=3)
def formula(ctx, ty, q, sl, W, r):
    from euphonic import QpointPhononModes, DebyeWaller, ureg
    n = len(ty)
    nq = 2
    el = sorted(set(ty))
    mm = {t: ctx.real('m' + t, 1., 200.) for t in el}
    masses = [mm[t] for t in ty]
    pos = [list(p) for p in POS[:n]]
    if r == 'sym':
        pos[1] = [ctx.real(f'r{k}', -1., 1.) for k in range(3)]
    cr = crys14(ctx, ty, masses, pos)
    qs = [[1.125, -.25, 2.], [.3, .75, -1.1]]
    if q == 'sym':
        qs[1] = [ctx.real(f'q{k}', -2.5, 2.5) for k in range(3)]
    nm = 3 * n
    rng = np.random.default_rng(7)
    er = [[[[float(rng.uniform(-1, 1)) for _ in range(3)] for _ in range(n)]
           for _ in range(nm)] for _ in range(nq)]
    ei = [[[[float(rng.uniform(-1, 1)) for _ in range(3)] for _ in range(n)]
           for _ in range(nm)] for _ in range(nq)]
    for a, b in ((0, 1), (1, nm - 1)):
        if q == 'sym' and a == 1:
            continue
        for j in range(n):
            for c in range(3):
                er[a][b][j][c] = ctx.real(f'er{a}{b}{j}{c}', -1., 1.)
                ei[a][b][j][c] = ctx.real(f'ei{a}{b}{j}{c}', -1., 1.)
    e = [[[[er[a][b][j][c] + ei[a][b][j][c] * 1j for c in range(3)]
           for j in range(n)] for b in range(nm)] for a in range(nq)]
    f = [[3. + 1.7 * b + .4 * a for b in range(nm)] for a in range(nq)]
    f[0][1] = ctx.real('f01', 1., 50.)
    f[1][0] = ctx.real('f10', -50., -1.)
    w0 = ctx.real('w0', .1, 2.)
    modes = QpointPhononModes(cr, ctx.arr(qs), ctx.arr(f) * ureg('meV'),
                              ctx.arr(e), weights=ctx.arr([w0, 2.5 - w0]))
    if sl == 'dict':
        b = {t: ctx.real('b' + t, -10., 15.) for t in el}
        lens = {t: v * ureg('fm') for t, v in b.items()}
    else:
        tb = table(sl, 'coherent_scattering_length')
        b = {t: tb[t] for t in el}
        lens = sl
    cb = {t: complex(v['real'], v['imag']) if isinstance(v, dict) else v
          for t, v in b.items()}
    dw, Wm, temp = None, None, None
    if W:
        Wm = []
        for j in range(n):
            t = [[0.] * 3 for _ in range(3)]
            for a in range(3):
                for c in range(a, 3):
                    t[a][c] = t[c][a] = ctx.real(f'W{j}{a}{c}', -.02, .02) \
                        if W == 'sym' and (j, a) != (0, 1) else \
                        .01 * (1 + j) / (1 + a + 2 * c)
            Wm.append(t)
        temp = ctx.real('T', 0., 400.)
        dw = DebyeWaller(crys14(ctx, ty, masses), ctx.arr(Wm)
                         * ureg('angstrom**2'), temp * ureg('K'))
    with quiet():
        out = modes.calculate_structure_factor(scattering_lengths=lens, dw=dw) \
            if W else modes.calculate_structure_factor(lens)
    sf = out.structure_factors.to('bohr**2').magnitude
    ctx.true('unit', str(out.structure_factors.units) == 'millibarn')
    W2 = None if Wm is None else [[[x * A2B ** 2 for x in y] for y in z]
                                  for z in Wm]
    fm = conv(1., 'fm', 'bohr')
    MEV = conv(1., 'meV', 'hartree')
    for a in range(nq):
        for k in range(nm):
            ref = reference(ctx, qs[a], pos, [cb[t] * fm for t in ty], masses,
                            e[a][k], W2)
            av = f[a][k] * MEV
            if (a, k) == (1, 0):
                av = -av
            big = 0. if ctx.symbolic else 1e-13 * sum(
                abs(cb[t]) * fm / math.sqrt(m * AMU) * abs(Q * x)
                for t, m, v in zip(ty, masses, e[a][k])
                for Q, x in zip(qdot(qs[a]), v)) ** 2
            ctx.eq(f'sf {a} {k}', sf[a, k] * av * (2 * n), ref, scale_tol=0,
                   floor=big)
    ctx.eq('frequencies', out.frequencies.to('meV').magnitude, f)
    ctx.eq('q-points', out.qpts, qs)
    ctx.eq('weights', out.weights, [w0, 2.5 - w0])
    if W:
        ctx.eq('temperature', out.temperature.to('K').magnitude, temp)
    else:
        ctx.true('no temperature', out.temperature is None)
    ctx.eq('input eigenvectors', modes.eigenvectors, e)


@harness('C14', functions=FN, bounds='a Debye-Waller object with another number '
         'of atoms, wrong types of the scattering lengths', traces=1)
def rejects(ctx):
    from euphonic import QpointPhononModes, DebyeWaller, ureg
    ty = ['Na', 'Cl']
    cr = crys14(ctx, ty, [23., 35.5])
    x = ctx.reals('e', (1, 6, 2, 3), -1., 1.)
    m = QpointPhononModes(cr, ctx.const([[.1, .2, .3]]), ctx.const(
        [[1., 2., 3., 4., 5., 6.]]) * ureg('meV'), x + 0j)
    one = crys14(ctx, ['Na'], [23.])
    dw = DebyeWaller(one, ctx.reals('w', (1, 3, 3), -.1, .1)
                     * ureg('angstrom**2'), 10. * ureg('K'))
    ctx.expect_raise('different atoms', ValueError,
                     lambda: m.calculate_structure_factor(dw=dw))
    ctx.expect_raise('bad lengths', TypeError, lambda:
                     m.calculate_structure_factor(scattering_lengths=3.))
    ctx.expect_raise('missing element', KeyError, lambda:
                     m.calculate_structure_factor(
                         scattering_lengths={'Na': 1. * ureg('fm')}))


@harness('C14', functions=FN, opts={'abs_mode': 'atom'},
         bounds='130 q-points, five atoms of four elements, 15 modes; every '
         'scattering length in [-10,15] fm, every mass in [1,200] amu, with and '
         'without a given Debye-Waller tensor',
         cases=[dict(W=False), dict(W=True)], traces=1)
def many(ctx, W):
    from euphonic import QpointPhononModes, DebyeWaller, Crystal, ureg
    ty = ['Na', 'Cl', 'O', 'Na', 'H']
    n, nq = 5, 130
    el = sorted(set(ty))
    rng = np.random.default_rng(6)
    mm = {t: ctx.real('m' + t, 1., 200.) for t in el}
    b = {t: ctx.real('b' + t, -10., 15.) for t in el}
    pos = rng.uniform(-.5, 1.5, (n, 3))
    mk = lambda: Crystal(ctx.const(CELL) * ureg('angstrom'), ctx.const(pos),
                         np.array(ty), ctx.arr([mm[t] for t in ty])
                         * ureg('amu'))
    qs = rng.uniform(-3., 3., (nq, 3))
    f = rng.uniform(1., 50., (nq, 3 * n)) * rng.choice([1, 1, -1], (nq, 3 * n))
    e = rng.uniform(-1, 1, (nq, 3 * n, n, 3)) + 1j * rng.uniform(
        -1, 1, (nq, 3 * n, n, 3))
    modes = QpointPhononModes(mk(), ctx.const(qs), ctx.const(f) * ureg('meV'),
                              ctx.const(e, complex))
    Wm = np.zeros((n, 3, 3))
    kw = {}
    if W:
        A = rng.uniform(-.1, .1, (n, 3, 3))
        Wm = np.einsum('kab,kcb->kac', A, A)
        kw = dict(dw=DebyeWaller(mk(), ctx.const(Wm) * ureg('angstrom**2'),
                                 10. * ureg('K')))
    with quiet():
        out = modes.calculate_structure_factor(
            {t: v * ureg('fm') for t, v in b.items()}, **kw)
    sf = out.structure_factors.to('bohr**2').magnitude
    fm = conv(1., 'fm', 'bohr')
    MEV = conv(1., 'meV', 'hartree')
    for a in range(nq):
        if 5 < a < 120 and a % 6:
            continue
        for k in range(3 * n) if a in (0, 64, 129) else (a % 15,):
            ref = reference(ctx, qs[a], pos, [b[t] * fm for t in ty],
                            [mm[t] for t in ty], e[a, k],
                            Wm * A2B ** 2 if W else None)
            ctx.eq(f'sf {a} {k}', sf[a, k] * abs(f[a, k]) * MEV * (2 * n), ref,
                   scale_tol=1e-10)
