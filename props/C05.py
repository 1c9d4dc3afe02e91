"""C05: LO-TO splitting at the zone centre"""
import numpy as np
from vf.harness import harness
from .common import *

FN = ['ForceConstants._get_q_dirs', 'ForceConstants._calculate_gamma_correction',
      'ForceConstants._calculate_phonons_at_qpts (insert_gamma, weights)',
      'ForceConstants._calculate_phonons_at_q', 'util.is_gamma']
EPS = [[2., .3, -.2], [.3, 3., .1], [-.2, .1, 2.5]]

A, B, C_ = [0.1, 0.2, -0.3], [0.25, 0., 0.], [-0.2, 0.3, 0.4]
G0 = [0., 0., 0.]
G1 = [1., 0., -1.]
LISTS = {
    'first': [G0, A, B], 'last': [A, B, G0], 'mid': [A, G0, B],
    'double': [A, G0, G0, B], 'alone': [G0], 'equiv': [A, G1, B, G0, C_],
    'many': [G0, A, G0, B, G0], 'ends': [G0, B, G0], 'far': [[.3, 0., 0.], G1],
    'adjg': [A, G0, [0., 1., 0.], B],
    'adjg2': [A, G1, G0, B], 'adjfirst': [G0, G0, A], 'adjlast': [A, G0, G0], 'pair': [G0, A],
    'farfirst': [G1, [.7, .2, -1.], A], 'farmid': [A, [2., 0., 1.], [1.6, .3, 1.]],
}


def na_ref(ctx, geo, born, eps, d):
    """(4 pi / V) (q.Z_i)_a (q.Z_j)_b / (q.eps.q)"""
    import math
    cell = np.array(geo['cell']) * conv(1., 'angstrom', 'bohr')
    V = abs(np.linalg.det(cell))
    rec = 2 * math.pi * np.linalg.inv(cell).T
    q = [sum(d[k] * float(rec[k, a]) for k in range(3)) for a in range(3)]
    den = sum(q[a] * eps[a][b] * q[b] for a in range(3) for b in range(3))
    n = len(geo['r'])
    z = [sum(born[i, a, b] * q[b] for b in range(3)) for i in range(n)
         for a in range(3)]
    return [[z[i] * z[j] / den * (4 * math.pi / V) for j in range(3 * n)]
            for i in range(3 * n)]


def isg(q):
    return all(abs(x - round(x)) < 1e-12 for x in q)


def direction(qs, k):
    qs = [np.array(x, float) for x in qs]
    if len(qs) == 1:
        return None
    if k == 0:
        d = qs[1] - qs[0]
    elif k == len(qs) - 1:
        d = qs[k] - qs[k - 1]
    else:
        d = qs[k + 1] - qs[k]
        if isg(d):
            d = qs[k] - qs[k - 1]
    return None if isg(d) else list(d)


def insert(qs):
    out, src = [], []
    for k, q in enumerate(qs):
        if isg(q) and 0 < k < len(qs) - 1:
            out.append(q)
            src.append(k)
        out.append(q)
        src.append(k)
    return out, src


@harness('C05', functions=FN, bounds='two atoms in a triclinic or cubic cell, '
         'non-diagonal dielectric tensor, every Born charge tensor in [-3,3], '
         'the listed arrangements of zone centres in the list, reduce_qpts on/off, '
         'with and without insert_gamma', cases=[
             dict(which=w, ins=i) for w in LISTS for i in (False, True)
             if not (i and w in ('double', 'alone', 'pair', 'far', 'farfirst', 'adjfirst',
                                 'adjg', 'adjg2',
                                 'adjlast'))],
         traces=2)
def split(ctx, which, ins):
    g = 'tri2u'
    geo = GEOM[g]
    qs = LISTS[which]
    n = 2
    born = ctx.reals('z', (n, 3, 3), -3., 3.)
    fc = ctx.const(conc_fc(geo, 5))
    m = [23., 35.5]
    kw = dict(mass=ctx.const(m), fc=fc, born=born, dielectric=ctx.const(EPS))
    red = ctx.choice('reduce', [True, False])
    Q = ctx.const(qs)
    wts = ctx.reals('w', len(qs), 0.1, 2.) if ins else None
    wkeep = None if wts is None else [wts[i] for i in range(len(qs))]
    args = dict(use_c=False, reduce_qpts=red)
    with EchoEigh(ctx):
        r = make_fc(ctx, g, **kw)[0].calculate_qpoint_phonon_modes(
            Q, weights=wts, splitting=True, insert_gamma=ins, **args)
        base = make_fc(ctx, g, **kw)[0].calculate_qpoint_phonon_modes(
            Q, splitting=False, insert_gamma=ins, **args)
    ctx.eq('input q-points', Q, qs)
    ctx.eq('unsplit q-points', base.qpts, qs)
    out, src = insert(qs) if ins else (qs, list(range(len(qs))))
    ctx.eq('q-points', r.qpts, out)
    if wts is not None:
        ctx.eq('caller weights', wts, wkeep)
        ctx.eq('weights', r.weights, [
            wkeep[s] * (0.5 if src.count(s) == 2 else 1.0) for s in src])
    ma = [conv(x, 'amu', 'electron_mass') for x in m for _ in range(3)]
    for k, s in enumerate(src):
        D = echo_matrix(ctx, r, k)
        D0 = echo_matrix(ctx, base, s)
        d = direction(out, k) if isg(out[k]) else None
        ref = na_ref(ctx, geo, born, EPS, d) if d is not None else None
        want = [[D0[i, j] + (0.0 if ref is None else ref[i][j] / root(
            ma[i] * ma[j])) for j in range(6)] for i in range(6)]
        ctx.eq(f'row {k}', D, ctx.arr(want))


@harness('C05', functions=FN, bounds='options without splitting: dipole off, '
         'no Born charges, splitting off', traces=2)
def off(ctx):
    g = 'tri2u'
    geo = GEOM[g]
    fc = herm_fc(ctx, 'fc', ws_images(geo)[0], geo['sc'], 2)
    born = ctx.reals('z', (2, 3, 3), -3., 3.)
    kw = dict(mass=ctx.const([23., 35.5]), fc=fc)
    Q = ctx.const([A, G0, B])
    with EchoEigh(ctx):
        plain = make_fc(ctx, g, **kw)[0].calculate_qpoint_phonon_modes(
            Q, use_c=False, splitting=True, insert_gamma=True, dipole=True)
        nod = make_fc(ctx, g, born=born, dielectric=ctx.const(EPS), **kw)[0] \
            .calculate_qpoint_phonon_modes(
                Q, use_c=False, splitting=True, insert_gamma=True, dipole=False)
    ctx.eq('qpts', plain.qpts, Q)
    ctx.eq('qpts', nod.qpts, Q)
    cells, ims = ws_images(geo)
    ma = [conv(x, 'amu', 'electron_mass') for x in (23., 35.5)]
    for k in range(3):
        ref = dyn_mat_ref(ctx, fc, [A, G0, B][k], cells, ims, 2, ma)
        ctx.eq(f'no charges {k}', echo_matrix(ctx, plain, k), ref)
        ctx.eq(f'dipole off {k}', echo_matrix(ctx, nod, k), ref)


@harness('C05', functions=['ForceConstants._calculate_gamma_correction'],
         bounds='every direction with components in [0.01,0.49], every '
         'symmetric dielectric tensor with diagonal [2,5] and off-diagonal '
         '[-0.5,0.5], every Born charge in [-3,3], triclinic and fcc cells',
         cases=[dict(g='tri2u'), dict(g='fcc2u')])
def formula(ctx, g):
    geo = GEOM[g]
    n = len(geo['r'])
    eps = tensor33(ctx, 'eps', -.5, .5, diag=(2., 5.))
    born = ctx.reals('z', (n, 3, 3), -3., 3.)
    obj = make_fc(ctx, g, mass=ctx.const([23., 35.5]),
                  fc=ctx.const(conc_fc(geo, 5)), born=born, dielectric=eps)[0]
    d = ctx.reals('d', (3,), .01, .49)
    if not hasattr(obj, '_calculate_gamma_correction'):
        ctx.note('no separate non-analytic term function')
        ctx.true('absent', True)
        return
    got = obj._calculate_gamma_correction(d)
    ctx.eq('non-analytic term', got, ctx.arr(na_ref(
        ctx, geo, born, [[eps[i, j] for j in range(3)] for i in range(3)],
        [d[i] for i in range(3)])))
