"""C15: S(Q,w) maps"""
import math
import numpy as np
from vf.harness import harness
from .common import *
from .C12 import off_edges, reciprocal_of, QP

FN = ['StructureFactor.__init__', 'StructureFactor.calculate_sqw_map',
      'StructureFactor.calculate_1d_average',
      'StructureFactor._bose_corrected_structure_factor',
      'StructureFactor._bose_factor', 'Spectrum1D.__init__',
      'Spectrum2D.__init__']
KB = 1. / conv(1., 'hartree', 'kelvin * boltzmann_constant')


def crys15(ctx):
    from euphonic import Crystal, ureg
    return Crystal(ctx.const([[4., 0, 0], [0., 5., 0], [0, 0, 6.]])
                   * ureg('angstrom'), ctx.const([[0., 0, 0]]),
                   np.array(['Na']), ctx.const([23.]) * ureg('amu'))


def occ(f_ha, T):
    """1/(exp(|f|/kT) - 1)"""
    return 1. / (rexp(f_ha * (1. / KB) / T) - 1.)


@harness('C15', functions=FN, bounds='1-2 q-points, three modes, each listed '
         'frequency anywhere in +-[1,13] (in, below or above the bins, not '
         'within 1e-6 of an edge), every structure factor in [0,100], every '
         'split of the weights, temperature fixed, zero, absent or anywhere in '
         '[5,600] or [0.5,600] K (in K or mK); uneven bins on both sides of zero; units meV, 1/cm, THz, '
         'hartree, mbarn, angstrom**2',
         cases=[dict(nq=1, symf=((0, 1), (0, 2)), T=50., fu='meV', bu='meV',
                     su='mbarn'),
                dict(nq=2, symf=((1, 0),), T='stored', fu='meV', bu='1/cm',
                     su='angstrom**2'),
                dict(nq=1, symf=((0, 0),), T='given', fu='THz', bu='meV',
                     su='mbarn'),
                dict(nq=1, symf=(), T='stored', fu='meV', bu='meV', su='mbarn',
                     Tlo=.5, tu='mK'),
                dict(nq=1, symf=((0, 1),), T=.25, fu='meV', bu='meV', su='mbarn',
                     tu='mK'),
                dict(nq=2, symf=((0, 1), (1, 2)), T=None, fu='meV', bu='meV',
                     su='bohr**2'),
                dict(nq=1, symf=((0, 1),), T=0., fu='meV', bu='THz', su='mbarn'),
                dict(nq=2, symf=((0, 0),), T=300., fu='1/cm', bu='meV',
                     su='mbarn'),
                dict(nq=1, symf=((0, 0), (0, 2)), T=10., fu='meV', bu='meV',
                     su='mbarn', bose=False),
                dict(nq=1, symf=((0, 0),), T=80., fu='meV', bu='meV', su='mbarn',
                     neg=True)],
         traces=3, opts={'max_paths': 500})
def maps(ctx, nq, symf, T, fu, bu, su, bose=True, neg=False, Tlo=5.,
         tu='K'):
    from euphonic import StructureFactor, ureg
    f2m = (1 * ureg(fu)).to('meV').magnitude
    m2b = (1 * ureg('meV')).to(bu).magnitude
    symf = [tuple(x) for x in symf]
    f = [[3.7 + 2.9 * b + 1.5 * q for b in range(3)] for q in range(nq)]
    fixed = T in ('stored', 'given')
    for q, b in symf:
        if fixed:
            f[q][b] = 6.2
        else:
            f[q][b] = ctx.real(f'f{q}{b}', -13. if neg else 1.,
                               -1. if neg else 13.)
    edges = [-12., -8., -5.5, 0., 2., 5., 8.5, 12.]
    nb = len(edges) - 1
    for row in f:
        for x in row:
            off_edges(ctx, x, edges)
            off_edges(ctx, -x, edges)
    s = ctx.reals('s', (nq, 3), 0., 100.)
    w0 = ctx.real('w0', .05, 2.4)
    w = [w0, 2.5 - w0][:nq]
    if nq == 1:
        w = [2.5]
    t, tkw, stored = None, {}, None
    if fixed:
        t = ctx.real('T', Tlo, 600.)
    elif T is not None:
        t = T
    if t is not None:
        how = {'stored': ['stored'], 'given': ['given']}.get(
            T, ['stored', 'given'] if nq == 1 and tu == 'K'
            else ['stored', 'both'])
        how = ctx.choice('how', how)
        if how in ('stored', 'both'):
            stored = t * ureg('K')
        if how in ('given', 'both'):
            tkw = dict(temperature=t * conv(1., 'K', tu) * ureg(tu))
    obj = StructureFactor(
        crys15(ctx), ctx.const(QP[:nq]),
        ctx.arr([[x / f2m for x in r] for r in f]) * ureg(fu), s * ureg(su),
        weights=ctx.arr(w), temperature=stored)
    bins = ctx.arr([e * m2b for e in edges]) * ureg(bu)
    kw = dict(tkw, calc_bose=bose) if not bose else tkw
    with quiet():
        out = obj.calculate_sqw_map(bins, **kw)
        avg = obj.calculate_1d_average(bins, **kw)
        v0 = ctx.real('v0', .05, 2.4)
        v = [v0, 2.5 - v0][:nq] if nq == 2 else [.7]
        avg2 = obj.calculate_1d_average(bins, weights=ctx.arr(v), **kw)
    # in the caller's units, without the occupation denominators
    want = [[0.0] * nb for _ in range(nq)]
    for q in range(nq):
        for b in range(3):
            x = f[q][b]
            ax = -x if neg and (q, b) in symf else x
            if not bose or t is None:
                n, n1 = 1.0, 1.0
            elif T == 0.:
                n, n1 = 0.0, 1.0
            else:
                n = occ(ax * conv(1., 'meV', 'hartree'), t)
                n1 = n + 1.0
            for y, oc in ((x, n1), (-x, n)):
                for k in range(nb):
                    if y >= edges[k] and y < edges[k + 1]:
                        want[q][k] = want[q][k] + s[q, b] * oc * (
                            1. / (edges[k + 1] - edges[k]) / m2b)
    z = out.z_data.magnitude
    ctx.eq('map', z, want, scale_tol=0)
    ctx.true('units', reciprocal_of(out.z_data.units / ureg(su), ureg(bu)))
    ctx.eq('bins', out.y_data.to(bu).magnitude, [e * m2b for e in edges])
    for nm, o, ww in (('stored weights', avg, w), ('given weights', avg2, v)):
        tot = 2.5 if nq == 2 else ww[0]
        ctx.eq(nm, o.y_data.magnitude, [
            sum(z[q, k] * ww[q] for q in range(nq)) * (1. / tot)
            for k in range(nb)], scale_tol=0)
        ctx.true('units of the average', reciprocal_of(
            o.y_data.units / ureg(su), ureg(bu)))
        ctx.eq('bins of the average', o.x_data.to(bu).magnitude,
               [e * m2b for e in edges])
    ctx.eq('structure factors kept', obj.structure_factors.magnitude, s)
    ctx.eq('frequencies kept', obj.frequencies.to('meV').magnitude, f)


@harness('C15', functions=FN, bounds='one mode pair: every frequency in [1,13] '
         'meV, temperature 5-600 K: the two sides of the map',
         cases=[dict(which='f'), dict(which='T')], traces=2)
def balance(ctx, which):
    from euphonic import StructureFactor, ureg
    f = ctx.real('f', 1.01, 12.9) if which == 'f' else 4.4
    T = ctx.real('T', 5., 600.) if which == 'T' else 35.
    s = ctx.reals('s', (1, 3), .01, 100.)
    obj = StructureFactor(crys15(ctx), ctx.const(QP[:1]), ctx.arr(
        [[f, f + 20., f + 40.]]) * ureg('meV'), s * ureg('mbarn'))
    edges = [-60., -39., -19., -13., 0., 13., 19., 39., 60.]
    with quiet():
        z = obj.calculate_sqw_map(ctx.const(edges) * ureg('meV'), temperature=T
                                  * ureg('K')).z_data.magnitude[0]
    wd = np.diff(edges)
    ex = rexp(f * conv(1., 'meV', 'hartree') * (1. / KB) / T)
    tot = [z[k] * float(wd[k]) for k in range(8)]
    # intensity: sum over both sides is (2n+1) S for each mode
    up = tot[4]
    down = tot[3]
    ctx.eq('detailed balance', up, down * ex, scale_tol=0)
    ctx.eq('conserved', up - down, s[0, 0], scale_tol=0)
    ctx.eq('conserved 2', sum(tot[5:]) - sum(tot[:3]), s[0, 1] + s[0, 2],
           scale_tol=0)


@harness('C15', functions=['StructureFactor._bose_factor'],
         bounds='every stored temperature in [1,600] K, every other temperature '
         'more than 1e-3 relative away', traces=2)
def temperatures(ctx):
    from euphonic import StructureFactor, ureg
    t = ctx.real('t', 1., 600.)
    u = ctx.real('u', 1., 600.)
    obj = StructureFactor(crys15(ctx), ctx.const(QP[:1]), ctx.const(
        [[1., 2., 3.]]) * ureg('meV'), ctx.const([[1., 2., 3.]])
        * ureg('mbarn'), temperature=t * ureg('K'))
    bins = ctx.const([0., 5., 10.]) * ureg('meV')
    far = ctx.choice('side', ['above', 'below'])
    ctx.assume(u >= t * 1.001 if far == 'above' else u <= t * .999)
    ctx.expect_raise('inconsistent temperature', ValueError,
                     lambda: obj.calculate_1d_average(
                         bins, temperature=u * ureg('K')))


@harness('C15', functions=FN, bounds='220 q-points with 9 modes of given '
         'frequencies of either sign in 70 uneven bins, 5 structure factors '
         'anywhere in [0,100] and 4 weights anywhere in [0.1,2]', cases=[
             dict(T=120., bu='1/cm'), dict(T=None, bu='meV')], traces=1)
def many(ctx, T, bu):
    from euphonic import StructureFactor, Crystal, ureg
    nq, nm, n = 220, 9, 70
    rng = np.random.default_rng(8)
    f = rng.uniform(.5, 40., (nq, nm)) * rng.choice([1., 1., 1., -1.], (nq, nm))
    s = rng.uniform(0., 50., (nq, nm)).tolist()
    for q, b in ((0, 0), (100, 8), (128, 3), (199, 4), (219, 8)):
        s[q][b] = ctx.real(f's{q}', 0., 100.)
    w = rng.uniform(.1, 2., nq).tolist()
    for q in (0, 100, 128, 219):
        w[q] = ctx.real(f'w{q}', .1, 2.)
    m2b = conv(1., 'meV', bu)
    edges = np.concatenate([[-35.], np.sort(rng.uniform(-35., 36., n - 1)),
                            [36.]])
    cr = Crystal(ctx.const(np.diag([4., 5., 6.])) * ureg('angstrom'),
                 ctx.const([[0., 0, 0], [.2, .3, .4], [.7, .5, .1]]),
                 np.array(['Na', 'Cl', 'H']), ctx.const([23., 35., 1.])
                 * ureg('amu'))
    obj = StructureFactor(cr, ctx.const(rng.uniform(-2, 2, (nq, 3))),
                          ctx.const(f) * ureg('meV'), ctx.arr(s)
                          * ureg('mbarn'), weights=ctx.arr(w),
                          temperature=None if T is None else T * ureg('K'))
    with quiet():
        out = obj.calculate_sqw_map(ctx.const(edges * m2b) * ureg(bu))
        avg = obj.calculate_1d_average(ctx.const(edges * m2b) * ureg(bu))
    want = [[0.0] * n for _ in range(nq)]
    kT = None if T is None else T / conv(1., 'meV', 'kelvin*boltzmann_constant')
    for q in range(nq):
        for b in range(nm):
            x = f[q, b]
            o = 0. if T is None else 1. / math.expm1(abs(x) / kT)
            for y, c in ((abs(x), o + 1.), (-abs(x), o)) if T is not None else (
                    (x, 1.), (-x, 1.)):
                k = int(np.searchsorted(edges, y, side='right')) - 1
                if T is not None and x < 0:
                    # the mode adds n + 1 at its energy, here a negative one
                    k = int(np.searchsorted(edges, -y, side='right')) - 1
                if 0 <= k < n:
                    want[q][k] = want[q][k] + s[q][b] * (
                        c / (edges[k + 1] - edges[k]) / m2b)
    ctx.eq('map', out.z_data.magnitude, want, tol=1e-6)
    tot = sum(w[1:], w[0])
    ctx.eq('average', ctx.arr([y * tot for y in avg.y_data.magnitude]), [
        sum((want[q][k] * w[q] for q in range(nq)), 0.0) for k in range(n)],
        tol=1e-6)
