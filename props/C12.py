"""C12: densities of states"""
import math
import numpy as np
from vf.harness import harness
from .common import *

FN = ['QpointFrequencies.__init__', 'QpointFrequencies.calculate_dos',
      'QpointFrequencies._calculate_dos', 'QpointFrequencies.calculate_dos_map',
      'Spectrum1D.__init__', 'Spectrum2D.__init__']


def crys(ctx, n=2):
    from euphonic import Crystal, ureg
    return Crystal(ctx.const([[4., 0, 0], [0., 5., 0], [0, 0, 6.]])
                   * ureg('angstrom'), ctx.const([[.1 * i, 0, 0]
                                                  for i in range(n)]),
                   np.array(['Na', 'Cl', 'Na'][:n]),
                   ctx.const([23., 35.5, 23.][:n]) * ureg('amu'))


def mode_data(ctx, nq, nb, sym, lo, hi, fu, wt):
    """frequencies (fu), weights; only the entries listed in sym are symbolic"""
    f = [[lo + (hi - lo) * (0.15 + 0.7 * ((3 * q + 5 * b) % 7) / 6.)
          for b in range(nb)] for q in range(nq)]
    for q, b in sym:
        f[q][b] = ctx.real(f'f{q}{b}', lo - .3 * (hi - lo), hi + .3 * (hi - lo))
    w = None
    if wt == 'sym':
        w = [ctx.real(f'w{q}', 0.05, 3.) for q in range(nq)]
    return f, w


def off_edges(ctx, x, edges):
    """an energy within 1e-6 of an edge may be put on either side, as the units
    in which the comparison is made are not prescribed"""
    for e in edges:
        if bool(x <= e):
            ctx.assume(x <= e - 1e-6)
        else:
            ctx.assume(x >= e + 1e-6)


def reciprocal_of(u, v):
    """is unit u the reciprocal of v"""
    from euphonic import ureg
    return abs((1 * u * (1 * v)).to('').magnitude - 1) < 1e-12


QP = [[0., 0., 0.], [.25, 0., .1], [.5, .1, .1], [.5, .5, 0.]]
B = ('every frequency of {} modes (each in, below or above the bins, not '
     'within 1e-6 of an edge), every pair of inner bin edges, every positive set of weights; {} '
     'q-points; units {}')


@harness('C12', functions=FN, bounds=B.format('3-4', '1-3', 'meV, 1/cm, THz, '
         'hartree'), cases=[
             dict(nq=1, nb=3, sym=((0, 0), (0, 1), (0, 2)), fu='meV', bu='meV',
                  wt=None, nbin=2),
             dict(nq=2, nb=2, sym=((0, 0), (1, 1)), fu='meV', bu='1/cm',
                  wt='sym', nbin=3),
             dict(nq=3, nb=1, sym=((0, 0), (1, 0), (2, 0)), fu='THz', bu='meV',
                  wt='sym', nbin=2),
             dict(nq=2, nb=6, sym=((0, 4), (1, 2)), fu='hartree', bu='hartree',
                  wt='sym', nbin=2),
             dict(nq=2, nb=2, sym=((0, 0), (1, 1)), fu='meV', bu='1/cm',
                  wt='sym', nbin=2, shift=-7.)],
         thorough_cases=[dict(nq=2, nb=2, sym=((0, 0), (0, 1), (1, 0), (1, 1)),
                              fu='1/cm', bu='meV', wt='sym', nbin=2)],
         traces=3, opts={'max_paths': 900})
def histogram(ctx, nq, nb, sym, fu, bu, wt, nbin, shift=0.):
    from euphonic import QpointFrequencies, ureg
    f2b = (1 * ureg(fu)).to(bu).magnitude
    lo, hi = (2. + shift) / f2b, (12. + shift) / f2b
    f, w = mode_data(ctx, nq, nb, sym, lo, hi, fu, wt)
    edges = [2., 12.]
    mid = [ctx.real(f'e{i}', 2.5 + 10. * i / (nbin - 1) * .9 * .5,
                    2.5 + 10. * (i + 1) / (nbin - 1) * .9 * .5)
           for i in range(nbin - 1)]
    edges = [x + shift for x in [2.] + mid + [12.]]
    for a, b in zip(edges, edges[1:]):
        ctx.assume(b - a >= 0.1)
    qf = QpointFrequencies(crys(ctx), ctx.const(QP[:nq]), ctx.arr(f) * ureg(fu),
                           weights=None if w is None else ctx.arr(w))
    bins = ctx.arr(edges) * ureg(bu)
    s = qf.calculate_dos(bins)
    W = w or [1.] * nq
    want = [0.0] * nbin
    hit = 0.0
    for q in range(nq):
        for b in range(nb):
            x = f[q][b] * f2b
            off_edges(ctx, x, edges)
            for k in range(nbin):
                if x >= edges[k] and x < edges[k + 1]:
                    want[k] = want[k] + W[q] * (3. / nb)
                    hit = hit + W[q] * (3. / nb)
    tot = sum(W[1:], W[0])
    ctx.eq('bin contents x total weight', ctx.arr(
        [s.y_data.magnitude[k] * (edges[k + 1] - edges[k]) * tot
         for k in range(nbin)]), want)
    ctx.eq('area', sum(s.y_data.magnitude[k] * (edges[k + 1] - edges[k])
                       for k in range(nbin)) * tot, hit)
    ctx.true('units', reciprocal_of(s.y_data.units, ureg(bu)))
    ctx.eq('bins', s.x_data.to(bu).magnitude, edges)
    ctx.eq('frequencies untouched', qf.frequencies.to(fu).magnitude, f)


@harness('C12', functions=FN + ['QpointFrequencies._get_qpt_axis_and_labels'],
         bounds='3 q-points with 2 modes, two frequencies anywhere; every set of '
         'positive weights; with and without mode widths',
         cases=[dict(wide=False, bu='meV'), dict(wide=True, bu='1/cm'),
                dict(wide=True, bu='meV', wmin=.5)], traces=3)
def dos_map(ctx, wide, bu, wmin=.05):
    from euphonic import QpointFrequencies, ureg
    fu = 'meV'
    nq, nb, nbin = 3, 2, 3
    f2b = (1 * ureg(fu)).to(bu).magnitude
    f, w = mode_data(ctx, nq, nb, ((0, 1), (2, 0)), 2., 12., fu, 'sym')
    edges = [2., 5., 8.5, 12.]
    qf = QpointFrequencies(crys(ctx), ctx.const(QP[:nq]), ctx.arr(f) * ureg(fu),
                           weights=ctx.arr(w))
    kw = {}
    sig = None
    if wide:
        sig = [[ctx.real(f's{q}{b}', 0.05, 1.5) for b in range(nb)]
               for q in range(nq)]
        kw = dict(mode_widths=ctx.arr(sig) * ureg(fu),
                  mode_widths_min=wmin * ureg(fu))
        if wmin > .05:
            for r in sig:
                for x in r:
                    off_edges(ctx, x, [wmin])
            sig = [[x if x >= wmin else wmin for x in r] for r in sig]
    bins = ctx.arr([e * f2b for e in edges]) * ureg(bu)
    with quiet():
        m = qf.calculate_dos_map(bins, **kw)
    for q in range(nq):
        for b in range(nb):
            off_edges(ctx, f[q][b], edges)
    want = [[0.0] * nbin for _ in range(nq)]
    for q in range(nq):
        for b in range(nb):
            for k in range(nbin):
                if wide:
                    c = (edges[k] + edges[k + 1]) / 2
                    want[q][k] = want[q][k] + gauss(c, f[q][b], sig[q][b]) * \
                        (3. / nb)
                else:
                    if f[q][b] >= edges[k] and f[q][b] < edges[k + 1]:
                        want[q][k] = want[q][k] + 3. / nb / (edges[k + 1]
                                                             - edges[k])
    ctx.eq('one row per q-point', m.z_data.magnitude * f2b, want, scale_tol=0)
    ctx.true('units', reciprocal_of(m.z_data.units, ureg(bu)))
    ctx.eq('energy axis', m.y_data.to(bu).magnitude, [e * f2b for e in edges])
    # x: distance along the path
    B = [2 * math.pi / 4, 2 * math.pi / 5, 2 * math.pi / 6]
    x = [0.]
    for a, b in zip(QP[:nq], QP[1:nq]):
        x.append(x[-1] + math.sqrt(sum(((b[i] - a[i]) * B[i]) ** 2
                                       for i in range(3))))
    ctx.eq('x axis', m.x_data.to('1/angstrom').magnitude, x)


@harness('C12', functions=FN, bounds='bins closed below and open above: modes '
         'exactly on each of four edges (one of them zero), every set of positive '
         'weights, one more frequency anywhere; frequencies and bins in the same '
         'unit', cases=[dict(u='hartree'), dict(u='meV')], traces=2)
def on_edges(ctx, u):
    from euphonic import QpointFrequencies, ureg
    edges = [-3., 0., 2.5, 7.]
    x = ctx.real('x', -5., 9.)
    off_edges(ctx, x, edges)
    f = [[edges[0], edges[1]], [edges[2], edges[3]], [x, 2.5]]
    w = [ctx.real(f'w{q}', .05, 3.) for q in range(3)]
    qf = QpointFrequencies(crys(ctx), ctx.const(QP[:3]), ctx.arr(f) * ureg(u),
                           weights=ctx.arr(w))
    y = qf.calculate_dos(ctx.const(edges) * ureg(u)).y_data.magnitude
    tot = w[0] + w[1] + w[2]
    want = [0.0] * 3
    for q in range(3):
        for b in range(2):
            for k in range(3):
                if f[q][b] >= edges[k] and f[q][b] < edges[k + 1]:
                    want[k] = want[k] + w[q] * 1.5 / (edges[k + 1] - edges[k])
    ctx.eq('bins', ctx.arr([v * tot for v in y]), want)
    with quiet():
        z = qf.calculate_dos_map(ctx.const(edges) * ureg(u)).z_data.magnitude
    for q in range(3):
        ctx.eq(f'row {q}', z[q], [sum(1.5 / (edges[k + 1] - edges[k])
                                      for b in range(2) if f[q][b] >= edges[k]
                                      and f[q][b] < edges[k + 1])
                                  for k in range(3)])


def gauss(x, mu, s):
    z = (x - mu) / s
    return rexp(z * z * -0.5) / s * (1 / math.sqrt(2 * math.pi))


@harness('C12', functions=FN, bounds='2 q-points with 2 modes, every frequency in '
         '[2,12], every width in [0.02,2] with a lower limit in the middle of that '
         'range, every split of a total weight of 2.5; three uneven bins',
         cases=[dict(fu='meV', bu='meV', wu='meV'),
                dict(fu='THz', bu='1/cm', wu='meV')], traces=3)
def adaptive(ctx, fu, bu, wu):
    from euphonic import QpointFrequencies, ureg
    nq, nb, nbin = 2, 2, 3
    f2b = (1 * ureg(fu)).to(bu).magnitude
    f2w = (1 * ureg(fu)).to(wu).magnitude
    f = [[ctx.real(f'f{q}{b}', 2., 12.) for b in range(nb)] for q in range(nq)]
    w0 = ctx.real('w0', .05, 2.4)
    w = [w0, 2.5 - w0]
    sig = [[ctx.real(f's{q}{b}', .02, 2.) if (q, b) != (1, 0) else 0.3
            for b in range(nb)] for q in range(nq)]
    edges = [2., 5., 8.5, 12.]
    qf = QpointFrequencies(crys(ctx), ctx.const(QP[:nq]), ctx.arr(f) * ureg(fu),
                           weights=ctx.arr(w))
    wmin = 0.4
    for q in range(nq):
        for b in range(nb):
            off_edges(ctx, sig[q][b], [wmin])
    s = qf.calculate_dos(ctx.arr([e * f2b for e in edges]) * ureg(bu),
                         mode_widths=ctx.arr(sig) * f2w * ureg(wu),
                         mode_widths_min=wmin * f2w * ureg(wu))
    tot = 2.5
    want = []
    for k in range(nbin):
        v = 0.0
        for q in range(nq):
            for b in range(nb):
                sg = sig[q][b] if sig[q][b] >= wmin else wmin
                v = v + gauss((edges[k] + edges[k + 1]) / 2, f[q][b], sg) * \
                    (w[q] * (3. / nb))
        want.append(v)
    ctx.eq('sum of Gaussians x total weight', ctx.arr(
        [y * f2b * tot for y in s.y_data.magnitude]), want, scale_tol=0)


@harness('C12', functions=FN + ['broadening._width_interpolated_broadening',
                                'broadening.find_coeffs',
                                'broadening._get_spacing'],
         bounds='21 or 24 even bins, 4 modes at two q-points with given widths (a '
         'factor 1.3 to 10 apart), one frequency anywhere within a bin-sized '
         'interval, every positive weights; both fits, two errors',
         cases=[dict(err=0.01, fit='cubic', n=21, ratio=4.),
                dict(err=0.05, fit='cheby-log', n=24, ratio=10.),
                dict(err=0.001, fit='cheby-log', n=21, ratio=1.3)],
         traces=3)
def fast(ctx, err, fit, n, ratio):
    from euphonic import QpointFrequencies, ureg
    nq, nb = 2, 2
    edges = [0.5 * k for k in range(n + 1)]
    mid = edges[n // 2]
    f = [[mid - 1.6, ctx.real('f', mid - .7, mid + .3)], [mid + .3, mid + 1.2]]
    w = [ctx.real(f'w{q}', .05, 3.) for q in range(nq)]
    s0 = 0.3
    sig = [[s0, s0 * ratio ** .35], [s0 * ratio ** .8, s0 * ratio]]
    qf = QpointFrequencies(crys(ctx), ctx.const(QP[:nq]), ctx.arr(f)
                           * ureg('meV'), weights=ctx.arr(w))
    off_edges(ctx, f[0][1], edges)
    with quiet():
        s = qf.calculate_dos(ctx.arr(edges) * ureg('meV'),
                             mode_widths=ctx.arr(sig) * ureg('meV'),
                             mode_widths_min=0.01 * ureg('meV'),
                             adaptive_method='fast', adaptive_error=err,
                             adaptive_error_fit=fit)
    tot = w[0] + w[1]
    y = s.y_data.to('1/meV').magnitude
    # every mode's Gaussian sampled on the grid, centred on its bin
    diff_ok = True
    for k in range(n):
        c = (edges[k] + edges[k + 1]) / 2
        want = 0.0
        for q in range(nq):
            for b in range(nb):
                x = f[q][b]
                for j in range(n):
                    if x >= edges[j] and x < edges[j + 1]:
                        cj = (edges[j] + edges[j + 1]) / 2
                want = want + w[q] * (1.5 * math.exp(
                    -.5 * ((c - cj) / sig[q][b]) ** 2) / sig[q][b]
                    / math.sqrt(2 * math.pi))
        d = y[k] * tot - want
        # the kernels' areas differ by at most the error; so do their values
        lim = tot * (3. * 2.0 * err / s0)
        ctx.true(f'bin {k} within error', d <= lim)
        ctx.true(f'bin {k} within error (low)', d >= -lim)
    area = sum(y[k] * 0.5 for k in range(n))
    if ratio < 5:
        ctx.true('area kept', area * tot <= tot * (3 * (1 + 2e-3)))
        ctx.true('area kept (low)', area * tot >= tot * (3 * (1 - 2e-2)))


@harness('C12', functions=FN, bounds='1500 q-points with 6 modes of given '
         'frequencies, in 120 uneven bins of another unit; 8 weights anywhere in '
         '[0.05,3] (first, last and in between)', cases=[
             dict(fu='meV', bu='1/cm'), dict(fu='hartree', bu='THz')], traces=1)
def many(ctx, fu, bu):
    from euphonic import QpointFrequencies, ureg
    nq, nb, n = 1500, 6, 120
    rng = np.random.default_rng(3)
    f = np.concatenate([rng.uniform(-2., 60., (nq - 1, nb)),
                        rng.uniform(1., 5., (1, nb))])
    w = [float(x) for x in rng.uniform(.2, 2., nq)]
    for q in (0, 1, 499, 500, 999, 1000, 1024, nq - 1):
        w[q] = ctx.real(f'w{q}', .05, 3.)
    m2f, m2b = conv(1., 'meV', fu), conv(1., 'meV', bu)
    edges = np.concatenate([[-1.5], np.sort(rng.uniform(-1.5, 55., n - 1)),
                            [55.]])
    qf = QpointFrequencies(crys(ctx), ctx.const(rng.uniform(-1, 1, (nq, 3))),
                           ctx.const(f * m2f) * ureg(fu), weights=ctx.arr(w))
    s = qf.calculate_dos(ctx.const(edges * m2b) * ureg(bu))
    k = np.searchsorted(edges, f, side='right') - 1
    want = [0.0] * n
    tot = 0.0
    for q in range(nq):
        tot = tot + w[q]
        for b in range(nb):
            if 0 <= k[q, b] < n:
                want[k[q, b]] = want[k[q, b]] + w[q] * (3. / nb)
    ctx.eq('bin contents x total weight', ctx.arr(
        [s.y_data.magnitude[i] * tot for i in range(n)]),
        [want[i] * (1. / ((edges[i + 1] - edges[i]) * m2b)) for i in range(n)])


@harness('C12', functions=FN, bounds='DOS map of 300 q-points with 6 given modes '
         'in 40 bins; 6 frequencies anywhere inside one bin', cases=[{}],
         traces=1)
def long_map(ctx):
    from euphonic import QpointFrequencies, ureg
    nq, nb, n = 300, 6, 40
    rng = np.random.default_rng(4)
    edges = np.linspace(0., 40., n + 1)
    f = rng.uniform(0.5, 39.5, (nq, nb)).tolist()
    k = np.floor(np.array(f)).astype(int)
    for q in (0, 127, 128, 255, 256, nq - 1):
        f[q][2] = ctx.real(f'f{q}', 7.01, 7.99)
        k[q, 2] = 7
    qp = rng.uniform(-1, 1, (nq, 3))
    qf = QpointFrequencies(crys(ctx), ctx.const(qp), ctx.arr(f) * ureg('meV'))
    m = qf.calculate_dos_map(ctx.const(edges) * ureg('meV'))
    want = np.zeros((nq, n))
    for q in range(nq):
        for b in range(nb):
            want[q, k[q, b]] += 3. / nb
    ctx.eq('rows', m.z_data.magnitude, want)
    ctx.true('number of rows', m.z_data.shape == (nq, n))
