"""C20: broadening of spectra"""
import copy as cp
import math
import numpy as np
from vf.harness import harness
from .common import *
from .C12 import off_edges
from .C18 import Spec, FACTOR

FN = ['Spectrum1D.broaden', 'Spectrum1DCollection.broaden',
      'Spectrum2D.broaden', 'Spectrum._broaden_data',
      'Spectrum._gfwhm_to_sigma', 'spectra._distribution_1d',
      'spectra._get_dist_bins', 'spectra._lorentzian',
      'Spectrum.get_bin_centres', 'Spectrum.get_bin_edges']
FV = ['Spectrum1D.broaden', 'Spectrum1DCollection.broaden',
      'Spectrum2D._broaden_spectrum2d_with_function',
      'broadening.variable_width_broadening',
      'broadening.width_interpolated_broadening',
      'broadening._width_interpolated_broadening', 'broadening.find_coeffs',
      'broadening._get_spacing', 'broadening._lorentzian']
R8 = math.sqrt(8 * math.log(2))


def pdf(shape, d, fwhm):
    if shape == 'gauss':
        s = fwhm / R8
        return math.exp(-.5 * (d / s) ** 2) / (s * math.sqrt(2 * math.pi))
    return fwhm / (2 * math.pi * (d * d + fwhm * fwhm / 4))


def mk(ctx, kind, n, h, edges=True, nc=2, ny=2, hy=1., yedges=True, xu='meV',
       yu='1/meV', zu='mbarn/meV'):
    x0, y0 = -1.5, 3.
    return Spec(ctx, kind, n=n, ny=ny, nc=nc, edges=edges, yedges=yedges, xu=xu,
                yu=yu, zu=zu, xs=[x0 + h * i for i in range(n + int(edges))],
                ys=[y0 + hy * i for i in range(ny + int(yedges))])


def centres(x, edges):
    return [(a + b) / 2 for a, b in zip(x, x[1:])] if edges else list(x)


def within(ctx, label, got, want, lim):
    """|got - want| <= lim for every entry"""
    g = np.asarray(got, dtype=object)
    w = np.asarray(want, dtype=object)
    if g.shape != w.shape:
        ctx.true(label + ' shape', False, f'{g.shape} for {w.shape}')
        return
    for i, (a, b) in enumerate(zip(g.ravel(), w.ravel())):
        d = a - b
        ctx.true(f'{label} [{i}]', (d <= lim) & (d >= -lim)
                 if not isinstance(d, float) else abs(d) <= lim)


def kernel_sum(v, xc, h, fwhm, shape):
    """v (list along the axis) broadened with the exact kernel of each sample"""
    n = len(xc)
    fw = fwhm if isinstance(fwhm, list) else [fwhm] * n
    return [sum((v[j] * (h * pdf(shape, xc[i] - xc[j], fw[j]))
                 for j in range(1, n)), v[0] * (
        h * pdf(shape, xc[i] - xc[0], fw[0]))) for i in range(n)]


@harness('C20', functions=FN, bounds='1D spectra and collections (2 members) of '
         '7 or 8 equal bins, given as edges or centres, every value in [-5,5]; '
         'Gaussian FWHM between 2.2 and 6 bins in another unit than the axis; '
         'truncation below 1e-3',
         cases=[dict(kind='1D', n=8, h=.5, w=1.3, edges=True, xu='meV',
                     wu='1/cm'),
                dict(kind='1D', n=7, h=4., w=9., edges=False, xu='1/cm',
                     wu='meV'),
                dict(kind='1DC', n=7, h=.5, w=1.2, edges=True, xu='meV',
                     wu='THz'),
                dict(kind='1DC', n=7, h=.25, w=1.4, edges=False,
                     xu='1/angstrom', wu='1/bohr')], traces=2)
def fixed_gauss(ctx, kind, n, h, w, edges, xu, wu):
    from euphonic import ureg
    f = FACTOR.get((xu, wu)) or 1 / FACTOR[(wu, xu)]
    S = mk(ctx, kind, n, h, edges=edges, xu=xu)
    wid = w * f * ureg(wu)
    r = S.s.broaden(wid)
    xc = centres(S.x, edges)
    rows = np.asarray(S.v, dtype=object).reshape((-1, n))
    want = np.array([kernel_sum(list(v), xc, h, w, 'gauss') for v in rows],
                    dtype=object).reshape(np.shape(S.v))
    within(ctx, 'Gaussian sum', r.y_data.to('1/meV').magnitude, want, 5e-3)
    S.expect(ctx, 'input untouched')
    S.expect(ctx, 'axes, labels, metadata of the result', s=r,
             v=r.y_data.to('1/meV').magnitude)
    ctx.true('independent of the input', r is not S.s
             and r.metadata is not S.s.metadata)


@harness('C20', functions=FN, bounds='one unit peak (position fixed) in 9 bins; '
         'every Gaussian FWHM within [0.5,8] bins',
         cases=[dict(h=.5, xu='meV', wu='1/cm', lo=.5, hi=3., kind='1D'),
                dict(h=2., xu='1/angstrom', wu='1/nm', lo=3., hi=8.,
                     kind='1DC')],
         traces=3, opts={'max_paths': 60})
def width_symbolic(ctx, h, xu, wu, lo, hi, kind):
    """the response to a peak is a Gaussian of the requested FWHM: symmetric,
    r(k) / r(0) = 2**-(2kh/w)**2, whatever the width"""
    from euphonic import Spectrum1D, Spectrum1DCollection, ureg
    n, j = 9, 4
    w = ctx.real('w', lo * h, hi * h)
    # keep off the widths where one more bin is included
    off_edges(ctx, 4. * w / R8 / h + .5, range(1, 17))
    f = FACTOR[(xu, wu)]
    y = [0.] * n
    y[j] = 1.
    x = ctx.const([h * i for i in range(n + 1)]) * ureg(xu)
    if kind == '1D':
        s = Spectrum1D(x, ctx.const(y) * ureg('1/meV'))
    else:
        s = Spectrum1DCollection(x, ctx.const([y, y]) * ureg('1/meV'))
    r = s.broaden(w * f * ureg(wu))
    out = np.asarray(r.y_data.magnitude, dtype=object).reshape((-1, n))
    sg2 = w * w * (1 / R8 / R8)
    radius = 4. * w / R8 / h + .5
    for row in out:
        for k in range(1, 5):
            ctx.true(f'symmetric {k}', row[j - k] == row[j + k])
            if k <= int(radius):
                ctx.eq(f'profile {k}', row[j + k], row[j] * rexp(
                    (-.5 * k * k * h * h) / sg2), scale_tol=0)
        tot = sum(row[i] for i in range(1, n)) + row[0]
        ctx.true('integral kept', tot <= 1 + 1e-6)
        if radius < 5.:
            ctx.true('integral kept (low)', tot >= 1 - 1e-6)


@harness('C20', functions=FN, bounds='2D spectra of 6 x 6 equal bins (edges or '
         'centres); every value; Gaussian width along x, y or both, in other '
         'units than the axes',
         cases=[dict(ax='x', edges=True, yedges=True),
                dict(ax='y', edges=False, yedges=True),
                dict(ax='xy', edges=True, yedges=False)], traces=2)
def fixed_2d(ctx, ax, edges, yedges):
    from euphonic import ureg
    n, ny, h, hy = 6, 5, .3, 1.5
    S = mk(ctx, '2D', n, h, edges=edges, ny=ny, hy=hy, yedges=yedges,
           xu='1/angstrom', yu='meV', zu='1/meV')
    wx, wy = .9, 4.2
    kw = {}
    if 'x' in ax:
        kw['x_width'] = wx * FACTOR[('1/angstrom', '1/bohr')] * ureg('1/bohr')
    if 'y' in ax:
        kw['y_width'] = wy * FACTOR[('meV', 'THz')] * ureg('THz')
    with quiet():
        r = S.s.broaden(**kw)
    v = np.asarray(S.v, dtype=object)
    if 'x' in ax:
        xc = centres(S.x, edges)
        v = np.array([kernel_sum(list(v[:, j]), xc, h, wx, 'gauss')
                      for j in range(ny)], dtype=object).T
    if 'y' in ax:
        yc = centres(S.y, yedges)
        v = np.array([kernel_sum(list(v[i]), yc, hy, wy, 'gauss')
                      for i in range(n)], dtype=object)
    z = r.z_data.to('1/meV').magnitude
    within(ctx, 'Gaussian sum', z, v, 8e-3)
    S.expect(ctx, 'input untouched')
    S.expect(ctx, 'axes, labels, metadata', s=r, v=z)


@harness('C20', functions=FN, bounds='7 equal bins (edges or centres), every '
         'value; Lorentzian FWHM of 2 bins; 1D, collection, 2D along x or y',
         cases=[dict(kind='1D', edges=True, ax='x'),
                dict(kind='1DC', edges=False, ax='x'),
                dict(kind='2D', edges=True, ax='x'),
                dict(kind='2D', edges=True, ax='y')], traces=2)
def fixed_lorentz(ctx, kind, edges, ax):
    from euphonic import ureg
    n, h, w = 7, .5, 1.
    m = 2
    if ax == 'x':
        S = mk(ctx, kind, n, h, edges=edges, ny=m, xu='meV',
               yu='1/meV' if kind != '2D' else '1/angstrom', zu='1/meV')
    else:
        S = mk(ctx, kind, m, 1., edges=edges, ny=n, hy=h, xu='1/angstrom',
               yu='meV', zu='1/meV')
    wid = w * FACTOR[('meV', '1/cm')] * ureg('1/cm')
    with quiet():
        r = S.s.broaden(**{ax + '_width': wid}, shape='lorentz')
    d = getattr(r, S.dataax + '_data').to('1/meV').magnitude
    got = np.asarray(d, dtype=object)
    v = np.asarray(S.v, dtype=object)
    if ax == 'x' and kind == '2D':
        got, v = got.T, v.T
    got, v = got.reshape((-1, n)), v.reshape((-1, n))
    # normalised over a window of at least the axis on both sides of the peak;
    # the width itself is decided in lorentz_profile
    xc = [h * i for i in range(n)]
    want = [kernel_sum(list(row), xc, h, w, 'lorentz') for row in v]
    within(ctx, 'Lorentzian sum', got, want, 35. * .07)
    S.expect(ctx, 'input untouched')
    S.expect(ctx, 'axes, labels, metadata', s=r, v=d)
    # shift invariance: one kernel for all bins, symmetric
    ctx.true('result independent of the input', r is not S.s)


@harness('C20', functions=FN, bounds='one peak in the middle of 4 or 5 equal bins, '
         'every Lorentzian FWHM in [1,6] bins; up to 21 bins with given widths '
         'and every height',
         cases=[dict(n=4, ax='x'), dict(n=5, ax='x'), dict(n=5, ax='y')] + [
             dict(n=n, ax=ax, w=w) for n, w, ax in (
                 (9, .5, 'x'), (12, 1.7, 'y'), (21, 4., 'x'), (8, 3., 'x'))],
         traces=3)
def lorentz_profile(ctx, n, ax, w=None):
    """r(k) (1 + (2kh/w)**2) = r(0)"""
    from euphonic import Spectrum1D, Spectrum2D, ureg
    h = .5
    given = w is not None
    w = w or ctx.real('w', 1. * h, 6. * h)
    j = n // 2
    y = [0.] * n
    y[j] = top = ctx.real('peak', .1, 5.) if given else 1.
    e = ctx.const([h * i for i in range(n + 1)]) * ureg('meV')
    wid = w * FACTOR[('meV', 'THz')] * ureg('THz')
    with quiet():
        if ax == 'x':
            r = Spectrum1D(e, ctx.arr(y) * ureg('1/meV')).broaden(
                wid, shape='lorentz').y_data.magnitude
        else:
            r = Spectrum2D(ctx.const([0., 1., 2.]) * ureg('1/angstrom'), e,
                           ctx.arr([y, [2 * a for a in y]]) * ureg('mbarn')
                           ).broaden(y_width=wid, shape='lorentz'
                                     ).z_data.magnitude
            ctx.eq('rows scale', r[1], [2 * a for a in r[0]])
            r = r[0]
    tot = sum(r[i] for i in range(1, n)) + r[0]
    if given:
        ctx.true('integral not above that of the data', tot <= top * (1 + 1e-9))
        ctx.true('most of the integral kept', tot >= top * .5)
    for k in range(1, n - j):
        ctx.eq(f'symmetric {k}', r[j - k], r[j + k])
        ratio = r[j + k] * (w * w + 4 * k * k * h * h)
        # (n/(n-1))**2 on the squared width at most
        up = (n / (n - 1.)) ** 2
        ctx.true(f'decays no faster than FWHM {k}',
                 ratio >= r[j] * w * w * (1 - 1e-6))
        ctx.true(f'close to FWHM {k}', r[j + k] * (
            w * w * up + 4 * k * k * h * h) <= r[j] * w * w * up * (1 + 1e-6))
    for k in range(1, n - j):
        ctx.true('FWHM is the requested one', r[j + k] * (
            w * w + 4 * k * k * h * h) <= r[j] * w * w * (1 + 1e-6))


def wfun(ctx, unit, a, b, x_unit):
    """width(x) = a + b x, in unit, x taken in x_unit"""
    from euphonic import ureg

    def f(x):
        return (x.to(x_unit).magnitude * b + a) * ureg(unit)
    return f


# (relative to the height of the narrowest kernel)
@harness('C20', functions=FV, bounds='12 or 13 equal bins as edges, every value; '
         'widths linear in the energy, between 2 and 5 bins FWHM; width units '
         'other than the axis; both fits, both shapes, both conventions',
         cases=[dict(kind='1D', n=12, conv='fwhm', shape='gauss', fit='cubic',
                     err=.01),
                dict(kind='1D', n=13, conv='std', shape='gauss',
                     fit='cheby-log', err=.01),
                dict(kind='1DC', n=12, conv='FWHM', shape='gauss',
                     fit='cheby-log', err=.001),
                dict(kind='1D', n=13, conv='fwhm', shape='lorentz',
                     fit='cheby-log', err=.01),
                dict(kind='2Dx', n=12, conv='fwhm', shape='gauss',
                     fit='cheby-log', err=.01),
                dict(kind='2Dy', n=13, conv='std', shape='gauss',
                     fit='cheby-log', err=.01)], traces=2)
def variable(ctx, kind, n, conv, shape, fit, err):
    from euphonic import ureg
    h = .5
    c = R8 if conv == 'std' else 1.
    # FWHM at the first and last centre: 2.6 and 5 bins (sigma > 1 bin)
    xc = [-1.5 + h * (i + .5) for i in range(n)]
    a, b = 0., 0.
    w0, w1 = 2.6 * h, 4.4 * h
    b = (w1 - w0) / (xc[-1] - xc[0])
    a = w0 - b * xc[0]
    f = FACTOR[('meV', 'THz')]
    fun = wfun(ctx, 'THz', a * f / c, b * f / c, 'meV')
    fw = [a + b * x for x in xc]
    lim = ctx_limit(ureg)
    kw = dict(shape=shape, width_convention=conv, width_fit=fit,
              width_interpolation_error=err)
    if kind[0] == '1':
        S = mk(ctx, kind, n, h)
        with quiet():
            r = S.s.broaden(fun, width_lower_limit=lim, **kw)
        got = np.asarray(r.y_data.to('1/meV').magnitude, dtype=object)
        v = np.asarray(S.v, dtype=object)
        S.expect(ctx, 'input untouched')
    else:
        if kind == '2Dx':
            S = mk(ctx, '2D', n, h, ny=2, xu='meV', yu='1/angstrom', zu='1/meV')
        else:
            S = Spec(ctx, '2D', n=2, ny=n, edges=True, yedges=True,
                     xu='1/angstrom', yu='meV', zu='1/meV', xs=[0., 1., 2.],
                     ys=[-1.5 + h * i for i in range(n + 1)])
        ax = kind[-1]
        with quiet():
            r = S.s.broaden(**{ax + '_width': fun,
                               ax + '_width_lower_limit': lim}, **kw)
        got = np.asarray(r.z_data.to('1/meV').magnitude, dtype=object)
        v = np.asarray(S.v, dtype=object)
        S.expect(ctx, 'input untouched')
        S.expect(ctx, 'axes, labels, metadata', s=r, v=got)
        if ax == 'x':
            got, v = got.T, v.T
    if kind == '1D':
        S.expect(ctx, 'axes, labels, metadata', s=r, v=got)
    if kind == '1DC':
        ctx.true('metadata of every line',
                 list(r.iter_metadata()) == list(S.s.iter_metadata()))
        ctx.true('tick labels', r.x_tick_labels == S.labels)
    got, v = got.reshape((-1, n)), v.reshape((-1, n))
    peak = h * pdf(shape, 0., w0)
    for k, (g, row) in enumerate(zip(got, v)):
        # linear in the data: decide each coefficient separately
        for i in range(n):
            want = [h * pdf(shape, xc[i] - xc[j], fw[j]) for j in range(n)]
            diff = g[i]
            slack = 0.
            for j in range(n):
                # the kernels are cut off half an axis away from the peak
                if abs(i - j) >= n // 2 and shape == 'lorentz':
                    slack += 5. * want[j]
                    continue
                diff = diff - row[j] * want[j]
            tol = 5. * n * (4. * err * peak) / 3 + slack
            if shape == 'lorentz':
                tol += 5 * n * .01 * peak
            ctx.true(f'row {k} bin {i}', (diff <= tol) & (diff >= -tol)
                     if not isinstance(diff, float) else abs(diff) <= tol)


def ctx_limit(ureg):
    return 1e-3 * ureg('THz')


@harness('C20', functions=FV, bounds='one unit peak at a given bin of 13 bins of '
         'h=0.5; constant width function of every value in [0.02,6] bins and a '
         'lower limit (explicit, the default bin width, or none)',
         cases=[dict(limit=None, shape='gauss', conv='std'),
                dict(limit=1.4, shape='gauss', conv='std'),
                dict(limit=1.4, shape='gauss', conv='std', kind='1DC'),
                dict(limit=1.4, shape='gauss', conv='std', kind='2Dx'),
                dict(limit=1.4, shape='gauss', conv='std', kind='2Dy'),
                dict(limit=None, shape='gauss', conv='std', kind='2Dy'),
                dict(limit=None, shape='lorentz', conv='fwhm'),
                dict(limit=1.4, shape='lorentz', conv='fwhm')],
         traces=3, opts={'max_paths': 60})
def lower_limit(ctx, limit, shape, conv, kind='1D'):
    """a peak is no narrower than the limit, and as wide as asked above it"""
    from euphonic import Spectrum1D, Spectrum1DCollection, Spectrum2D, ureg
    n, h, j = 13, .5, 6
    w = ctx.real('w', .02, 3.)
    y = [0.] * n
    y[j] = 1.
    X = ctx.const([h * i for i in range(n + 1)]) * ureg('meV')
    Q = ctx.const([0., 1., 2.5]) * ureg('1/angstrom')
    if kind == '1D':
        s = Spectrum1D(X, ctx.const(y) * ureg('1/meV'))
    elif kind == '1DC':
        s = Spectrum1DCollection(X, ctx.const([[0.] * n, y]) * ureg('1/meV'))
    elif kind == '2Dx':
        s = Spectrum2D(X, Q, ctx.const(np.array([[0.] * n, y]).T)
                       * ureg('1/meV'))
    else:
        s = Spectrum2D(Q, X, ctx.const([[0.] * n, y]) * ureg('1/meV'))
    kw = {}
    lim = h
    if limit is not None:
        lim = limit
        pre = kind[2:] + '_' if kind[0] == '2' else ''
        kw[pre + 'width_lower_limit'] = limit * FACTOR[('meV', '1/cm')] * \
            ureg('1/cm')
        if pre:
            # the limit of the other axis is not for this one
            other = 'y_' if pre == 'x_' else 'x_'
            kw[other + 'width_lower_limit'] = 2.2 * ureg('meV')
    for e in (lim,):
        if bool(w <= e):
            ctx.assume(w <= e - 1e-6)
        else:
            ctx.assume(w >= e + 1e-6)
    fun = wfun(ctx, 'THz', w * FACTOR[('meV', 'THz')], 0., 'meV')
    with quiet():
        if kind[0] == '2':
            r = s.broaden(**{kind[2:] + '_width': fun}, shape=shape,
                          width_convention=conv, **kw)
            out = r.z_data.to('1/meV').magnitude
            out = (out.T if kind == '2Dx' else out)[1]
        else:
            r = s.broaden(fun, shape=shape, width_convention=conv, **kw)
            out = r.y_data.to('1/meV').magnitude
            out = out if kind == '1D' else out[1]
    eff = w if w > lim else lim
    for k in range(0, 6):
        if shape == 'gauss':
            e2 = eff * eff
            want = rexp((-.5 * k * k * h * h) / e2) / eff * (
                h / math.sqrt(2 * math.pi)) if not isinstance(eff, float) else \
                h * math.exp(-.5 * (k * h / eff) ** 2) / eff / math.sqrt(
                    2 * math.pi)
        else:
            want = eff * h / (2 * math.pi * ((k * h) ** 2 + eff * eff / 4))
        ctx.eq(f'profile {k}', out[j + k], want, tol=1e-6, scale_tol=0)
        ctx.eq(f'profile -{k}', out[j - k], want, tol=1e-6, scale_tol=0)


@harness('C20', functions=FN + FV, bounds='2D spectra of 8 x 9 equal bins as '
         'edges, every value: a width function of constant width along y together '
         'with a fixed width or another width function along x, against the two '
         'axes broadened one after the other; and both against the exact kernels',
         cases=[dict(xw='fixed'), dict(xw='function'), dict(xw='yfixed')],
         traces=2)
def both_axes(ctx, xw):
    from euphonic import ureg
    nx, ny, hx, hy = 8, 9, .5, .25
    S = Spec(ctx, '2D', n=nx, ny=ny, edges=True, yedges=True, xu='1/angstrom',
             yu='meV', zu='1/meV', xs=[.5 + hx * i for i in range(nx + 1)],
             ys=[-1. + hy * i for i in range(ny + 1)])
    wx, wy = 1.5, .7                      # FWHM
    fy = wfun(ctx, 'THz', wy * FACTOR[('meV', 'THz')], 0., 'meV')

    def fx(x):
        return (x.to('1/angstrom').magnitude * 0. + wx) * ureg('1/angstrom')
    qx, qy = wx * ureg('1/angstrom'), wy * ureg('meV')
    X, Y = {'fixed': (qx, fy), 'function': (fx, fy), 'yfixed': (fx, qy)}[xw]
    with quiet():
        r = S.s.broaden(x_width=X, y_width=Y)
        a = S.s.broaden(x_width=X).broaden(y_width=Y)
    got = r.z_data.to('1/meV').magnitude
    S.expect(ctx, 'input untouched')
    S.expect(ctx, 'axes, labels, metadata', s=r, v=got)
    ctx.eq('one after the other', got, a.z_data.to('1/meV').magnitude,
           tol=1e-7)
    # a constant width is one exact kernel; the fixed-width filter samples the
    # same Gaussian, normalised on the grid and cut at 4 sigma
    kx = [[hx * pdf('gauss', hx * (i - j), wx) for j in range(nx)]
          for i in range(nx)]
    ky = [[hy * pdf('gauss', hy * (i - j), wy) for j in range(ny)]
          for i in range(ny)]
    for i in (0, 3, 7):
        for j in (0, 4, 8):
            want = 0.
            for p in range(nx):
                for q in range(ny):
                    c = kx[i][p] * ky[j][q]
                    if c > 1e-9:
                        want = want + S.v[p, q] * c
            within(ctx, f'kernel {i} {j}', [got[i, j]], [want], 1e-2)


@harness('C20', functions=FN, bounds='every strictly increasing set of 3 bins '
         'whose widths differ by 2 % or more, on scales between 1e-22 (J) and '
         '1 (meV)',
         cases=[dict(kind='1D', ax='x', xu='meV', scale=1., edges=True),
                dict(kind='1D', ax='x', xu='hartree', scale=1e-7, edges=False),
                dict(kind='1DC', ax='x', xu='J', scale=1e-22, edges=True),
                dict(kind='2D', ax='x', xu='1/angstrom', scale=1., edges=True),
                dict(kind='2D', ax='y', xu='J', scale=1e-22, edges=True)],
         traces=2, opts={'max_paths': 200})
def unequal(ctx, kind, ax, xu, scale, edges):
    """unequal bins are refused unless convolution is asked for"""
    from euphonic import Spectrum1D, Spectrum1DCollection, Spectrum2D, ureg
    d = [ctx.real(f'd{i}', .2, 2.) for i in range(3)]
    i, j = ctx.choice('pair', [(0, 1), (0, 2)])
    if ctx.choice('wider', [0, 1]):
        ctx.assume(d[j] >= d[i] * 1.02)
    else:
        ctx.assume(d[j] <= d[i] * .98)
    if edges:
        x = [0. * d[0], d[0], d[0] + d[1], d[0] + d[1] + d[2]]
        if not edges:
            pass
    else:
        x = [0. * d[0], d[0], d[0] + d[1], d[0] + d[1] + d[2]]
    nb = 3 if edges else 4
    # centres of uneven edges can be equally spaced: keep those out
    if edges:
        c1, c2 = d[0] + d[1], d[1] + d[2]
        if bool(c1 <= c2):
            ctx.assume(c2 >= c1 * 1.02)
        else:
            ctx.assume(c1 >= c2 * 1.02)
    X = ctx.arr([e * scale for e in x]) * ureg(xu)
    w = .7 * scale * ureg(xu)
    if kind == '1D':
        s = Spectrum1D(X, ctx.const(np.arange(nb) + 1.) * ureg('1/meV'))
    elif kind == '1DC':
        s = Spectrum1DCollection(X, ctx.const(np.ones((2, nb)))
                                 * ureg('1/meV'))
    elif ax == 'x':
        s = Spectrum2D(X, ctx.const([0., 1., 2.]) * ureg('meV'),
                       ctx.const(np.ones((nb, 2))) * ureg('mbarn'))
    else:
        s = Spectrum2D(ctx.const([0., 1., 2.]) * ureg('1/angstrom'), X,
                       ctx.const(np.ones((2, nb))) * ureg('mbarn'))
    kw = {ax + '_width': w}
    for shape in ('gauss', 'lorentz'):
        with quiet():
            ctx.expect_raise(f'unequal bins refused ({shape})', ValueError,
                             lambda: s.broaden(**kw, shape=shape))
    with quiet():
        r = s.broaden(**kw, method='convolve')
    ctx.true('convolution on request',
             getattr(r, 'z_data', r.y_data).shape ==
             getattr(s, 'z_data', s.y_data).shape)


@harness('C20', functions=FN, bounds='1D, collection and 2D; every value; '
         'unknown shapes, methods and conventions; no width at all', traces=2)
def options(ctx):
    from euphonic import ureg
    w = 1. * ureg('meV')
    for kind in ('1D', '1DC', '2D'):
        S = mk(ctx, kind, 4, .5, edges=True, yu='1/meV' if kind != '2D'
               else 'meV')
        ctx.expect_raise(f'{kind} shape', ValueError,
                         lambda: S.s.broaden(w, shape='tophat'))
        ctx.expect_raise(f'{kind} method', ValueError,
                         lambda: S.s.broaden(w, method='fast'))
        fun = wfun(ctx, 'meV', 1., 0., 'meV')
        with quiet():
            ctx.expect_raise(f'{kind} std Lorentzian', ValueError,
                             lambda: S.s.broaden(fun, shape='lorentz',
                                                 width_convention='std'))
            ctx.expect_raise(f'{kind} convention', ValueError,
                             lambda: S.s.broaden(fun, width_convention='hwhm'))
            ctx.expect_raise(f'{kind} cubic Lorentzian', ValueError,
                             lambda: S.s.broaden(fun, shape='lorentz',
                                                 width_fit='cubic'))
            ctx.expect_raise(f'{kind} error out of the fit', ValueError,
                             lambda: S.s.broaden(fun,
                                                 width_interpolation_error=.5))
            for sh, e in (('gauss', 1e-5), ('gauss', .11), ('lorentz', .05),
                          ('lorentz', 5e-5)):
                ctx.expect_raise(
                    f'{kind} {sh} error {e} out of the fit', ValueError,
                    lambda: S.s.broaden(fun, shape=sh,
                                        width_interpolation_error=e))
        if kind != '2D':
            ctx.expect_raise(f'{kind} plain number', TypeError,
                             lambda: S.s.broaden(1.))
        ctx.expect_raise(f'{kind} width unit', Exception,
                         lambda: S.s.broaden(1. * ureg('amu')))
        S.expect(ctx, f'{kind} untouched')
        if kind == '2D':
            r = S.s.broaden()
            S.expect(ctx, 'no broadening', s=r)
            ctx.true('new object', r is not S.s)
