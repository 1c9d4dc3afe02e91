"""C23: the kinematic constraints mask exactly the unreachable bins"""
import math
import numpy as np
from vf.harness import harness
from .common import *
from .C18 import FACTOR, MEV_CM, MEV_THZ, BOHR_A, HA_MEV

FN = ['apply_kinematic_constraints', '_get_cos_range']
# hbar^2 / (2 m_n) in meV angstrom^2, from CODATA 2018
E2K = 1.054571817e-34 ** 2 / (2 * 1.67492749804e-27) / 1.602176634e-22 * 1e20
XU = {'1/angstrom': 1., '1/bohr': BOHR_A, '1/nm': 10.}     # per 1/angstrom
YU = {'meV': 1., '1/cm': MEV_CM, 'THz': MEV_THZ, 'eV': 1e-3}
M = 1e-5      # margin: bins this close to the limit are not judged


def limits(ctx, ang):
    """extreme cosines over an angle range in degrees"""
    lo, hi = min(ang), max(ang)
    c = [math.cos(math.radians(lo)), math.cos(math.radians(hi))]
    mx = 1. if math.ceil(lo / 360 - 1e-9) * 360 <= hi + 1e-7 else max(c)
    mn = -1. if (math.ceil((lo - 180) / 360 - 1e-9) * 360 + 180
                 <= hi + 1e-7) else min(c)
    return mn, mx


def spectrum(ctx, xe, y, z, xu, yu, centres):
    from euphonic import ureg, Spectrum2D
    return Spectrum2D(ureg.Quantity(ctx.arr(xe) * XU[xu], xu),
                      ureg.Quantity(ctx.arr(y) * YU[yu], yu),
                      ureg.Quantity(z.copy(), 'mbarn/meV'),
                      x_tick_labels=[(0, 'a')], metadata={'m': 1})


def isnan(x):
    return isinstance(x, (float, np.floating, complex)) and x != x


ANG = [(0., 180.), (3., 140.), (140., 3.), (-40., 40.), (-5., 75.),
       (-140., -3.), (-170., 190.), (-5., 200.), (20., 380.), (170., 190.),
       (355., 365.), (363., 500.), (-717., -580.), (45., 45.), (0., 0.),
       (90., 300.), (181., 359.), (-5., 361.), (100., 560.), (-200., 30.)]


CASES = [dict(geom=g, ang=a, A=5.) for g in ('direct', 'indirect')
         for a in ANG]
CASES += [dict(geom=g, ang=(-5., 120.), A=a) for g in ('direct', 'indirect')
          for a in (1.3, 9.7)]
CASES += [dict(geom=g, ang=a, X=x) for g in ('direct', 'indirect')
          for a in ((3., 140.), (-10., 80.)) for x in ([1., 2., 2.5],
                                                     [0., .7], [5., 8.])]
CASES += [dict(geom=g, ang=a, positive=False, A=3.)
          for g in ('direct', 'indirect')
          for a in ((3., 140.), (0., 180.), (-40., 40.))]
CASES += [dict(geom=g, ang=(3., 140.), positive=False, X=[0., 3., 5.])
          for g in ('direct', 'indirect')]
CASES += [dict(geom=g, ang=(3., 140.), A=4., xu=x, yu=y, eu=e)
          for g, x, y, e in (('direct', '1/bohr', '1/cm', 'eV'),
                             ('indirect', '1/nm', 'THz', '1/cm'),
                             ('direct', '1/nm', 'eV', 'THz'),
                             ('indirect', '1/bohr', 'eV', 'meV'))]
CASES += [dict(geom=g, ang=(3., 140.), positive=False, A=4., xu='1/nm',
               yu='1/cm', eu='THz') for g in ('direct', 'indirect')]
CASES += [dict(geom='direct', ang=(5., 120.), centres=True, A=5.),
          dict(geom='indirect', ang=(5., 120.), centres=True, A=5.)]


@harness('C23', functions=FN, bounds='1-2 |Q| bins x 1 energy bin: every edge '
         'and the energy transfer symbolic at four fixed energies, or the fixed '
         'energy (1-100 meV) and the transfer (up to 196 meV) symbolic with '
         'given |Q| edges; 20 angle ranges including reflected, reversed, '
         'shifted by full turns and beyond 360 degrees; direct and indirect '
         'geometry; bins closer than 1e-5 (relative) to the limit are not '
         'judged', cases=CASES, thorough_cases=[
             dict(geom=g, ang=a, A=e) for g in ('direct', 'indirect')
             for a in ANG for e in (1.1, 2.6, 7.)]
         + [dict(geom=g, ang=(3., 140.), A=6., xu=x, yu=y, eu=e)
            for g in ('direct', 'indirect') for x in XU for y in YU
            for e in ('meV', '1/cm')]
         + [dict(geom=g, ang=(float(a), float(a + w)), A=5.)
            for g in ('direct',) for a in range(-400, 400, 35)
            for w in (10, 100, 190, 300)],
         traces=10)
def mask(ctx, geom, ang, xu='1/angstrom', yu='meV', eu='meV', centres=False, positive=True, A=None,
         X=None):
    from euphonic import ureg
    from euphonic.spectra import apply_kinematic_constraints
    if X is None:
        x0 = ctx.real('x0', 0., 6.)
        xe = [x0, ctx.real('x1', .05, 9.)]
        ctx.assume(xe[1] > xe[0] + .05)
    else:
        xe = X
    # square roots of the two neutron energies as variables
    a = ctx.real('a', 1., 10.) if A is None else A
    b = ctx.real('b', .01, 14.)
    e0 = a * a
    e1 = b * b if positive else -b * b
    w = e0 - e1 if geom == 'direct' else e1 - e0
    h = ctx.real('h', .1, 1.)
    z = ctx.reals('z', (len(xe) - 1, 1), -3., 3.)
    xs, edges = xe, [w - h, w + h]
    if centres:
        # point data: the bins meet half way and end at the points
        z = ctx.reals('z', (2, 1), -3., 3.)
        xs = [xe[0], xe[1]]
        xe = [xe[0], (xe[0] + xe[1]) / 2, xe[1]]
        edges = [w]
    s = spectrum(ctx, xs, edges, z, xu, yu, centres)
    with quiet():
        f = apply_kinematic_constraints(
            s, **{'e_i' if geom == 'direct' else 'e_f':
                  ureg.Quantity(e0 * YU[eu], eu)}, angle_range=tuple(ang))
    got = f.z_data.magnitude
    mn, mx = limits(ctx, ang)
    for k in range(1):
        if positive:
            q2 = [(e0 + e1 - 2 * c * a * b) / E2K for c in (mx, mn)]
            sc = M * (e0 + e1) / E2K
            for j in range(len(xe) - 1):
                lo, hi = xe[j], xe[j + 1]
                nan = isnan(got[j, k])
                if nan:
                    ctx.true('only unreachable bins are masked',
                             (hi * hi < q2[0] + sc) | (lo * lo > q2[1] - sc))
                else:
                    ctx.true('unreachable bins are masked',
                             ~((hi * hi < q2[0] - sc) | (lo * lo > q2[1] + sc))
                             if not isinstance(hi * hi < q2[0] - sc,
                                               (bool, np.bool_))
                             else not (hi * hi < q2[0] - sc
                                       or lo * lo > q2[1] + sc))
        else:
            for j in range(len(xe) - 1):
                ctx.true('negative neutron energies are masked',
                         isnan(got[j, k]))
        for j in range(len(xe) - 1):
            if not isnan(got[j, k]):
                ctx.eq('kept values', got[j, k], z[j, k])
    ctx.eq('x axis', f.x_data.magnitude, s.x_data.magnitude)
    ctx.eq('y axis', f.y_data.magnitude, s.y_data.magnitude)
    ctx.true('units', all(getattr(f, a + '_data_unit') == getattr(
        s, a + '_data_unit') for a in 'xyz'))
    ctx.true('labels and metadata', f.metadata == {'m': 1}
             and f.x_tick_labels == [(0, 'a')])
    ctx.eq('the spectrum given', s.z_data.magnitude, z)
    ctx.true('a new object', f is not s)


@harness('C23', functions=FN, bounds='angle range with both ends symbolic '
         '(-720 to 720 degrees, width up to 400), 3 |Q| bins, energy transfers '
         'at and away from the elastic line',
         cases=[dict(geom=g, b=b, lo=lo, bins=[x, y], rev=r)
                for g, b, lo, x, y, r in (
                    ('direct', 4., -360., 1.2, 3.1, False),
                    ('indirect', 6.5, 0., 1.5, 3.4, True),
                    ('direct', 5., 0., .1, 1.2, False),
                    ('indirect', 4., -360., 3.1, 7., False))],
         thorough_cases=[dict(geom=g, b=b, lo=lo) for g, b in (
             ('direct', 3.), ('indirect', 7.)) for lo in (
                 -720., -360., 0., 360.)], traces=10)
def angles(ctx, geom, b, lo, bins=(.1, 1.2, 3.1, 3.9), rev=None):
    from euphonic import ureg
    from euphonic.spectra import apply_kinematic_constraints
    t0 = ctx.real('t0', lo, lo + 360.)
    t1 = t0 + ctx.real('width', 0., 400.)
    if ctx.choice('reverse', [False, True] if rev is None else [rev]):
        t = (t1, t0)
    else:
        t = (t0, t1)
    a = 5.
    e0, e1 = a * a, b * b
    w = e0 - e1 if geom == 'direct' else e1 - e0
    xe = list(bins)
    z = ctx.const(np.array([[1.], [2.], [3.]][:len(xe) - 1]))
    s = spectrum(ctx, xe, [w - .5, w + .5], z, '1/angstrom', 'meV', False)
    with quiet():
        f = apply_kinematic_constraints(
            s, **{'e_i' if geom == 'direct' else 'e_f': ureg.Quantity(
                e0, 'meV')}, angle_range=t)
    got = f.z_data.magnitude
    deg = math.pi / 180

    def inside(x, m):
        return t0 + m < x and x < t1 - m
    # turning points clearly inside or outside
    near = False
    top = bottom = False
    for n in range(int(lo // 360), int(lo // 360) + 5):
        for v, k in ((360. * n, 1), (360. * n + 180., -1)):
            if inside(v, -1e-3):
                if not inside(v, 1e-3):
                    near = True
                elif k == 1:
                    top = True
                else:
                    bottom = True
    ctx.assume(not near)
    c0, c1 = np.cos(ctx.arr([t0 * deg, t1 * deg]))
    mx = 1. if top else (c0 if c0 > c1 else c1)
    mn = -1. if bottom else (c1 if c0 > c1 else c0)
    q2 = [(e0 + e1 - 2 * c * a * b) / E2K for c in (mx, mn)]
    sc = M * (e0 + e1) / E2K
    for j in range(len(xe) - 1):
        lo2, hi2 = xe[j] ** 2, xe[j + 1] ** 2
        if isnan(got[j, 0]):
            ctx.true('only unreachable bins are masked',
                     hi2 < q2[0] + sc or lo2 > q2[1] - sc)
        else:
            ctx.true('unreachable bins are masked',
                     hi2 > q2[0] - sc and lo2 < q2[1] + sc)


@harness('C23', functions=FN, bounds='invalid calls: neither or both energies, '
         'axes of other dimensions', cases=[{}], traces=0)
def refused(ctx):
    from pint import DimensionalityError
    from euphonic import ureg, Spectrum2D
    from euphonic.spectra import apply_kinematic_constraints as f
    z = ctx.const(np.ones((2, 2)))
    x = ctx.const(np.array([0., 1., 2.]))

    def s(xu, yu):
        return Spectrum2D(ureg.Quantity(x, xu), ureg.Quantity(x, yu),
                          ureg.Quantity(z, 'mbarn'))
    g = s('1/angstrom', 'meV')
    e = ureg.Quantity(20., 'meV')
    with quiet():
        f(g, e_i=e)
        f(s('1/bohr', '1/cm'), e_f=e)
        ctx.expect_raise('no energy', ValueError, lambda: f(g))
        ctx.expect_raise('both energies', ValueError,
                         lambda: f(g, e_i=e, e_f=e))
        for xu in ('meV', 'angstrom', '', '1/angstrom**2'):
            ctx.expect_raise(f'x in {xu}', (ValueError, DimensionalityError),
                             lambda: f(s(xu, 'meV'), e_i=e))
        for yu in ('K', 'mbarn', '1/meV', ''):
            ctx.expect_raise(f'y in {yu}', (ValueError, DimensionalityError),
                             lambda: f(s('1/angstrom', yu), e_i=e))


class rounded_roots:
    """every square root of a symbolic number has a small relative error"""

    def __init__(self, ctx, size):
        self.ctx, self.size, self.n = ctx, size, 0

    def __enter__(self):
        if not self.ctx.symbolic:
            return
        from vf.sym import Sym
        self.saved = Sym.sqrt, Sym.csqrt

        def wrap(f):
            def g(s):
                if self.busy or s.is_const():
                    return f(s)
                self.busy = True
                try:
                    self.n += 1
                    r = f(s)
                    return r * (1 + self.ctx.real(f'eps{self.n}', -self.size,
                                                  self.size))
                finally:
                    self.busy = False
            return g
        self.busy = False
        Sym.sqrt, Sym.csqrt = wrap(Sym.sqrt), wrap(Sym.csqrt)

    def __exit__(self, *a):
        if self.ctx.symbolic:
            from vf.sym import Sym
            Sym.sqrt, Sym.csqrt = self.saved


@harness('C23', functions=FN, bounds='elastic line: fixed energy 1-100 meV '
         'symbolic, forward scattering included; every square root with a '
         'symbolic relative error up to 1e-6 (a bound on rounding errors; the '
         'replay looks for rounding of that effect among neighbouring floats)',
         cases=[dict(geom=g) for g in ('direct', 'indirect')], traces=1)
def elastic_rounding(ctx, geom):
    """rounding errors do not mask bins far from the limit"""
    from euphonic import ureg
    from euphonic.spectra import apply_kinematic_constraints
    a = ctx.real('a', 1., 10.)
    z = ctx.const(np.array([[1.], [2.]]))
    key = 'e_i' if geom == 'direct' else 'e_f'

    def run(e0, w):
        s = spectrum(ctx, [0., .3, .6], [w - .5, w + .5], z, '1/angstrom',
                     'meV', False)
        return apply_kinematic_constraints(
            s, **{key: ureg.Quantity(e0, 'meV')},
            angle_range=(-60., 90.)).z_data.magnitude
    if ctx.symbolic:
        with rounded_roots(ctx, 1e-6), quiet():
            g = run(a * a, 0.)
        ctx.true('elastic bins in reach are kept',
                 not isnan(g[0, 0]) and not isnan(g[1, 0]))
    else:
        rng = np.random.default_rng(0)
        ok = True
        with quiet():
            for _ in range(300):
                e0 = a * a * (1 + 1e-3 * rng.uniform())
                g = run(e0, 10 ** rng.uniform(-15, -6))
                ok = ok and not isnan(g[0, 0]) and not isnan(g[1, 0])
        ctx.true('elastic bins in reach are kept', ok)
