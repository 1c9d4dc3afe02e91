"""C04: dipole correction is the converged Ewald sum"""
import math
import numpy as np
from scipy.special import erfc
from vf.harness import harness
from .common import *

FN = ['ForceConstants._dipole_correction_init',
      'ForceConstants._calculate_dipole_correction',
      'ForceConstants._get_shell_origins',
      'ForceConstants.from_total_fc_with_dipole',
      'ForceConstants._calculate_phonons_at_qpts']
EPSS = {
    'full': [[2., .3, -.2], [.3, 3., .1], [-.2, .1, 2.5]],
    'diag': [[2., 0., 0.], [0., 3.5, 0.], [0., 0., 5.]],
    'iso': [[2.5, 0., 0.], [0., 2.5, 0.], [0., 0., 2.5]],
}
QS = {
    'gamma': [0., 0., 0.], 'gen': [0.13, -0.27, 0.41], 'edge': [0.5, 0., 0.],
    'corner': [0.5, 0.5, 0.5], 'out': [1.13, -2.27, 0.41],
    'farout': [6.2, -5.3, 4.1],
    'small': [0.01, 0., 0.02], 'gammaG': [1., -2., 0.],
}
_memo = {}


def ewald(geo, eps, q, Lam):
    """pair tensors C_ij(q) in Hartree atomic units, written from Gonze & Lee
    (1997) eqs 72-74 with a balance parameter of our own choosing"""
    key = (repr(geo), repr(eps), tuple(q), Lam)
    if key in _memo:
        return _memo[key]
    cell = np.array(geo['cell'], float) * conv(1., 'angstrom', 'bohr')
    r = np.array(geo['r'], float) @ cell
    eps = np.array(eps, float)
    ie = np.linalg.inv(eps)
    V = abs(np.linalg.det(cell))
    rec = 2 * math.pi * np.linalg.inv(cell).T
    q = np.array(q, float)
    n = len(r)
    C = np.zeros((n, n, 3, 3), complex)
    # reciprocal part
    gmax = math.sqrt(4 * Lam ** 2 * 40 / np.linalg.eigvalsh(eps)[0])
    ng = [int(math.ceil(gmax * np.linalg.norm(cell[k]) / (2 * math.pi))) + 1
          for k in range(3)]
    G = np.array(np.meshgrid(*[np.arange(-k, k + 1) for k in ng],
                             indexing='ij')).reshape(3, -1).T
    q1 = q - np.rint(q)
    K = (G + q1) @ rec
    KK = np.einsum('ka,ab,kb->k', K, eps, K)
    ok = (KK > 1e-16) & (KK / (4 * Lam ** 2) < 40)
    K, KK = K[ok], KK[ok]
    f = np.exp(-KK / (4 * Lam ** 2)) / KK * 4 * math.pi / V
    for i in range(n):
        for j in range(n):
            C[i, j] += np.einsum('k,ka,kb->ab', f * np.exp(1j * K @ (r[i] - r[j])),
                                 K, K)
    # real part
    rmax = math.sqrt(40 * np.linalg.eigvalsh(eps)[-1]) / Lam + np.max(
        np.linalg.norm(r[:, None] - r[None], axis=-1))
    nr = [int(math.ceil(rmax * np.linalg.norm(rec[k]) / (2 * math.pi))) + 1
          for k in range(3)]
    R = np.array(np.meshgrid(*[np.arange(-k, k + 1) for k in nr],
                             indexing='ij')).reshape(3, -1).T
    ph = np.exp(2j * math.pi * R @ q)
    for i in range(n):
        for j in range(n):
            d = r[i] - r[j] - R @ cell
            dl = d @ ie
            D2 = np.einsum('ka,ka->k', dl, d)
            ok = (D2 > 1e-10) & (D2 * Lam ** 2 < 40)
            y = Lam * np.sqrt(D2[ok])
            e2 = 2 / math.sqrt(math.pi) * np.exp(-y * y)
            t1 = (3 * erfc(y) / y ** 3 + e2 * (3 / y ** 2 + 2)) / D2[ok]
            t2 = erfc(y) / y ** 3 + e2 / y ** 2
            H = np.einsum('k,ka,kb->ab', t1 * ph[ok], dl[ok], dl[ok]) - \
                ie * np.sum(t2 * ph[ok])
            C[i, j] -= Lam ** 3 / math.sqrt(np.linalg.det(eps)) * H
    _memo[key] = C
    return C


def dip_ref(ctx, geo, eps, q, born, Lam=0.35):
    n = len(geo['r'])
    Cq, C0 = ewald(geo, eps, q, Lam), ewald(geo, eps, [0., 0., 0.], Lam)

    def zcz(i, j, c):
        out = [[0.0] * 3 for _ in range(3)]
        for a in range(3):
            for b in range(3):
                s = 0.0
                for x in range(3):
                    for y in range(3):
                        s = s + born[i, a, x] * born[j, b, y] * complex(c[x, y])
                out[a][b] = s
        return out
    M = [[0.0] * (3 * n) for _ in range(3 * n)]
    for i in range(n):
        on = [[0.0] * 3 for _ in range(3)]
        for j in range(n):
            t = zcz(i, j, C0[i, j])
            for a in range(3):
                for b in range(3):
                    on[a][b] = on[a][b] + t[a][b]
        for j in range(n):
            t = zcz(i, j, Cq[i, j])
            for a in range(3):
                for b in range(3):
                    v = t[a][b]
                    if i == j:
                        v = v - (on[a][b] + on[b][a]) * 0.5
                    M[3 * i + a][3 * j + b] = v
    return M


@harness('C04', functions=FN, bounds='1-2 atoms, 4 lattices, 3 dielectric '
         'tensors, Ewald parameters 0.6-2, 7 q-points inside and outside the '
         'zone; every Born charge tensor in [-3,3], every mass', cases=[
             dict(g='tri2u', eps='full', par=1.0, qs=('gamma', 'gen', 'out')),
             dict(g='tri2u', eps='full', par=0.6, qs=('gen', 'edge')),
             dict(g='tri2u', eps='diag', par=1.7, qs=('gen', 'gammaG')),
             dict(g='fcc2u', eps='iso', par=1.0, qs=('gamma', 'corner', 'small')),
             dict(g='cub2u', eps='full', par=1.3, qs=('edge', 'out')),
             dict(g='tri1', eps='full', par=0.9, qs=('gen', 'gamma', 'small')),
             dict(g='hex2u', eps='diag', par=1.0, qs=('gen', 'edge')),
             dict(g='tri2u', eps='full', par=1.2, qs=('farout',), red=False),
         ], thorough_cases=[dict(g='tri3', eps='full', par=1.0, qs=('gen', 'edge')),
                            dict(g='tri2u', eps='full', par=0.4, qs=('gen', 'out'))])
def ewald_sum(ctx, g, eps, par, qs, red=True):
    geo = GEOM[g]
    n = len(geo['r'])
    born = ctx.reals('z', (n, 3, 3), -3., 3.)
    m = [23., 35.5, 16.][:n]
    kw = dict(mass=ctx.const(m), fc=ctx.const(conc_fc(geo, 5)), born=born,
              dielectric=ctx.const(EPSS[eps]))
    Q = ctx.const([QS[k] for k in qs])
    args = dict(use_c=False, splitting=False, reduce_qpts=red)
    with EchoEigh(ctx):
        r = make_fc(ctx, g, **kw)[0].calculate_qpoint_phonon_modes(
            Q, dipole=True, dipole_parameter=par, **args)
        base = make_fc(ctx, g, **kw)[0].calculate_qpoint_phonon_modes(
            Q, dipole=False, **args)
    ma = [conv(x, 'amu', 'electron_mass') for x in m for _ in range(3)]
    for k, nm in enumerate(qs):
        D, D0 = echo_matrix(ctx, r, k), echo_matrix(ctx, base, k)
        ref = dip_ref(ctx, geo, EPSS[eps], QS[nm], born)
        want = [[D0[i, j] + herm(ref, i, j) / math.sqrt(ma[i] * ma[j])
                 for j in range(3 * n)] for i in range(3 * n)]
        ctx.eq(f'dynamical matrix {nm}', D, ctx.arr(want), tol=1e-6)


def herm(M, i, j):
    if i == j:
        return getattr(M[i][j], 'real', M[i][j])
    return M[i][j]


@harness('C04', functions=FN, bounds='two atoms, supercells 2x1x1 and '
         'non-diagonal; all commensurate q-points; every total force constants '
         'array in [-1,1]; every Born charge in [-3,3] (first case); Born charges, '
         'dielectric tensor and force constants in the given units', cases=[
             dict(g='tri2', sym='fc', ud='e**2/(bohr*hartree)', ub='e',
                  uf='hartree/bohr**2'),
             dict(g='tri2', sym='born', ud='e**2/(bohr*hartree)', ub='e',
                  uf='hartree/bohr**2'),
             dict(g='tri2', sym='fc', ud='e**2/(angstrom*eV)', ub='coulomb',
                  uf='eV/angstrom**2'),
             dict(g='fcc2', sym='fc', ud='e**2/(bohr*hartree)', ub='e',
                  uf='mRy/bohr**2'),
             dict(g='tri2perm', sym='fc', ud='e**2/(bohr*hartree)', ub='e',
                  uf='hartree/bohr**2')],
         thorough_cases=[dict(g='nondiag2', sym='fc', ud='e**2/(bohr*hartree)',
                              ub='e', uf='hartree/bohr**2')])
def total_fc(ctx, g, sym, ud, ub, uf):
    from euphonic import ForceConstants, ureg
    geo = GEOM[g]
    n = len(geo['r'])
    cells, ims = ws_images(geo)
    sc = np.array(geo['sc'])
    if sym == 'fc':
        fc = herm_fc(ctx, 'fc', cells, geo['sc'], n)
        born = ctx.const([[[1.1, .2, 0.], [-.1, 1.3, .3], [0., .1, .9]],
                          [[-1.1, -.2, 0.], [.1, -1.3, -.3], [0., -.1, -.9]]])
    else:
        fc = ctx.const(conc_fc(geo, 5))
        born = ctx.reals('z', (n, 3, 3), -3., 3.)
    eps = ctx.const(EPSS['full'])
    m = [23., 35.5]
    cr = crystal(ctx, geo, mass=ctx.const(m))
    obj = ForceConstants.from_total_fc_with_dipole(
        cr, (fc * ureg('hartree/bohr**2')).to(uf), sc, cells,
        (born * ureg('e')).to(ub), (eps * ureg('e**2/(bohr*hartree)')).to(ud))
    ctx.true('fc unit', obj.force_constants.units == ureg(uf).units)
    ctx.eq('born', obj.born.to('e').magnitude, born)
    ctx.eq('dielectric', obj.dielectric.to('e**2/(bohr*hartree)').magnitude, eps)
    inv = np.linalg.inv(sc.astype(float))
    qs = []
    for a in range(-2, 3):
        for b in range(-2, 3):
            for c in range(-2, 3):
                q = inv @ np.array([a, b, c])
                q1 = q - np.rint(q)
                if not any(np.allclose((q1 - p) - np.rint(q1 - p), 0)
                           for p in qs):
                    qs.append(q1)
    qs = np.array(qs)
    ma = [conv(x, 'amu', 'electron_mass') for x in m]
    with EchoEigh(ctx):
        r = obj.calculate_qpoint_phonon_modes(
            ctx.const(qs), use_c=False, splitting=False, dipole=True,
            reduce_qpts=False)
    for k in range(len(qs)):
        ref = dyn_mat_ref(ctx, fc, qs[k], cells, ims, n, ma)
        ctx.eq(f'commensurate {k}', echo_matrix(ctx, r, k), ref, tol=1e-6)
