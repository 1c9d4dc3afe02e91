"""C06: acoustic sum rule"""
import itertools
import math
import warnings
import numpy as np
from vf.harness import harness
from .common import *
from .C04 import dip_ref, EPSS

FN = ['ForceConstants._enforce_realspace_asr',
      'ForceConstants._enforce_reciprocal_asr',
      'ForceConstants._find_acoustic_modes',
      'ForceConstants._calculate_phonons_at_qpts',
      'util._get_supercell_relative_idx']
BORN = [[[1.1, .2, 0.], [-.1, 1.3, .3], [0., .1, .9]],
        [[-1.0, -.2, 0.], [.1, -1.4, -.3], [0., -.1, -.9]]]


def comm_q(sc):
    """commensurate q-points of the supercell, one per cell"""
    inv = np.linalg.inv(np.array(sc, float))
    qs = []
    for t in sorted(itertools.product(range(-3, 4), repeat=3),
                    key=lambda t: (sum(abs(x) for x in t), t)):
        q = inv @ np.array(t)
        if not any(np.allclose((q - p) - np.rint(q - p), 0) for p in qs):
            qs.append(q)
    return qs


def ortho(n, mix, seed):
    """orthogonal matrix; first three columns are translations mixed by mix
    with the rest"""
    rng = np.random.RandomState(seed)
    T = np.zeros((3 * n, 3))
    for i in range(n):
        T[3 * i:3 * i + 3] = np.eye(3)
    A = np.hstack([T / math.sqrt(n), rng.uniform(-1, 1, (3 * n, 3 * n - 3))])
    Q, R = np.linalg.qr(A)
    Q = Q * np.sign(np.diag(R))
    if mix == 'spread':
        # the translations along z and y over three and two other modes each
        c = 1 / math.sqrt(3)
        R = np.array([[c, c, c], [math.sqrt(.5), -math.sqrt(.5), 0],
                      [c * math.sqrt(.5), c * math.sqrt(.5), -2 * c * math.sqrt(.5)]])
        Q[:, 2:5] = Q[:, 2:5] @ R
    elif mix:
        K = rng.uniform(-1, 1, (3 * n, 3 * n)) * mix
        K = K - K.T
        Q = Q @ np.linalg.solve(np.eye(3 * n) + K, np.eye(3 * n) - K)
    return Q


def modal(ctx, geo, mix, sub=None):
    """Force constants given by their normal modes: fixed (independently chosen)
    eigenvectors and symbolic eigenvalues at each commensurate q-point.
    Returns fc, a function giving the fc with changed zone-centre eigenvalues,
    and the decompositions (matrix, eigenvalues, eigenvectors)."""
    n = len(geo['r'])
    n3 = 3 * n
    cells, ims = ws_images(geo)
    N = len(cells)
    qs = comm_q(geo['sc'])
    assert len(qs) == N
    V0 = ortho(n, mix, 3)
    lam0 = [ctx.real(f'l0_{k}', -1., 1.) for k in range(n3)]
    # avoid exact degeneracies that leave the eigenvectors undetermined
    rest = []       # (q, conj partner?, U, lam)
    done = []
    cols, w = [], list(lam0)
    ph = lambda q: np.exp(2j * math.pi * (cells @ q))
    for k in range(n3):
        cols.append(np.outer(np.ones(N), V0[:, k]).ravel() / math.sqrt(N))
    cols2 = list(cols)      # for the opposite sign of the cell vectors
    rng = np.random.RandomState(7)
    for a, q in enumerate(qs):
        if a == 0 or any(np.allclose((q + p) - np.rint(q + p), 0)
                         for p in done):
            continue
        done.append(q)
        real = np.allclose(2 * q, np.rint(2 * q))
        if real:
            U = np.linalg.qr(rng.uniform(-1, 1, (n3, n3)))[0]
        else:
            U = np.linalg.qr(rng.uniform(-1, 1, (n3, n3))
                             + 1j * rng.uniform(-1, 1, (n3, n3)))[0]
        lam = [ctx.real(f'l{a}_{k}', -1., 1.) for k in range(n3)]
        rest.append((q, real, U, lam))
        for k in range(n3):
            x = np.outer(ph(q), U[:, k]).ravel() / math.sqrt(N)
            if real:
                cols.append(x.real)
                cols2.append(x.real)
                w.append(lam[k])
            else:
                y = np.outer(np.conj(ph(q)), U[:, k]).ravel() / math.sqrt(N)
                cols2 += [y.real * math.sqrt(2), y.imag * math.sqrt(2)]
                cols += [x.real * math.sqrt(2), x.imag * math.sqrt(2)]
                w += [lam[k], lam[k]]
    V, V2 = np.array(cols).T, np.array(cols2).T

    def mat(W, lam):
        m = W.shape[0]
        out = [[0.0] * m for _ in range(m)]
        for i in range(m):
            for j in range(m):
                s = 0.0
                for k in range(W.shape[1]):
                    c = W[i, k] * np.conj(W[j, k])
                    c = complex(c) if np.iscomplexobj(W) else float(c)
                    s = s + lam[k] * c
                out[i][j] = s
        return out

    def fc_of(l0):
        D0 = mat(V0, l0)
        if sub is not None:
            D0 = [[D0[i][j] - sub[i][j] for j in range(n3)] for i in range(n3)]
        fc = [[[x * (1. / N) for x in r] for r in D0] for _ in range(N)]
        for q, real, U, lam in rest:
            D = mat(U, lam)
            f = np.conj(ph(q)) / N * (1 if real else 2)
            for c in range(N):
                for i in range(n3):
                    for j in range(n3):
                        v = D[i][j] * complex(f[c])
                        fc[c][i][j] = fc[c][i][j] + getattr(v, 'real', v)
        return ctx.arr(fc)
    known = [(mat(V0, lam0), lam0, V0), (mat(V, w), w, V)]
    if len(done):
        known.append((mat(V2, w), w, V2))
    return fc_of, lam0, known


class KnownEigh(EchoEigh):
    """returns the known eigenpairs when handed one of the known matrices
    (checked coefficient by coefficient), otherwise as EchoEigh"""

    def __init__(self, ctx, known):
        super().__init__(ctx)
        self.known = known

    def __call__(self, a, UPLO='L'):
        n = a.shape[-1]
        if a.ndim == 2:
            D = self._herm(a, UPLO)
            for M, w, V in self.known:
                if len(M) == n and _close(D, M):
                    # sorted like a real solver as far as it can be: any order
                    # is a valid answer up to relabelling
                    return self.ctx.arr(list(w)), self.ctx.const(
                        V, dtype=V.dtype)
        return super().__call__(a, UPLO)


def _close(D, M):
    from vf.sym import Sym
    for i in range(len(M)):
        for j in range(len(M)):
            d = Sym.lift(D[i, j]) - Sym.lift(M[i][j])
            if any(abs(c) > 1e-9 for c in d.t.values()):
                return False
    return True


@harness('C06', functions=FN, opts={'abs_mode': 'atom', 'max_mode': 'atom'},
         bounds='1-2 atoms, supercells of 1-4 cells; force constants with fixed '
         'generic eigenvectors (translations mixed with the other modes by the '
         'stated amount) and every set of eigenvalues in [-1,1]; masses in '
         '[1,250]; q-points zone centre and general; correction to 1e-6 of the '
         'largest eigenvalue', cases=[
             dict(g='tri2u', mix=0., kind='reciprocal', dip=False),
             dict(g='tri2', mix=.08, kind='reciprocal', dip=False),
             dict(g='tri2u', mix=.08, kind='reciprocal', dip=True),
             dict(g='tri2', mix=0., kind='realspace', dip=False),
             dict(g='tri2perm', mix=.08, kind='realspace', dip=False),
             dict(g='nondiag2', mix=.05, kind='realspace', dip=False),
             dict(g='sc1', mix=0., kind='realspace', dip=False),
             dict(g='sc1', mix=0., kind='reciprocal', dip=False),
             dict(g='tri2', mix=.9, kind='realspace', dip=False),
             dict(g='tri2', mix=.9, kind='reciprocal', dip=False),
             dict(g='tri2', mix='spread', kind='realspace', dip=False),
             dict(g='tri2', mix='spread', kind='reciprocal', dip=False),
         ], thorough_cases=[dict(g='tri2_3', mix=.08, kind='realspace', dip=False),
                            dict(g='hex2', mix=.05, kind='realspace', dip=False),
                            dict(g='tri3', mix=.05, kind='reciprocal', dip=False),
                            dict(g='tri3', mix=.05, kind='realspace', dip=False)])
def sum_rule(ctx, g, mix, kind, dip):
    geo = GEOM[g]
    n = len(geo['r'])
    n3 = 3 * n
    cells, ims = ws_images(geo)
    kw = {}
    sub = None
    qs = [[0., 0., 0.], [0.13, -0.27, 0.41]]
    dq = [None, None]
    if dip:
        born = np.array(BORN)
        kw = dict(born=ctx.const(born), dielectric=ctx.const(EPSS['full']))
        dq = [np.array(dip_ref(ctx, geo, EPSS['full'], q, born)) for q in qs]
        sub = [[float(dq[0][i, j].real) for j in range(n3)] for i in range(n3)]
    fc_of, lam0, known = modal(ctx, geo, mix, sub)
    fc = fc_of(lam0)
    m = [23., 35.5, 16.][:n]
    obj, _, _, _, _ = make_fc(ctx, g, mass=ctx.const(m), fc=fc, **kw)
    args = dict(use_c=False, dipole=dip, splitting=False)
    V0 = known[0][2]
    com = np.array([sum(abs(sum(V0[3 * i + a, k] for i in range(n))) ** 2
                        for a in range(3)) for k in range(n3)])
    found = np.sum(com > 0.5 * n) >= 3
    assert abs(com - 0.5 * n).min() > 1e-3
    acs = np.argsort(com)[-3:]
    Q = ctx.const(qs)
    with KnownEigh(ctx, known):
        with warnings.catch_warnings(record=True) as wl:
            warnings.simplefilter('always')
            r = obj.calculate_qpoint_phonon_modes(Q, asr=kind, **args)
        plain = obj.calculate_qpoint_phonon_modes(Q, **args)
    warned = any('acoustic' in str(x.message) for x in wl)
    ctx.true('warns only when no three translation-like modes', warned != found)
    ctx.eq('stored force constants', obj.force_constants.to(
        'hartree/bohr**2').magnitude, fc)
    ma = [conv(x, 'amu', 'electron_mass') for x in m]
    mw = lambda M: ctx.arr([[M[i, j] / math.sqrt(ma[i // 3] * ma[j // 3])
                             for j in range(n3)] for i in range(n3)])
    D0 = [dyn_mat_ref(ctx, fc, q, cells, ims, n) for q in qs]
    if dip:
        D0 = [D0[k] + ctx.arr(_h(dq[k])) for k in range(2)]
    for k in range(2):
        ctx.eq(f'no rule {k}', echo_matrix(ctx, plain, k), mw(D0[k]), tol=1e-6)
        if not found:
            ref = D0[k]
        elif kind == 'realspace':
            ref = dyn_mat_ref(ctx, fc_of([0.0 if c in acs else lam0[c] for c in range(n3)]), qs[k], cells,
                              ims, n)
        else:
            # D(q) minus the part of the translation-like modes at q=0
            ref = D0[k] - ctx.arr([[sum(
                lam0[c] * float(V0[i, c] * V0[j, c]) for c in acs)
                for j in range(n3)] for i in range(n3)])
        ctx.eq(f'change by the rule {k}', echo_matrix(ctx, plain, k)
               - echo_matrix(ctx, r, k), mw(D0[k] - ref), tol=1e-6,
               scale_tol=1e-6 if found else 1e-12)


def _h(M):
    M = np.array(M)
    for i in range(len(M)):
        M[i, i] = M[i, i].real
    return M
