"""Shared builders for harnesses (work in symbolic and in concrete runs)"""
import math
import contextlib
import numpy as np

# geometries: cell vectors (angstrom), fractional positions, supercell matrix.
GEOM = {
    # larger ones: five atoms and 2x2x1; four atoms in a 3x2x2; a long chain
    'big5': dict(cell=[[5.1, 0.2, 0.1], [0.3, 5.9, -0.2], [-0.1, 0.5, 6.2]],
                 r=[[0.05, 0.1, 0.0], [0.45, 0.55, 0.35], [.7, .2, .8],
                    [.21, .83, .64], [.9, .71, .12]],
                 types=['Na', 'Cl', 'O', 'Na', 'C'],
                 sc=[[2, 0, 0], [0, 2, 0], [0, 0, 1]]),
    'big4': dict(cell=[[4., 0, 0], [0, 4.4, 0], [0.4, 0, 5.]],
                 r=[[0, 0, 0], [0.5, 0.5, 0.], [0.5, 0, .5], [0, .5, .44]],
                 types=['O', 'Na', 'Na', 'C'],
                 sc=[[3, 0, 0], [0, 2, 0], [0, 0, 2]]),
    'chain17': dict(cell=[[2., 0, 0], [0, 33., 0], [0, 0, 35.]], r=[[0, 0, 0]],
                    types=['Na'], sc=[[17, 0, 0], [0, 1, 0], [0, 0, 1]]),
    'chain130': dict(cell=[[2., 0, 0], [0, 233., 0], [0, 0, 235.]],
                     r=[[0, 0, 0]], types=['Na'],
                     sc=[[130, 0, 0], [0, 1, 0], [0, 0, 1]]),
    # cubic, 1 atom, 2x1x1 supercell: two images for the shared boundary
    'sc1': dict(cell=[[3., 0, 0], [0, 3., 0], [0, 0, 3.]],
                r=[[0, 0, 0]], types=['Na'], sc=[[2, 0, 0], [0, 1, 0], [0, 0, 1]]),
    # two atoms, triclinic, 2x1x1
    'tri2': dict(cell=[[3.1, 0.2, 0.1], [0.3, 3.4, -0.2], [-0.1, 0.5, 4.2]],
                 r=[[0.05, 0.1, 0.0], [0.45, 0.55, 0.35]], types=['Na', 'Cl'],
                 sc=[[2, 0, 0], [0, 1, 0], [0, 0, 1]]),
    # two atoms, fcc-like primitive cell, non-diagonal supercell
    'fcc2': dict(cell=[[0., 2., 2.], [2., 0., 2.], [2., 2., 0.]],
                 r=[[0, 0, 0], [0.5, 0.5, 0.5]], types=['Na', 'Cl'],
                 sc=[[1, 1, -1], [1, -1, 1], [-1, 1, 1]]),
    # hexagonal-like, 3x1x1
    'hex2': dict(cell=[[3., 0, 0], [-1.5, 1.5 * 3 ** .5, 0], [0, 0, 5.]],
                 r=[[0, 0, 0], [1 / 3., 2 / 3., 0.5]], types=['Zn', 'O'],
                 sc=[[2, 0, 0], [0, 2, 0], [0, 0, 1]]),
    # cells listed in another order, atoms outside the home cell
    'tri2perm': dict(cell=[[3.1, 0.2, 0.1], [0.3, 3.4, -0.2], [-0.1, 0.5, 4.2]],
                     r=[[0.05, -0.1, 0.0], [0.45, 1.2, 0.35]],
                     types=['Na', 'Cl'],
                     sc=[[1, 0, 0], [0, 3, 0], [0, 0, 1]],
                     cells=[[0, 0, 0], [0, 2, 0], [0, 1, 0]]),
    # left-handed supercell matrix
    'neg2': dict(cell=[[3.1, 0.2, 0.1], [0.3, 3.4, -0.2], [-0.1, 0.5, 4.2]],
                 r=[[0.0, 0., 0.0], [0.5, 0.5, 0.25]], types=['Na', 'Cl'],
                 sc=[[0, 1, 0], [2, 0, 0], [0, 0, 1]]),
    # non-diagonal, non-symmetric supercell matrix
    'nondiag2': dict(cell=[[3.1, 0.2, 0.1], [0.3, 3.4, -0.2], [-0.1, 0.5, 4.2]],
                     r=[[0.0, 0., 0.0], [0.5, 0.5, 0.25]], types=['Na', 'Cl'],
                     sc=[[1, 1, 0], [-1, 1, 0], [0, 0, 2]]),
    'tri2_3': dict(cell=[[3.1, 0.2, 0.1], [0.3, 3.4, -0.2], [-0.1, 0.5, 4.2]],
                   r=[[0.05, 0.1, 0.0], [0.45, 0.55, 0.35]],
                   types=['Na', 'Cl'], sc=[[3, 0, 0], [0, 2, 0], [0, 0, 1]]),
    'tri1': dict(cell=[[3.1, 0.2, 0.1], [0.3, 3.4, -0.2], [-0.1, 0.5, 4.2]],
                 r=[[0.05, 0.1, 0.0]], types=['Na'],
                 sc=[[1, 0, 0], [0, 1, 0], [0, 0, 1]]),
    'tri2u': dict(cell=[[3.1, 0.2, 0.1], [0.3, 3.4, -0.2], [-0.1, 0.5, 4.2]],
                  r=[[0.05, 0.1, 0.0], [0.45, 0.55, 0.35]], types=['Na', 'Cl'],
                  sc=[[1, 0, 0], [0, 1, 0], [0, 0, 1]]),
    'fcc2u': dict(cell=[[0., 2., 2.], [2., 0., 2.], [2., 2., 0.]],
                  r=[[0, 0, 0], [0.5, 0.5, 0.5]], types=['Na', 'Cl'],
                  sc=[[1, 0, 0], [0, 1, 0], [0, 0, 1]]),
    'hex2u': dict(cell=[[3., 0, 0], [-1.5, 1.5 * 3 ** .5, 0], [0, 0, 5.]],
                  r=[[0, 0, 0], [1 / 3., 2 / 3., 0.5]], types=['Zn', 'O'],
                  sc=[[1, 0, 0], [0, 1, 0], [0, 0, 1]]),
    'cub2u': dict(cell=[[3., 0, 0], [0, 3., 0], [0, 0, 3.]],
                  r=[[0., 0., 0.0], [0.5, 0.5, 0.5]], types=['Na', 'Cl'],
                  sc=[[1, 0, 0], [0, 1, 0], [0, 0, 1]]),
    'tri3': dict(cell=[[3.1, 0.2, 0.1], [0.3, 3.4, -0.2], [-0.1, 0.5, 4.2]],
                 r=[[0.05, 0.1, 0.0], [0.45, 0.55, 0.35], [0.7, 0.2, 0.8]],
                 types=['Na', 'Cl', 'O'],
                 sc=[[1, 0, 0], [0, 1, 0], [0, 0, 1]]),
}


def sc_cells(sc):
    """unit-cell origins inside the supercell (any complete set)"""
    sc = np.array(sc)
    n = int(round(abs(np.linalg.det(sc))))
    inv = np.linalg.inv(sc)
    out = []
    rng = [range(min(-4, -int(k)), max(5, int(k) + 1))
           for k in abs(sc).sum(axis=0)]
    for a in rng[0]:
        for b in rng[1]:
            for c in rng[2]:
                f = np.array([a, b, c]) @ inv
                if np.all(f > -1e-9) and np.all(f < 1 - 1e-9):
                    out.append([a, b, c])
    assert len(out) == n, (len(out), n)
    out.sort(key=lambda v: (v != [0, 0, 0], v))
    return np.array(out, dtype=np.int32)


def crystal(ctx, g, mass=None, cell=None, r=None, cell_unit='angstrom',
            mass_unit='amu'):
    from euphonic import Crystal, ureg
    geo = GEOM[g] if isinstance(g, str) else g
    n = len(geo['r'])
    if mass is None:
        mass = ctx.const([22.99, 35.45, 16.0, 12.0][:n])
    if cell is None:
        cell = ctx.const(geo['cell'])
    if r is None:
        r = ctx.const(geo['r'])
    return Crystal(cell * ureg(cell_unit), r, np.array(geo['types']),
                   mass * ureg(mass_unit))


def sym_mass(ctx, n):
    return ctx.reals('m', n, 1., 250.)


def tensor33(ctx, name, lo=-1, hi=1, diag=None):
    """symmetric 3x3"""
    a = [[None] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(i, 3):
            l, h = (diag if diag and i == j else (lo, hi))
            a[i][j] = a[j][i] = ctx.real(f'{name}_{i}{j}', l, h)
    return ctx.arr(a)


class EighStub:
    """contract stub: eigh(D) may return any real eigenvalues / complex
    eigenvectors; records the matrices it was given (the used triangle)"""

    def __init__(self, ctx, stub=True, lam=(-4., 4.), signs=None,
                 mag=(1e-6, 4.)):
        self.ctx = ctx
        self.calls = []
        self.stub = stub
        self.lam = lam
        self.signs = signs
        self.mag = mag

    def __call__(self, a, UPLO='L'):
        n = a.shape[-1]
        if a.ndim > 2:
            r = [self(x, UPLO) for x in a.reshape((-1, n, n))]
            w = np.stack([np.asarray(x[0]) for x in r]).reshape(a.shape[:-1])
            v = np.stack([np.asarray(x[1]) for x in r]).reshape(a.shape)
            return self._w(w), self._w(v)
        D = self._herm(a, UPLO)
        k = len(self.calls)
        c = self.ctx
        if self.stub:
            w = []
            for i in range(n):
                lo, hi = self.lam
                if self.signs is not None:
                    lo, hi = (self.mag if self.signs(k, i) > 0
                              else (-self.mag[1], -self.mag[0]))
                w.append(c.real(f'ev{k}_{i}', lo, hi))
            w = c.arr(w)
            v = c.cplx(f'evec{k}', (n, n), -1., 1.)
        else:
            w, v = self.orig(np.asarray(D, dtype=complex))
        self.calls.append((D, w, v))
        return w, v

    def _w(self, x):
        if self.ctx.symbolic:
            from vf import npshim
            return npshim.wrap(x)
        return x

    def _herm(self, a, UPLO):
        n = a.shape[0]
        out = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(n):
                use = (j >= i) if UPLO.upper() == 'U' else (j <= i)
                if i == j:
                    x = a[i, i]
                    out[i][i] = getattr(x, 'real', x)
                elif use:
                    out[i][j] = a[i, j]
                    x = a[i, j]
                    out[j][i] = x.conjugate() if hasattr(x, 'conjugate') else x
        return self.ctx.arr(out)

    def __enter__(self):
        self.orig = np.linalg.eigh
        if self.ctx.symbolic:
            from vf import npshim
            self.saved = npshim.EIGH_HOOK[0]
            npshim.EIGH_HOOK[0] = self
        else:
            import scipy.linalg
            np.linalg.eigh = self
        return self

    def __exit__(self, *a):
        if self.ctx.symbolic:
            from vf import npshim
            npshim.EIGH_HOOK[0] = self.saved
        else:
            np.linalg.eigh = self.orig


class EchoEigh(EighStub):
    """symbolic runs: eigenvectors are the (Hermitian) matrix itself, so every
    row of the result shows which matrix was diagonalised for it; eigenvalues
    are the real diagonal plus a constant (positive).  Fully concrete matrices
    are diagonalised for real.  Concrete runs use the real eigensolver."""
    SHIFT = 100.0

    def __call__(self, a, UPLO='L'):
        n = a.shape[-1]
        if a.ndim > 2:
            return EighStub.__call__(self, a, UPLO)
        D = self._herm(a, UPLO)
        if _all_const(D):
            M = _const_complex(D)
            w, v = np.linalg.eigh(M.real if abs(M.imag).max() == 0 else M)
            w, v = self.ctx.const(w), self.ctx.const(v, dtype=v.dtype)
        else:
            w = self.ctx.arr([D[i, i] * 1.0 + self.SHIFT for i in range(n)])
            v = D
        self.calls.append((D, w, v))
        return w, v

    def __enter__(self):
        if self.ctx.symbolic:
            EighStub.__enter__(self)
        return self

    def __exit__(self, *a):
        if self.ctx.symbolic:
            EighStub.__exit__(self)


HalfEcho = EchoEigh


def _all_const(a):
    return all(not hasattr(x, 'is_const') or x.is_const()
               for x in np.asarray(a, dtype=object).ravel())


def _const_complex(a):
    a = np.asarray(a, dtype=object)
    return np.array([complex(x.const_val() if hasattr(x, 'is_const') else x)
                     for x in a.ravel()]).reshape(a.shape)


def echo_matrix(ctx, modes, k):
    """matrix that was diagonalised for output row k (under EchoEigh)"""
    ev = modes.eigenvectors[k]
    n = ev.shape[1]
    if _all_const(ev):
        E = _const_complex(ev).reshape((3 * n, 3 * n))
        f = _const_complex(modes.frequencies.to('hartree').magnitude[k]).real
        D = np.einsum('ka,k,kb->ab', E, np.sign(f) * f * f, E.conj())
        return ctx.const(D, dtype=complex)
    return ctx.arr([[ev[j, i // 3, i % 3] for j in range(3 * n)]
                    for i in range(3 * n)])


def make_fc(ctx, g, mass=None, born=None, dielectric=None, name='fc', fc=None):
    """ForceConstants with symbolic (exchange-symmetric) force constants"""
    from euphonic import ForceConstants, ureg
    geo = GEOM[g] if isinstance(g, str) else g
    n = len(geo['r'])
    cells, ims = ws_images(geo)
    if mass is None:
        mass = sym_mass(ctx, n)
    cr = crystal(ctx, geo, mass=mass)
    if fc is None:
        fc = herm_fc(ctx, name, cells, geo['sc'], n)
    kw = {}
    if born is not None:
        kw = dict(born=born * ureg('e'),
                  dielectric=dielectric * ureg('e**2/(bohr*hartree)'))
    obj = ForceConstants(cr, fc * ureg('hartree/bohr**2'), np.array(geo['sc']),
                         cells, **kw)
    m_au = [conv(m, 'amu', 'electron_mass') for m in mass]
    return obj, fc, cells, ims, m_au


# --------------------------------------------------------------- references
def ws_images(geo, n_shells=2, tol=1e-8):
    """independent reference: for every (cell nc, i, j) the supercell lattice
    vectors S (integer unit cells) for which the vector from atom i in cell 0
    to atom j in cell nc + S lies inside or on the Wigner-Seitz cell of the
    supercell lattice"""
    cell = np.array(geo['cell'], float)
    r = np.array(geo['r'], float)
    sc = np.array(geo['sc'])
    cells = np.array(geo['cells'], dtype=np.int32) if 'cells' in geo \
        else sc_cells(sc)
    L = sc @ cell
    pts = [np.array([a, b, c]) for a in range(-3, 4) for b in range(-3, 4)
           for c in range(-3, 4) if (a, b, c) != (0, 0, 0)]
    Lp = np.array([p @ L for p in pts])
    cand = [np.array([a, b, c]) for a in range(-n_shells, n_shells + 1)
            for b in range(-n_shells, n_shells + 1)
            for c in range(-n_shells, n_shells + 1)]
    out = {}
    for nc, o in enumerate(cells):
        for i in range(len(r)):
            for j in range(len(r)):
                ims = []
                for s in cand:
                    v = (r[j] + o - r[i]) @ cell + s @ L
                    if np.all(Lp @ v <= 0.5 * np.sum(Lp * Lp, axis=1)
                              + 1e-6):
                        ims.append(s @ sc)
                out[nc, i, j] = ims
    return cells, out


def herm_fc(ctx, name, cells, sc, n_atoms, lo=-1., hi=1.):
    """force constants with the exchange symmetry fc[R,i,j] = fc[-R,j,i]^T"""
    ncell = len(cells)
    inv = np.linalg.inv(np.array(sc, float))

    def neg(k):
        t = -cells[k]
        for m in range(ncell):
            d = (t - cells[m]) @ inv
            if np.allclose(d, np.rint(d)):
                return m
        raise AssertionError
    n3 = 3 * n_atoms
    a = [[[None] * n3 for _ in range(n3)] for _ in range(ncell)]
    for k in range(ncell):
        kn = neg(k)
        for i in range(n3):
            for j in range(n3):
                if a[k][i][j] is None:
                    v = ctx.real(f'{name}_{k}_{i}_{j}', lo, hi)
                    a[k][i][j] = v
                    a[kn][j][i] = v
    return ctx.arr(a)


def dyn_mat_ref(ctx, fc, q, cells, ims, n_atoms, mass_au=None):
    """D_ij(q) = sum_R sum_images fc/n exp(2 pi i q.(R+S)) / sqrt(mi mj)"""
    n3 = 3 * n_atoms
    D = [[0.0] * n3 for _ in range(n3)]
    for nc in range(len(cells)):
        for i in range(n_atoms):
            for j in range(n_atoms):
                I = ims[nc, i, j]
                if not I:
                    continue
                ph = 0.0
                for s in I:
                    v = s + cells[nc]
                    arg = 0.0
                    for k in range(3):
                        if v[k]:
                            arg = arg + q[k] * (2 * math.pi * float(v[k]))
                    ph = ph + cexp(arg)
                ph = ph * (1.0 / len(I))
                for a in range(3):
                    for b in range(3):
                        D[3 * i + a][3 * j + b] = D[3 * i + a][3 * j + b] + \
                            fc[nc, 3 * i + a, 3 * j + b] * ph
    if mass_au is not None:
        for i in range(n3):
            for j in range(n3):
                D[i][j] = D[i][j] / root(mass_au[i // 3] * mass_au[j // 3])
    return ctx.arr(D)


def cexp(arg):
    """exp(i*arg)"""
    if hasattr(arg, 'exp') and not isinstance(arg, (float, complex)):
        return (arg * 1j).exp()
    import cmath
    return cmath.exp(1j * arg)


def rexp(arg):
    if hasattr(arg, 'exp') and not isinstance(arg, (float, np.floating)):
        return arg.exp()
    return math.exp(arg)


def root(x):
    if hasattr(x, 'sqrt') and not isinstance(x, (float, np.floating)):
        return x.sqrt()
    return math.sqrt(x)


AMU_ME = None


def conv(x, a, b):
    from euphonic import ureg
    return x * (1 * ureg(a)).to(b).magnitude


@contextlib.contextmanager
def quiet():
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        yield


def conc_fc(geo, seed=0, asr=False):
    """concrete exchange-symmetric force constants with well separated acoustic
    modes: springs between all pairs, plus a perturbation"""
    import random
    geo = GEOM[geo] if isinstance(geo, str) else geo
    cells, _ = ws_images(geo)
    n = len(geo['r'])
    rng = random.Random(seed)
    sc = np.array(geo['sc'])
    N = len(cells)
    fc = np.zeros((N, 3 * n, 3 * n))
    inv = np.linalg.inv(sc.astype(float))

    def neg(k):
        for m in range(N):
            d = (-cells[k] - cells[m]) @ inv
            if np.allclose(d, np.rint(d)):
                return m
    for k in range(N):
        for i in range(n):
            for j in range(n):
                if k == 0 and i == j:
                    continue
                A = np.array([[rng.uniform(-.1, .1) for _ in range(3)]
                              for _ in range(3)]) + np.eye(3) * rng.uniform(.2, .6)
                A = 0.5 * (A + A.T)
                s = (slice(3 * i, 3 * i + 3), slice(3 * j, 3 * j + 3))
                t = (slice(3 * j, 3 * j + 3), slice(3 * i, 3 * i + 3))
                fc[k][s] = -A
                fc[neg(k)][t] = -A.T
    for i in range(n):
        s = slice(3 * i, 3 * i + 3)
        fc[0][s, s] = 0
        fc[0][s, s] = -fc[:, s, :].sum(axis=0).reshape(3, n, 3).sum(axis=1)
        if not asr:
            fc[0][s, s] += np.diag([.011, .017, .023]) * (i + 1) / 2
    return fc

