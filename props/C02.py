"""C02: the C extension computes what the Python code computes"""
import contextlib
import math
import os
import tempfile
import numpy as np
from vf.harness import harness
from .common import *
from .common import _all_const

FN = ['c/_euphonic.c:calculate_phonons', 'c/dyn_mat.c:*', 'c/util.c:*',
      'c/py_util.c:*', 'ForceConstants._calculate_phonons_at_qpts',
      'ForceConstants._calculate_phonons_at_q',
      'ForceConstants._calculate_dyn_mat',
      'ForceConstants._calculate_dipole_correction',
      'ForceConstants._calculate_gamma_correction',
      'validate._ensure_contiguous_args', 'validate._ensure_contiguous_attrs']


def prepare(workdir):
    from vf import cir, run
    cir.ir(run.REPO)


class Ext:
    """the C extension: interpreted in a symbolic run, compiled in others"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.mod = None

    def __enter__(self):
        if self.ctx.symbolic:
            from vf import cir, run, npshim
            self.inst = cir.installed(run.REPO)
            self.mod = self.inst.__enter__()
            self.types = npshim.fake_dtypes()
            self.types.__enter__()
        return self

    def __exit__(self, *a):
        if self.ctx.symbolic:
            self.types.__exit__(*a)
            self.inst.__exit__(*a)

    def check(self, calls=1):
        if self.mod is None:
            return
        self.ctx.true('the C extension is called', len(self.mod.calls) == calls)
        races = sorted({n for rt in self.mod.calls for n, _ in rt.races})
        self.ctx.true('no data races between threads', not races,
                      ', '.join(races))


def run_both(ctx, obj, q, ext, modes=True, threads=1, **kw):
    f = obj.calculate_qpoint_phonon_modes if modes else \
        obj.calculate_qpoint_frequencies
    with EchoEigh(ctx), quiet():
        py = f(q, use_c=False, **kw)
        c = f(q, use_c=True, n_threads=threads, **kw)
    ext.check()
    return py, c


def compare(ctx, py, c, modes=True, **opt):
    if isinstance(py, tuple):
        gp, gc = py[1], c[1]
        py, c = py[0], c[0]
        ctx.eq('mode gradients', gc.to('meV*angstrom').magnitude,
               gp.to('meV*angstrom').magnitude, **opt)
    sq = lambda m: m.frequencies.to('meV').magnitude * abs(
        m.frequencies.to('meV').magnitude)
    ctx.eq('frequencies', sq(c), sq(py), record=False, scale_tol=1e-10)
    ctx.eq('q-points', c.qpts, py.qpts)
    if modes:
        for k in range(len(py.qpts)):
            ctx.eq('dynamical matrix', echo_matrix(ctx, c, k),
                   echo_matrix(ctx, py, k), **opt)
            if ctx.symbolic and not _all_const(c.eigenvectors[k]):
                # the matrices themselves in the place of eigenvectors
                ctx.eq('eigenvectors', c.eigenvectors[k], py.eigenvectors[k],
                       record=False)


class PairStub(EighStub):
    """any eigenvalues and eigenvectors, the same ones for the two programs;
    the matrices they were given are recorded"""

    def __init__(self, ctx, nq, neg=()):
        EighStub.__init__(self, ctx, signs=lambda k, i: -1 if i in neg else 1)
        self.nq = nq
        self.mats = []
        self.memo = {}

    def __call__(self, a, UPLO='L'):
        if not self.ctx.symbolic:
            return self.orig(a, UPLO)
        k = len(self.mats) % self.nq
        self.mats.append(self._herm(a, UPLO))
        if k not in self.memo:
            n = a.shape[-1]
            c = self.ctx
            self.memo[k] = c.arr([
                c.real(f'ev{k}_{i}', *((1e-6, 4.) if self.signs(k, i) > 0
                                       else (-4., -1e-6)))
                for i in range(n)]), c.cplx(f'evec{k}', (n, n), -1., 1.)
        return self.memo[k]

    def __exit__(self, *a):
        EighStub.__exit__(self, *a)


BOUND = ('1-5 atoms, 1-17 cells, the listed lattices and supercells; every force constants '
         'array, mass')


@harness('C02', functions=FN, needs_c=True, bounds=BOUND + ', q in [-2,2]^3, '
         'frequencies alone or with eigenvectors', cases=[
             dict(g=g, modes=m) for g, m in (
                 ('sc1', True), ('tri2', True), ('tri2', False),
                 ('fcc2', True), ('hex2', True), ('neg2', False),
                 ('tri2perm', True), ('big5', True), ('big4', False),
                 ('chain17', True))],
         thorough_cases=[dict(g=g, modes=m) for g in (
             'nondiag2', 'tri2_3', 'tri3') for m in (True, False)], traces=2)
def dynmat(ctx, g, modes):
    obj, fc, cells, ims, m_au = make_fc(ctx, g)
    q = ctx.reals('q', (1, 3), -2., 2.)
    with Ext(ctx) as ext:
        py, c = run_both(ctx, obj, q, ext, modes, reduce_qpts=False)
    compare(ctx, py, c, modes)


@harness('C02', functions=FN, needs_c=True, opts={
    'abs_mode': 'atom', 'max_mode': 'atom'}, bounds=BOUND + ', one component '
    'of q in [-1.2,1.2], every eigenvalue and eigenvector (eigensolver '
    'arbitrary), two q-points', cases=[
        dict(g='sc1', ax=0, modes=True, neg=True),
        dict(g='tri2', ax=0, modes=False, neg=False),
        dict(g='tri2', ax=2, modes=True, neg=True)],
    thorough_cases=[dict(g='hex2', ax=1, modes=True, neg=False),
                    dict(g='nondiag2', ax=1, modes=True, neg=False)], traces=1)
def gradients(ctx, g, ax, modes, neg):
    obj, fc, cells, ims, m_au = make_fc(ctx, g)
    q = [[0.13, -0.27, 0.41], [-.2, .3, .05]]
    q[0][ax] = ctx.real('q', -1.2, 1.2)
    q = ctx.arr(q)
    if not ctx.symbolic:
        # away from degenerate modes, whose eigenvectors are a free choice
        obj = make_fc(ctx, g, mass=ctx.const([23., 35.5][:obj.crystal.n_atoms]),
                      fc=fc)[0]
    f = obj.calculate_qpoint_phonon_modes if modes else \
        obj.calculate_qpoint_frequencies
    st = PairStub(ctx, 2, (0,) if neg else ())
    with Ext(ctx) as ext, st, quiet():
        kw = dict(reduce_qpts=False, return_mode_gradients=True)
        py, gp = f(q, use_c=False, **kw)
        c, gc = f(q, use_c=True, n_threads=1, **kw)
    ext.check()
    if ctx.symbolic:
        ctx.true('one diagonalisation each', len(st.mats) == 4)
        for k in range(2):
            ctx.eq('dynamical matrix', st.mats[2 + k], st.mats[k],
                   record=False)
        if modes:
            ctx.eq('eigenvectors', c.eigenvectors, py.eigenvectors,
                   record=False)
    ctx.eq('frequencies', c.frequencies.to('meV').magnitude,
           py.frequencies.to('meV').magnitude, record=False)
    ctx.eq('mode gradients', gc.to('meV*angstrom').magnitude,
           gp.to('meV*angstrom').magnitude, record=False, scale_tol=1e-9)


@harness('C02', functions=FN, needs_c=True, bounds='two atoms, fixed force '
         'constants, one component of q in [-1.2,1.2], both sum rules',
         cases=[dict(g=g, asr=a, ax=x) for g, a, x in (
             ('tri2', 'reciprocal', 0), ('tri2', 'realspace', 0),
             ('tri2u', 'reciprocal', 1), ('hex2', 'realspace', 1))], traces=1)
def asr(ctx, g, asr, ax):
    obj = make_fc(ctx, g, mass=ctx.const([23., 35.5]),
                  fc=ctx.const(conc_fc(g, 5)))[0]
    q = [[0.13, -0.27, 0.41], [0., 0., 0.], [.5, .3, .05]]
    q[0][ax] = ctx.real('q', -1.2, 1.2)
    q = ctx.arr(q)
    with Ext(ctx) as ext:
        py, c = run_both(ctx, obj, q, ext, reduce_qpts=False, asr=asr)
    compare(ctx, py, c)


EPS = [[2., .3, -.2], [.3, 3., .1], [-.2, .1, 2.5]]
QL = {
    'path': [[0., 0., 0.], [.1, .2, 0.], [0., 0., 0.], [.3, -.2, .1]],
    'out': [[1.13, -2.27, 0.41], [.5, 0., 0.], [.5, .5, .5]],
    'gammaG': [[.2, 0., 0.], [1., -2., 0.], [.01, .02, .03]],
    'alone': [[0., 0., 0.]],
    'pair': [[0., 0., 0.], [1., 0., 0.]],
    'pathg': [[.1, .2, .15], [0., 0., 0.], [.3, -.2, .1]],
    'out2': [[1.13, -2.27, 0.41], [.5, .1, -.05]],
}


def polar(ctx, g='tri2u', eps=None, fc=None, born=None, mass=None):
    born = ctx.reals('z', (2, 3, 3), -3., 3.) if born is None else born
    return make_fc(ctx, g, mass=ctx.const([23., 35.5]) if mass is None else
                   mass, fc=ctx.const(conc_fc(g, 5)) if fc is None else fc,
                   born=born, dielectric=ctx.const(
                       EPS if eps is None else eps))[0]


@harness('C02', functions=FN, needs_c=True, bounds='two atoms, every Born '
         'tensor in [-3,3], full dielectric tensor, lists of q-points with and '
         'without zone centres; splitting, inserted points, sum rules and '
         'reduction of q-points as listed', cases=[
             dict(g=g, l=l, kw=k) for g, l, k in (
                 ('tri2u', 'path', dict(splitting=True)),
                 ('tri2u', 'path', dict(splitting=True, insert_gamma=True)),
                 ('tri2u', 'path', dict(splitting=False)),
                 ('tri2u', 'path', dict(dipole=False)),
                 ('hex2u', 'out', dict(splitting=True, dipole_parameter=.7)),
                 ('fcc2u', 'gammaG', dict(reduce_qpts=False)),
                 ('fcc2u', 'gammaG', dict(splitting=False, asr='reciprocal')),
                 ('tri2u', 'pair', dict(reduce_qpts=False)),
                 ('tri2u', 'alone', dict(asr='reciprocal')))], traces=1)
def dipole(ctx, g, l, kw):
    obj = polar(ctx, g)
    if kw.get('asr') == 'reciprocal':
        # the sum rule takes eigenvectors: Born charges fixed
        obj = polar(ctx, g, born=ctx.const([
            [[1.1, .1, -.2], [.05, 1.3, .07], [.11, -.06, .9]],
            [[-1.1, -.1, .2], [-.05, -1.3, -.07], [-.11, .06, -.9]]]))
    with Ext(ctx) as ext:
        py, c = run_both(ctx, obj, ctx.const(QL[l]), ext, **kw)
    compare(ctx, py, c)


@harness('C02', functions=FN, needs_c=True, opts={
    'abs_mode': 'atom', 'max_mode': 'atom'}, bounds='two atoms, every Born '
    'tensor in [-3,3], full dielectric tensor, every eigenvalue and eigenvector '
    '(eigensolver arbitrary); mode gradients with the dipole correction, at '
    'split zone centres and at other q-points', cases=[
        dict(l='pathg', modes=True, kw=dict(splitting=True)),
        dict(l='out2', modes=False, kw=dict(reduce_qpts=False)),
        dict(l='pathg', modes=False, kw=dict(insert_gamma=True))], traces=1)
def gradients_dipole(ctx, l, modes, kw):
    obj = polar(ctx)
    if not ctx.symbolic:
        obj = polar(ctx, born=obj._born)
    f = obj.calculate_qpoint_phonon_modes if modes else \
        obj.calculate_qpoint_frequencies
    st = PairStub(ctx, len(QL[l]) + bool(kw.get('insert_gamma')), ())
    with Ext(ctx) as ext, st, quiet():
        kw = dict(kw, return_mode_gradients=True)
        py, gp = f(ctx.const(QL[l]), use_c=False, **kw)
        c, gc = f(ctx.const(QL[l]), use_c=True, n_threads=1, **kw)
    ext.check()
    if ctx.symbolic:
        n = len(st.mats) // 2
        for k in range(n):
            ctx.eq('dynamical matrix', st.mats[n + k], st.mats[k],
                   record=False)
    ctx.eq('frequencies', c.frequencies.to('meV').magnitude,
           py.frequencies.to('meV').magnitude, record=False)
    ctx.eq('mode gradients', gc.to('meV*angstrom').magnitude,
           gp.to('meV*angstrom').magnitude, record=False, scale_tol=1e-9)


@harness('C02', functions=FN, needs_c=True, bounds='two atoms, every Born '
         'tensor in [-3,3]; 2-4 threads over 5-6 q-points with several split '
         'zone centres, with and without eigenvectors and gradients, every '
         'interleaving (places touched by two threads without synchronisation)',
         opts={'abs_mode': 'atom', 'max_mode': 'atom'},
         cases=[dict(T=t, modes=m, grad=g, split=s) for t, m, g, s in (
             (2, True, False, True), (3, False, False, True),
             (2, False, True, False), (4, True, False, False))], traces=1)
def threads(ctx, T, modes, grad, split):
    z = [[[1.1, .1, -.2], [.05, 1.3, .07], [.11, -.06, .9]],
         [[-1.2, -.1, .2], [-.05, -1.3, -.17], [-.11, .06, -.9]]]
    born = ctx.const(z)
    if not grad and ctx.symbolic:
        born = ctx.reals('z', (2, 3, 3), -3., 3.)
    obj = polar(ctx, born=born, fc=ctx.const(conc_fc('tri2u', 5)))
    qs = [[0., 0., 0.], [.1, .2, 0.], [0., 0., 0.], [.3, -.2, .1],
          [0., 0., 0.], [.2, 0., 0.]]
    if not ctx.symbolic:
        # on the compiled code: many q-points and threads, so that threads
        # which disturb each other do so
        k = np.arange(3000) / 3000.
        qs = np.stack([k, k * k, .3 - k], axis=1)
        qs[::2] = 0.
    f = obj.calculate_qpoint_phonon_modes if modes else \
        obj.calculate_qpoint_frequencies
    kw = dict(splitting=split, reduce_qpts=False, return_mode_gradients=grad,
              dipole_parameter=.9)
    if not ctx.symbolic:
        for opt in ('-O2', '-O0'):
            with compiled(opt), quiet():
                res = [arrays(f(ctx.const(qs), use_c=True, n_threads=t, **kw))
                       for t in (1, 8, 8, 8, 5)]
            bad = sum(not np.array_equal(x, y, equal_nan=True)
                      for r in res[1:] for x, y in zip(r, res[0]))
            ctx.true('no data races between threads', not bad,
                     f'{bad} arrays differ between 1 and 8 threads ({opt})')
            for k, v in zip(('frequencies', 'eigenvectors', 'mode gradients'),
                            zip(*res)):
                ctx.true(k, all(np.array_equal(x, v[0], equal_nan=True)
                                for x in v),
                         f'differ between 1 and 8 threads ({opt})')
        return
    with Ext(ctx) as ext, EchoEigh(ctx), quiet():
        a = f(ctx.const(qs), use_c=True, n_threads=1, **kw)
        b = f(ctx.const(qs), use_c=True, n_threads=T, **kw)
    ext.check(2)
    (a, ga), (b, gb) = (a, b) if grad else ((a, None), (b, None))
    ctx.eq('frequencies', b.frequencies.to('meV').magnitude,
           a.frequencies.to('meV').magnitude, record=False)
    if modes:
        ctx.eq('eigenvectors', b.eigenvectors, a.eigenvectors, record=False)
    if grad:
        ctx.eq('mode gradients', gb.to('meV*angstrom').magnitude,
               ga.to('meV*angstrom').magnitude, record=False)
    ctx.true('threads', [rt.teams for rt in ext.mod.calls] == [[], [T]])


def arrays(out):
    m, g = out if isinstance(out, tuple) else (out, None)
    return [m.frequencies.to('meV').magnitude] + (
        [m.eigenvectors] if hasattr(m, 'eigenvectors') else []) + (
        [g.to('meV*angstrom').magnitude] if g is not None else [])


@contextlib.contextmanager
def compiled(opt):
    """the extension compiled with other optimisation (a race by the rules of
    the language may be hidden by a variable kept in a register)"""
    import sys
    import euphonic
    from vf import run
    old = sys.modules.get('euphonic._euphonic')
    with tempfile.TemporaryDirectory() as d:
        run.inject_c(run.build_c(d, opt))
        try:
            yield
        finally:
            if old is not None:
                sys.modules['euphonic._euphonic'] = old
                euphonic._euphonic = old


LAY = {'F': lambda a: a.transpose().copy().transpose(),
       'int': lambda a: _whole(a),
       'T': lambda a: a.transpose(tuple(range(1, a.ndim)) + (0,)).copy()
       .transpose((a.ndim - 1,) + tuple(range(a.ndim - 1))),
       'strided': lambda a: _stride(a),
       'rev': lambda a: a[::-1].copy()[::-1],
       'f32': lambda a: a.astype(np.float32),
       'i64': lambda a: a.astype(np.int64), 'i16': lambda a: a.astype(np.int16)}


def _whole(a):
    return np.array([int(round(float(v))) for v in np.asarray(a).ravel()],
                    dtype=np.int64).reshape(np.shape(a))


def _stride(a):
    b = np.repeat(np.repeat(np.asarray(a), 2, axis=0), 2, axis=-1)
    if type(a) is not np.ndarray:
        b = b.view(type(a))
    return b[1::2, ..., ::2]


@harness('C02', functions=FN, needs_c=True, bounds='two atoms, every force '
         'constants array and Born tensor; each array input in Fortran order, '
         'permuted, strided, reversed, single precision or another integer '
         'type', cases=[
             dict(what=w, lay=l) for w, l in (
                 ('fc', 'F'), ('fc', 'T'), ('fc', 'strided'), ('q', 'F'),
                 ('q', 'strided'), ('q', 'rev'), ('r', 'F'), ('r', 'strided'),
                 ('r', 'f32'), ('cell', 'F'), ('cell', 'strided'),
                 ('born', 'F'), ('born', 'T'), ('born', 'f32'), ('eps', 'F'),
                 ('eps', 'strided'), ('eps', 'f32'), ('origins', 'F'),
                 ('origins', 'strided'), ('origins', 'i64'),
                 ('origins', 'i16'), ('mass', 'rev'), ('q', 'int'),
                 ('born', 'int'), ('eps', 'int'), ('cell', 'int'),
                 ('mass', 'int'),
                 ('sc', 'F'), ('sc', 'i64'))], traces=1)
def layout(ctx, what, lay):
    from euphonic import Crystal, ForceConstants, ureg
    geo = GEOM['tri2']
    cells, ims = ws_images(geo)
    f = LAY[lay]
    L = lambda n, a: f(a) if n == what else a
    fc = herm_fc(ctx, 'fc', cells, geo['sc'], 2)
    born = ctx.const(np.arange(18.).reshape(2, 3, 3) % 5. - 2.) \
        if (what, lay) == ('born', 'int') else ctx.reals(
            'z', (2, 3, 3), -3., 3.)
    eps = ctx.const([[2., .5, -.25], [.5, 3., .125], [-.25, .125, 2.5]])
    cell = ctx.const([[3., .25, .125], [.25, 3.5, -.25], [-.125, .5, 4.]])
    r = ctx.const([[.0625, .125, 0.], [.5, .5625, .375]])
    cr = Crystal(L('cell', cell) * ureg('bohr'), L('r', r),
                 np.array(geo['types']),
                 L('mass', ctx.const([23., 35.5])) * ureg('amu'))
    sc = np.array(geo['sc'])
    obj = ForceConstants(
        cr, L('fc', fc) * ureg('hartree/bohr**2'), L('sc', sc),
        L('origins', np.array(cells, dtype=np.int32)),
        born=L('born', born) * ureg('e'),
        dielectric=L('eps', eps) * ureg('e**2/(bohr*hartree)'))
    q = L('q', ctx.const([[0., 0., 0.], [1., 2., -1.]] if lay == 'int' else
                         [[0., 0., 0.], [.25, -.125, .0625]]))
    with Ext(ctx) as ext:
        py, c = run_both(ctx, obj, q, ext, reduce_qpts=False,
                         dipole_parameter=.6)
    compare(ctx, py, c)


@harness('C02', functions=FN, needs_c=True, bounds='two atoms, every force '
         'constant in [-1,1], two q-points; with the extension there or not, '
         'asked for, left out or not specified, and the number of threads given, '
         'in EUPHONIC_NUM_THREADS or neither', cases=[
             dict(there=t, use=u, n=n, env=e) for t, u, n, e in (
                 (True, None, 2, None), (True, True, None, '2'),
                 (True, None, 1, '2'), (True, True, None, None),
                 (True, None, None, '1'), (True, False, 2, None),
                 (False, None, 2, None), (False, False, None, '2'),
                 (False, True, 1, None))], traces=1)
def chosen(ctx, there, use, n, env):
    """which program calculates, and with how many threads"""
    import sys
    import warnings
    from unittest import mock
    obj, fc, *_ = make_fc(ctx, 'tri2')
    q = ctx.const([[.1, .2, .3], [0., 0., 0.]])
    with EchoEigh(ctx), quiet():
        py = obj.calculate_qpoint_phonon_modes(q, use_c=False)
    with Ext(ctx) as ext:
        if there:
            import euphonic._euphonic as real
            calls = []

            class Watched:
                def calculate_phonons(self, *a, **k):
                    calls.append((a, k))
                    return real.calculate_phonons(*a, **k)
            mod = Watched()
        else:
            mod, calls = None, []
        environ = dict(os.environ)
        environ.pop('EUPHONIC_NUM_THREADS', None)
        if env:
            environ['EUPHONIC_NUM_THREADS'] = env
        import euphonic
        import multiprocessing
        with mock.patch.dict(sys.modules, {'euphonic._euphonic': mod}), \
                mock.patch.dict(os.environ, environ, clear=True), \
                mock.patch.object(euphonic, '_euphonic', mod, create=True), \
                EchoEigh(ctx), warnings.catch_warnings(record=True) as w:
            if not there:
                del euphonic._euphonic
            warnings.simplefilter('always')
            go = lambda: obj.calculate_qpoint_phonon_modes(
                q, use_c=use, n_threads=n)
            if use and not there:
                from euphonic.force_constants import ImportCError
                ctx.expect_raise('no extension', ImportCError, go)
                return
            c = go()
            if not there:
                euphonic._euphonic = real = None
    ctx.true('program', len(calls) == (there and use is not False),
             f'{len(calls)}')
    ctx.true('warning', any('C extension' in str(x.message) for x in w)
             == (not there and use is None), f'{[str(x.message) for x in w]}')
    if calls:
        t = calls[0][0][-1] if calls[0][0] else list(calls[0][1].values())[-1]
        ctx.true('threads', int(t) == (n or int(env or 0)
                                       or multiprocessing.cpu_count()), f'{t}')
    compare(ctx, py, c)
