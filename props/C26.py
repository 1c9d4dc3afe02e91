"""C26: readers of CASTEP and Phonopy files"""
import contextlib
import io
import os
import shutil
import struct
import sys
import tempfile
import numpy as np
from vf.harness import harness
from .common import *
from .C11 import SC, cells_of, klass, layout
from .C18 import FACTOR

FN = ['readers.castep.read_phonon_data', 'readers.castep._read_crystal_info',
      'readers.castep._read_frequency_block',
      'readers.castep.read_phonon_dos_data',
      'readers.castep.read_interpolation_data', 'readers.castep._read_cell',
      'readers.castep._read_entry', 'QpointPhononModes.from_castep',
      'QpointFrequencies.from_castep', 'ForceConstants.from_castep',
      'Spectrum1D.from_castep_phonon_dos',
      'Spectrum1DCollection.from_castep_phonon_dos']
FP = ['readers.phonopy.read_phonon_data',
      'readers.phonopy.convert_eigenvector_phases',
      'readers.phonopy._extract_phonon_data_yaml',
      'readers.phonopy._extract_phonon_data_hdf5',
      'readers.phonopy._extract_summary',
      'readers.phonopy._extract_force_constants',
      'readers.phonopy._extract_force_constants_hdf5',
      'readers.phonopy._extract_born',
      'readers.phonopy.read_interpolation_data', 'util.convert_fc_phases',
      'QpointPhononModes.from_phonopy', 'QpointFrequencies.from_phonopy',
      'ForceConstants.from_phonopy']
CM = FACTOR[('meV', '1/cm')]
THZ = FACTOR[('meV', 'THz')]
BOHR = .529177210903
HA = 27.211386245988
AMU = 1822.888486209


class Files:
    """a scratch folder of input files.  In a symbolic run every symbolic
    number is written as a number of its own, and what the reader gets for
    that number from its parsing library is the symbolic value; in a concrete
    run the values themselves are written"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.tags = {}
        self.k = 0
        self.undo = []

    def __enter__(self):
        self.dir = tempfile.mkdtemp()
        return self

    def __exit__(self, *a):
        for o, n, had, old in reversed(self.undo):
            setattr(o, n, old) if had else delattr(o, n)
        shutil.rmtree(self.dir)

    def path(self, n):
        return os.path.join(self.dir, n)

    # -- writing ------------------------------------------------------------
    def val(self, v):
        if isinstance(v, (int, float, np.floating, np.integer)):
            return float(v)
        self.k += 1
        t = float('%.9f' % (7.130000037 + self.k * 1.37e-4))
        if self.k % 3 == 0:
            t = -t
        self.tags[t] = v
        return t

    def num(self, v, fmt='%.12f'):
        return fmt % self.val(v)

    def nums(self, vs, fmt='%.12f'):
        return ' '.join(self.num(v, fmt) for v in flat(vs))

    def array(self, vs, shape, dtype='>f8'):
        return np.array([self.val(v) for v in flat(vs)],
                        dtype=dtype).reshape(shape)

    # -- reading ------------------------------------------------------------
    def one(self, x):
        return self.tags.get(x, x) if isinstance(x, float) else x

    def back(self, x):
        if isinstance(x, float):
            return self.one(x)
        if isinstance(x, (list, tuple)):
            return type(x)(self.back(y) for y in x)
        if isinstance(x, dict):
            return {k: self.back(v) for k, v in x.items()}
        if isinstance(x, np.ndarray) and x.dtype.kind == 'f':
            o = [float(y) for y in x.ravel()]
            if any(y in self.tags for y in o):
                return self.ctx.arr([self.one(y) for y in o]).reshape(x.shape)
        if isinstance(x, np.ndarray) and x.dtype == object:
            o = list(x.ravel())
            if any(isinstance(y, float) and y in self.tags for y in o):
                return self.ctx.arr([self.one(y) for y in o]).reshape(x.shape)
        if isinstance(x, np.ndarray) and x.dtype.kind == 'c':
            o = [complex(y) for y in x.ravel()]
            if any(y.real in self.tags or y.imag in self.tags for y in o):
                return self.ctx.arr([self.one(y.real) + 1j * self.one(y.imag)
                                     for y in o]).reshape(x.shape)
        return x

    def put(self, o, n, f):
        had = n in vars(o)
        self.undo.append((o, n, had, vars(o).get(n)))
        setattr(o, n, f)

    def hook(self):
        """parsers used by the readers give the symbolic values"""
        import euphonic.readers.castep
        import euphonic.readers.phonopy
        if not self.ctx.symbolic:
            return
        F = self

        class Proxy:
            def __init__(self, base, names):
                self.__dict__['base'] = base
                self.__dict__['names'] = names

            def __getattr__(self, n):
                a = getattr(self.base, n)
                if n in self.names:
                    return lambda *b, **k: F.back(a(*b, **k))
                return a

        class Float(float):
            def __new__(cls, x=0.):
                return F.one(float(x)) if isinstance(x, (str, float)) else \
                    float(x)
        for m in list(sys.modules):
            if not m.startswith('euphonic.readers.'):
                continue
            mod = sys.modules[m]
            self.put(mod, 'float', Float)
            if hasattr(mod, 'np'):
                self.put(mod, 'np', Proxy(mod.np, (
                    'array', 'asarray', 'loadtxt', 'genfromtxt', 'fromfile',
                    'fromstring', 'frombuffer', 'asarray_chkfinite')))
            if hasattr(mod, 'struct'):
                self.put(mod, 'struct', Proxy(mod.struct, (
                    'unpack', 'unpack_from')))
        import yaml
        for n in ('load', 'safe_load'):
            f = getattr(yaml, n)
            self.put(yaml, n, lambda *a, f=f, **k: F.back(f(*a, **k)))
        import h5py
        g = h5py.Dataset.__getitem__
        self.put(h5py.Dataset, '__getitem__', lambda d, *a, **k: F.back(
            g(d, *a, **k)))

    def read(self, f, *a, **k):
        self.hook()
        with quiet(), contextlib.redirect_stdout(io.StringIO()):
            return f(*a, **k)

    def write(self, n, text):
        with open(self.path(n), 'w') as f:
            f.write(text)
        return self.path(n)


def flat(v):
    if hasattr(v, 'ravel'):
        return list(v.ravel())
    if isinstance(v, (list, tuple)):
        return [y for x in v for y in flat(x)]
    return [v]


def crystal(ctx, types, rlo=-1., rhi=2.):
    n = len(types)
    return dict(n=n, types=list(types), cell=ctx.reals('cell', (3, 3), 1., 9.),
                r=ctx.reals('r', (n, 3), rlo, rhi),
                mass=ctx.reals('mass', (n,), 1., 200.))


def check_crystal(ctx, c, got, cell=1., mass=1., wrapped=False):
    ctx.eq('cell vectors', got.cell_vectors.to('angstrom').magnitude,
           [[c['cell'][i, j] * cell for j in range(3)] for i in range(3)],
           tol=1e-6)
    ctx.eq('masses', got.atom_mass.to('amu').magnitude,
           [m * mass for m in c['mass']], tol=1e-6)
    ctx.true('species', [str(t) for t in got.atom_type] == c['types'])
    ctx.true('number of atoms', got.n_atoms == c['n'])
    if wrapped:
        for i in range(c['n']):
            for k in range(3):
                v = got.atom_r[i, k]
                ctx.true('within the cell', (v >= 0) & (v < 1 + 1e-12))
                d = v - c['r'][i, k]
                ctx.true('same place', (d == -1) | (d == 0) | (d == 1)
                         if ctx.symbolic else abs(d - round(d)) < 1e-9)
    else:
        ctx.eq('positions', got.atom_r, [[c['r'][i, k] for k in range(3)]
                                         for i in range(c['n'])])


# -- .phonon -----------------------------------------------------------------
def header(F, c, lines):
    t = ' BEGIN header\n' + ''.join(lines) + ' Unit cell vectors (A)\n'
    for i in range(3):
        t += '    ' + F.nums(c['cell'][i]) + '\n'
    t += ' Fractional Co-ordinates\n'
    for i in range(c['n']):
        t += f'     {i + 1}  {F.nums(c["r"][i])}   {c["types"][i]}      ' \
             f'{F.num(c["mass"][i])}\n'
    return t + ' END header\n'


def qline(F, qid, q, w, d=None):
    return f'     q-pt={qid:5d}    {F.nums(q)}      {F.num(w)}' + (
        f'    {F.nums(d)}' if d is not None else '') + '\n'


# blocks: (CASTEP q-point index, with a direction)
PH = {'plain': [(1, 0), (2, 0), (3, 0)],
      'loto': [(1, 1), (1, 0), (2, 0)],
      'loto3': [(1, 1), (1, 1), (1, 0), (2, 0)],
      'middle': [(1, 0), (2, 0), (2, 1), (3, 0)],
      'all split': [(1, 1), (1, 1), (2, 0)],
      'one split': [(1, 1), (2, 0)],
      'two exact': [(1, 1), (1, 0), (1, 0), (2, 0)],
      'two points': [(1, 1), (1, 0), (2, 0), (3, 0), (3, 1)],
      'repeat': [(1, 0), (1, 0), (12345, 0)],
      'many': [(i, 0) for i in range(1, 10)] + [(10, 1), (10, 0)] +
      [(i, 0) for i in range(11, 19)]}
BIG = ['Na', 'Cl', 'O', 'Na', 'Si', 'O', 'Cl', 'Cl', 'Na', 'H', 'O', 'Si']


@harness('C26', functions=FN, bounds='.phonon of 1-2 and 4-12 atoms and 2-19 blocks in ten '
         'patterns of repeated and split zone centres; every number symbolic '
         '(fixed-point notation); averaging and non-split preference on and off',
         cases=[dict(pat=p, avg=a, non=n, cls=c, types=t)
                for p in PH if p != 'many' for a, n, c, t in (
                    (True, False, 'QpointPhononModes', ['Na', 'Cl']),
                    (False, False, 'QpointFrequencies', ['Na']),
                    (True, True, 'QpointFrequencies', ['Na']),
                    (False, True, 'QpointPhononModes', ['Si']))] + [
             dict(pat='many', avg=True, non=False, cls='QpointFrequencies',
                  types=BIG),
             dict(pat='many', avg=True, non=True, cls='QpointPhononModes',
                  types=BIG[:4]),
             dict(pat='repeat', avg=False, non=False, types=BIG,
                  cls='QpointPhononModes')], traces=1)
def phonon_file(ctx, pat, avg, non, cls, types):
    """every number of the file in its place, weights of repeated points"""
    import euphonic
    c = crystal(ctx, types)
    n, m = c['n'], 3 * c['n']
    blocks = PH[pat]
    nb = len(blocks)
    ids = [b[0] for b in blocks]
    q = ctx.reals('q', (nb, 3), -1., 1.)
    w = ctx.reals('w', (nb,), .01, 1.)
    d = ctx.reals('d', (nb, 3), -1., 1.)
    f = ctx.reals('f', (nb, m), -50., 900.)
    ir = ctx.reals('ir', (nb, m), 0., 9.)
    e = ctx.reals('e', (nb, m, n, 3, 2), -1., 1.)
    for i in range(1, nb):
        if ids[i] == ids[i - 1]:        # one weight for all of its blocks
            w = list(w)
            w[i] = w[i - 1]
    with Files(ctx) as F:
        t = header(F, c, [
            f' Number of ions         {n}\n Number of branches     {m}\n',
            f' Number of wavevectors  {len(set(ids))}\n',
            ' Frequencies in         cm-1\n',
            ' IR intensities in      (D/A)**2/amu\n',
            ' Raman activities in    A**4 amu**(-1)\n'])
        for b, (qid, dr) in enumerate(blocks):
            t += qline(F, qid, q[b], w[b], d[b] if dr else None)
            for j in range(m):
                t += f'       {j + 1}     {F.num(f[b, j])}        ' \
                     f'{F.num(ir[b, j])}\n'
            t += '                        Phonon Eigenvectors\nMode Ion' \
                 '                X                  Y              Z\n'
            for j in range(m):
                for a in range(n):
                    t += f'   {j + 1}   {a + 1} {F.nums(e[b, j, a])}\n'
        fn = F.write('a.phonon', t)
        split = {i: [b for b in range(nb) if ids[b] == i] for i in ids}
        bad = non and any(
            len(v) > 1 and 1 < sum(not blocks[b][1] for b in v) < len(v)
            for v in split.values())
        go = lambda: F.read(getattr(euphonic, cls).from_castep, fn,
                            average_repeat_points=avg, prefer_non_loto=non)
        if bad:
            ctx.expect_raise('ambiguous', ValueError, go)
            return
        r = go()
    want = list(w)
    for i, v in split.items():
        if len(v) == 1:
            continue
        if non and sum(not blocks[b][1] for b in v) == 1:
            for b in v:
                if blocks[b][1]:
                    want[b] = 0.
        elif avg:
            for b in v:
                want[b] = w[b] / len(v)
    check_crystal(ctx, c, r.crystal)
    ctx.eq('q-points', r.qpts, [[q[b, k] for k in range(3)]
                                for b in range(nb)])
    ctx.eq('weights', r.weights, want)
    ctx.eq('frequencies', r.frequencies.to('meV').magnitude, [
        [f[b, j] / CM for j in range(m)] for b in range(nb)], tol=1e-6)
    if cls == 'QpointPhononModes':
        ctx.eq('eigenvectors', r.eigenvectors, [[[[
            e[b, j, a, k, 0] + 1j * e[b, j, a, k, 1] for k in range(3)]
            for a in range(n)] for j in range(m)] for b in range(nb)])


@harness('C26', functions=FN, bounds='.phonon_dos of 1-7 atoms, 1-4 species in '
         'any order, 1-5 q-points, one of them with a direction, 2-40 bins; every '
         'number symbolic', cases=[
             dict(types=t, nq=q, nbins=b, split=s) for t, q, b, s in (
                 (['Si'], 1, 3, False), (['Na', 'Cl'], 2, 2, False),
                 (['O', 'Si', 'O'], 1, 2, False), (['Cl', 'Na'], 3, 2, True),
                 (BIG[:7], 5, 40, False))] +
         [dict(types=['Si'], nq=1, nbins=2, split=False, units=u) for u in (
             ('bohr', 'm_e', 'meV'), ('nm', 'amu', '1/cm'),
             ('angstrom', 'kg', 'hartree'))],
         traces=1)
def phonon_dos_file(ctx, types, nq, nbins, split, units=None):
    from euphonic import Spectrum1D, Spectrum1DCollection
    from euphonic.readers import castep
    c = crystal(ctx, types)
    n, m = c['n'], 3 * c['n']
    sp = list(dict.fromkeys(types))
    q = ctx.reals('q', (nq, 3), -1., 1.)
    w = ctx.reals('w', (nq,), .01, 1.)
    f = ctx.reals('f', (nq, m), -50., 900.)
    g = ctx.reals('g', (nq, m), 0., 900.)
    ir = ctx.reals('ir', (nq, m), 0., 9.)
    x0 = ctx.real('x0', -10., 10.)
    dx = ctx.reals('dx', (nbins,), 1., 2.)
    y = ctx.reals('y', (nbins, 1 + len(sp)), 0., 9.)
    x = [x0]
    for i in range(1, nbins):
        x.append(x[-1] + dx[i])
    with Files(ctx) as F:
        t = header(F, c, [
            f'  Number of ions                {n}\n',
            f'  Number of species             {len(sp)}\n',
            f'  Number of branches           {m}\n',
            f'  Number of bins in DOS      {nbins}\n'])
        t += ' BEGIN GRADIENTS   n   f   |Grad_q f|\n'
        for b in range(nq):
            s = split and b == 1
            t += qline(F, b + 1, q[b], w[b], [1., 0., .5] if s else None)
            for j in range(m):
                t += f'       {j + 1}     {F.num(f[b, j])}   ' + (
                    F.num(ir[b, j]) + '   ' if s else '') + \
                    f'     {F.num(g[b, j])}\n'
        t += ' END GRADIENTS\n BEGIN DOS   Freq (cm-1)  g(f)   ' + \
            '       '.join(sp) + '\n'
        for i in range(nbins):
            t += f' {F.num(x[i])}  {F.nums(y[i])}\n'
        fn = F.write('a.phonon_dos', t + ' END DOS\n')
        if units:
            given_units(ctx, c, F.read(
                castep.read_phonon_dos_data, fn, cell_vectors_unit=units[0],
                atom_mass_unit=units[1], frequencies_unit=units[2],
                mode_gradients_unit=f'{units[2]}*{units[0]}'), units,
                f=f, g=g, x=x, y=y)
            return
        d = F.read(castep.read_phonon_dos_data, fn)
        tot = F.read(Spectrum1D.from_castep_phonon_dos, fn)
        one = F.read(Spectrum1D.from_castep_phonon_dos, fn, element=sp[-1])
        col = F.read(Spectrum1DCollection.from_castep_phonon_dos, fn)
    ctx.eq('q-points', d['qpts'], [[q[b, k] for k in range(3)]
                                   for b in range(nq)])
    ctx.eq('weights', d['weights'], [w[b] for b in range(nq)])
    ctx.eq('frequencies', d['frequencies'], [
        [f[b, j] / CM for j in range(m)] for b in range(nq)], tol=1e-6)
    ctx.eq('gradients', d['mode_gradients'], [
        [g[b, j] / CM for j in range(m)] for b in range(nq)], tol=1e-6)
    ctx.eq('cell vectors', d['crystal']['cell_vectors'], c['cell'])
    ctx.eq('positions', d['crystal']['atom_r'], c['r'])
    ctx.eq('masses', d['crystal']['atom_mass'], c['mass'])
    ctx.true('units', (d['frequencies_unit'], d['mode_gradients_unit'],
                       d['crystal']['cell_vectors_unit'],
                       d['crystal']['atom_mass_unit']) == (
        'meV', 'meV*angstrom', 'angstrom', 'amu'))
    for s in (tot, one, col):
        ctx.eq('bins', s.x_data.to('meV').magnitude, [v / CM for v in x],
               tol=1e-6)
    ctx.eq('total', tot.y_data.to('1/meV').magnitude, [
        y[i, 0] * CM for i in range(nbins)], tol=1e-6)
    ctx.eq('one species', one.y_data.to('1/meV').magnitude, [
        y[i, len(sp)] * CM for i in range(nbins)], tol=1e-6)
    ctx.eq('all', col.y_data.to('1/meV').magnitude, [
        [y[i, j] * CM for i in range(nbins)] for j in range(1 + len(sp))],
        tol=1e-6)
    ln = col.metadata['line_data']
    ctx.true('lines', [l['label'] for l in ln] == ['Total'] + sp
             and [l.get('species') for l in ln] == [None] + sp
             and one.metadata.get('species') == sp[-1]
             and 'species' not in tot.metadata)


LENGTH = {'angstrom': 1., 'bohr': 1 / BOHR, 'nm': .1}
MASS = {'amu': 1., 'm_e': AMU, 'kg': 1.66053906660e-27}


def given_units(ctx, c, d, units, f, g=None, x=None, y=None, per=CM):
    """the same numbers in other units"""
    l, m = LENGTH[units[0]], MASS[units[1]]
    e = {'meV': 1., '1/cm': CM, 'hartree': 1e-3 / HA}[units[2]] / per
    k = d['crystal']
    ctx.true('units', (k['cell_vectors_unit'], k['atom_mass_unit'],
                       d['frequencies_unit']) == tuple(units))
    ctx.eq('cell vectors', k['cell_vectors'], [[v * l for v in r]
                                               for r in c['cell']], tol=1e-6)
    ctx.eq('masses', ctx.arr(flat(k['atom_mass'])) / m, c['mass'], tol=1e-6)
    ctx.eq('positions', k['atom_r'], c['r'])
    two = lambda v, s: [[t * s for t in r] for r in v]
    ctx.eq('frequencies', d['frequencies'], two(f, e), tol=1e-6)
    if g is not None:
        ctx.true('gradient unit', d['mode_gradients_unit'].replace(' ', '') in
                 (f'{units[2]}*{units[0]}', f'{units[0]}*{units[2]}'))
        ctx.eq('gradients', d['mode_gradients'], two(g, e * l), tol=1e-6)
        ctx.eq('bins', d['dos_bins'], [v * e for v in x], tol=1e-6)
        ctx.eq('densities', list(d['dos'].values()), [
            [r[j] / e for r in y] for j in range(2)], tol=1e-6)


# -- .castep_bin -------------------------------------------------------------
CB = [dict(count=c, sc=s, dip=d, **k) for c, s, d, k in (
    ([1], 'one', 'both', {}), ([2], 'chain2', '', {}),
    ([1, 1], 'chain2', 'both', {}), ([1, 2], 'shear', '', {}),
    ([2, 1], 'root2', 'both', {}), ([1, 1], 'one', '', {'bad': 'no fc'}),
    ([1, 1], 'one', '', {'bad': 'old'}), ([1, 1], 'left', 'both', {}),
    ([3, 1, 2], 'big', 'both', {}), ([1, 2], 'chain13', '', {}))]


@harness('C26', functions=FN, bounds='.castep_bin of 1-3 species with 1-3 atoms '
         'each, seven supercells of 1-13 cells, with and without Born charges; every number '
         'symbolic; missing force constants and versions before 17.1 refused',
         cases=CB, traces=1)
def castep_bin(ctx, count, sc, dip, bad=''):
    from euphonic import ForceConstants
    from euphonic.util import get_all_origins
    ns, n = len(count), sum(count)
    sp = ['Na', 'Cl', 'O'][:ns]
    cell = ctx.reals('cell', (3, 3), 1., 9.)
    cell2 = ctx.reals('old', (3, 3), 1., 9.)
    mass = ctx.reals('mass', (ns,), 2000., 9000.)
    mx = max(count)
    lo = ctx.choice('place', [-1., 0., 1.])
    r = ctx.reals('r', (n, 3), lo + .01, lo + .99)
    S = np.array(SC[sc])
    cells = cells_of(S)
    nc = len(cells)
    fc = ctx.reals('fc', (nc, 3 * n, 3 * n), -1., 1.)
    z = ctx.reals('born', (n, 3, 3), -2., 2.)
    eps = ctx.reals('eps', (3, 3), 1., 9.)
    with Files(ctx) as F:
        out = []

        def rec(b):
            if isinstance(b, str):
                b = b.encode()
            elif isinstance(b, np.ndarray):
                b = b.tobytes()
            out.append(struct.pack('>i', len(b)) + b + struct.pack(
                '>i', len(b)))

        def key(k):
            rec(k.ljust(30))

        def ints(v):
            rec(np.array(v, dtype='>i4'))

        def unit_cell(cv, shift):
            key('BEGIN_UNIT_CELL')
            key('CELL%REAL_LATTICE')
            # CASTEP's array of columns: vector i in record place (j, i)
            rec(F.array([cv[i, j] for j in range(3) for i in range(3)], (9,)))
            key('CELL%NUM_SPECIES')
            ints([ns])
            key('CELL%NUM_IONS')
            ints([n])
            key('CELL%NUM_IONS_IN_SPECIES')
            ints(count)
            key('CELL%IONIC_POSITIONS')
            p = []
            a = 0
            for s in range(ns):
                for i in range(mx):
                    if i < count[s]:
                        p += [x + shift for x in r[a]]
                        a += 1
                    else:
                        p += [0., 0., 0.]
            rec(F.array(p, (len(p),)))
            key('CELL%SPECIES_SYMBOL')
            rec(''.join(s.ljust(8) for s in sp))
            key('CELL%SPECIES_MASS')
            rec(F.array([x for x in mass], (ns,)))
            key('END_UNIT_CELL')
        key('CASTEP_BIN')
        key('BEGIN_PARAMETERS_DUMP')
        rec('16.1' if bad == 'old' else '19.11')
        key('END_PARAMETERS_DUMP')
        unit_cell(cell, 0.)
        unit_cell(cell2, .003)
        if bad != 'no fc':
            key('FORCE_CON')
            ints(S.T.ravel())
            rec(F.array([fc[k, i, j] for k in range(nc) for j in range(3 * n)
                         for i in range(3 * n)], (nc * 9 * n * n,)))
            ints(np.array(cells).ravel())
            ints([0])
        if dip:
            key('BORN_CHGS')
            rec(F.array(z, (9 * n,)))
            key('DIELECTRIC')
            rec(F.array([eps[i, j] for j in range(3) for i in range(3)],
                        (9,)))
        key('END')
        fn = F.path('a.castep_bin')
        with open(fn, 'wb') as f:
            f.write(b''.join(out))
        go = lambda: F.read(ForceConstants.from_castep, fn)
        if bad:
            ctx.expect_raise('refused', ValueError if bad == 'old'
                             else RuntimeError, go)
            return
        g = go()
    c = dict(n=n, types=[s for s, k in zip(sp, count) for _ in range(k)],
             cell=cell, r=r, mass=[mass[s] for s, k in enumerate(count)
                                   for _ in range(k)])
    check_crystal(ctx, c, g.crystal, BOHR, 1 / AMU, wrapped=True)
    ctx.eq('force constants', g.force_constants.to(
        'hartree/bohr**2').magnitude, fc, tol=1e-6)
    ctx.true('supercell', np.array_equal(np.array(g.sc_matrix, dtype=float), S)
             and np.array_equal(np.array(g.cell_origins, dtype=float), cells))
    if dip:
        ctx.eq('Born charges', g.born.to('e').magnitude, z)
        ctx.eq('dielectric', g.dielectric.to('e**2/(bohr*hartree)').magnitude,
               eps, tol=1e-6)
    else:
        ctx.true('no dipoles', g.born is None and g.dielectric is None)


# -- phonopy modes -----------------------------------------------------------
def yl(F, m, ind):
    return ''.join(f'{ind}- [ {", ".join(F.num(x, "%.15f") for x in r)} ]\n'
                   for r in m)


def points(F, c, ind, red=None):
    t = ''
    for i in range(c['n']):
        t += f'{ind}- symbol: {c["types"][i]} # {i + 1}\n{ind}  coordinates: ' \
             f'[ {", ".join(F.num(x, "%.15f") for x in c["r"][i])} ]\n' \
             f'{ind}  mass: {F.num(c["mass"][i], "%.15f")}\n'
        if red:
            t += f'{ind}  reduced_to: {red[i]}\n'
    return t


def summary(F, c, units):
    t = 'phonopy:\n  version: 2.4.2\n'
    if units:
        t += 'physical_unit:\n' + ''.join(f'  {k}: "{v}"\n'
                                          for k, v in units.items())
    return t + 'primitive_cell:\n  lattice:\n' + yl(F, c['cell'], '  ') + \
        '  points:\n' + points(F, c, '  ')


PU = {'': None,
      'ang': {'atomic_mass': 'AMU', 'length': 'Angstrom',
              'force_constants': 'eV/Angstrom^2'},
      'au': {'atomic_mass': 'AMU', 'length': 'au',
             'force_constants': 'Ry/au^2'},
      'mixed': {'atomic_mass': 'AMU', 'length': 'Angstrom',
                'force_constants': 'eV/Angstrom.au'},
      'hartree': {'atomic_mass': 'AMU', 'length': 'au',
                  'force_constants': 'hartree/au^2'},
      'mRy': {'atomic_mass': 'AMU', 'length': 'au',
              'force_constants': 'mRy/au^2'}}
LEN = {'': 1., 'ang': 1., 'au': BOHR, 'mixed': 1., 'hartree': BOHR, 'mRy': BOHR}
# one unit of the file in hartree/bohr^2
FCU = {'': BOHR ** 2 / HA, 'ang': BOHR ** 2 / HA, 'au': .5,
       'mixed': BOHR / HA, 'hartree': 1., 'mRy': .0005}

PM = [dict(kind=k, fmt=f, cls=c, **o) for k, f, c, o in (
    ('mesh', 'yaml', 'QpointPhononModes', {}),
    ('band', 'yaml', 'QpointPhononModes', {}),
    ('qpoints', 'yaml', 'QpointPhononModes', {'units': 'ang'}),
    ('qpoints', 'yaml', 'QpointPhononModes', {'units': 'au'}),
    ('mesh', 'hdf5', 'QpointPhononModes', {'units': ''}),
    ('qpoints', 'hdf5', 'QpointPhononModes', {'units': 'au'}),
    ('band', 'hdf5', 'QpointPhononModes', {'units': 'ang'}),
    ('band', 'hdf5', 'QpointFrequencies', {'units': 'ang', 'eig': False}),
    ('band', 'hdf5', 'QpointFrequencies', {'units': 'ang'}),
    ('mesh', 'yaml', 'QpointFrequencies', {'eig': False}),
    ('mesh', 'yaml', 'QpointPhononModes', {'eig': False}),
    ('qpoints', 'hdf5', 'QpointPhononModes', {'units': 'ang', 'eig': False}),
    ('band', 'yaml', 'QpointFrequencies', {}),
    ('mesh', 'yml', 'QpointPhononModes', {'nq': 1}),
    ('qpoints', 'h5', 'QpointPhononModes', {'units': 'ang', 'nq': 1}),
    ('mesh', 'txt', 'QpointPhononModes', {'given': 'yaml'}),
    ('mesh', 'dat', 'QpointFrequencies', {'given': 'hdf5', 'units': 'ang'}),
    ('mesh', 'txt', 'QpointFrequencies', {'given': 'bad'}),
    ('qpoints', 'yaml', 'QpointFrequencies', {'units': 'ang', 'bad': 1}),
    ('qpoints', 'yaml', 'QpointFrequencies', {'units': 'ang', 'bad': 3}),
    ('qpoints', 'hdf5', 'QpointFrequencies', {'units': 'ang', 'bad': 3}),
    ('mesh', 'yaml', 'QpointPhononModes', {'types': ['Si', 'O', 'O']}),
    ('mesh', 'yaml', 'QpointFrequencies', {'types': BIG, 'nq': 3}),
    ('mesh', 'hdf5', 'QpointFrequencies', {'nq': 140, 'eig': False}),
    ('band', 'yaml', 'QpointPhononModes', {'types': BIG[:4], 'nq': 12}),
    ('qpoints', 'hdf5', 'QpointFrequencies', {'types': BIG, 'nq': 2}))]


@harness('C26', functions=FP, bounds='mesh, band and qpoints files as YAML and '
         'HDF5, 1-4 and 12 atoms, 1-3, 12 and 140 q-points, structure in the file or in '
         'phonopy.yaml in two length units; every number symbolic', cases=PM,
         traces=1, opts={'abs_mode': 'atom'})
def phonopy_modes(ctx, kind, fmt, cls, units='ang', eig=True, nq=2, given=None,
                  bad=False, types=('Na', 'Cl')):
    """frequencies in meV, weights normalised, eigenvector phases converted"""
    import euphonic
    types = list(types)
    c = crystal(ctx, types)
    n, m = c['n'], 3 * c['n']
    f = ctx.reals('f', (nq, m), -5., 30.)
    w = ctx.reals('w', (nq,), 1., 48.)
    # phases with a symbolic position need a fixed q-point
    q = np.array(([[.25, -.5, .125], [0., .5, -.375]] * nq)[:nq]) \
        if eig else \
        ctx.reals('q', (nq, 3), -1., 1.)
    e = ctx.reals('e', (nq, m, n, 3, 2), -1., 1.) if eig else None
    real = given if given in ('yaml', 'hdf5') else fmt
    own = real not in ('hdf5', 'h5') and kind != 'qpoints'
    name = f'{kind}.{fmt}'
    with Files(ctx) as F:
        if real in ('hdf5', 'h5'):
            import h5py
            # eigenvector[q, 3 a + k, mode] in all of them
            ev = None
            if eig:
                ev = np.empty((nq, m, m), dtype=complex)
                for b in range(nq):
                    for j in range(m):
                        for a in range(n):
                            for k in range(3):
                                v = F.val(e[b, j, a, k, 0]) + 1j * F.val(
                                    e[b, j, a, k, 1])
                                ev[b, 3 * a + k, j] = v
            fr = F.array(f, (nq, m), float)
            qa = F.array(q, (nq, 3), float)
            with h5py.File(F.path(name), 'w') as h:
                if kind == 'band':
                    h['path'] = qa.reshape(nq, 1, 3)
                    h['frequency'] = fr.reshape(nq, 1, m)
                    if eig:
                        h['eigenvector'] = ev.reshape(nq, 1, m, m)
                else:
                    h['qpoint'] = qa
                    h['frequency'] = fr
                    if kind == 'mesh':
                        h['weight'] = F.array(w, (nq,), float)
                    if eig:
                        h['eigenvector'] = ev
        else:
            t = f'nqpoint: {nq}\nnatom: {n}\n'
            if own:
                t += 'lattice:\n' + yl(F, c['cell'], '') + 'points:\n' + \
                    points(F, c, '')
            t += 'phonon:\n'
            for b in range(nq):
                t += '- q-position: [ ' + ', '.join(
                    F.num(x, '%.15f') for x in q[b]) + ' ]\n'
                if kind == 'mesh':
                    t += '  weight: ' + F.num(w[b], '%.15f') + '\n'
                t += '  band:\n'
                for j in range(m):
                    t += f'  - # {j + 1}\n    frequency: ' + F.num(
                        f[b, j], '%.15f') + '\n'
                    if eig:
                        t += '    eigenvector:\n'
                        for a in range(n):
                            t += f'    - # atom {a + 1}\n'
                            for k in range(3):
                                t += '      - [ ' + ', '.join(F.num(
                                    x, '%.15f') for x in e[b, j, a, k]) + \
                                    ' ]\n'
            F.write(name, t)
        if not own:
            c2 = c
            if bad:
                c2 = dict(crystal(ctx, (types * 2)[:bad]))
            F.write('summary.yaml', summary(F, c2, PU[units]))
        if real in ('hdf5', 'h5') and eig and kind != 'band' and not bad:
            if not mode_axis(ctx, kind):
                # reported below; the rest as this layout has it
                e = ctx.arr([[e[b, 3 * a + k, j // 3, j % 3, x]
                              for a in range(n) for k in range(3)
                              for x in range(2)] for b in range(nq)
                             for j in range(m)]).reshape(nq, m, n, 3, 2)
        go = lambda: F.read(
            getattr(euphonic, cls).from_phonopy, path=F.dir, phonon_name=name,
            summary_name='summary.yaml', **({'phonon_format': given}
                                            if given else {}))
        if given == 'bad' or bad:
            ctx.expect_raise('refused', ValueError, go)
            return
        if not eig and cls == 'QpointPhononModes':
            ctx.expect_raise('no eigenvectors', RuntimeError, go)
            return
        r = go()
    check_crystal(ctx, c, r.crystal, 1. if own else LEN[units])
    ctx.eq('q-points', r.qpts, [[q[b, k] for k in range(3)]
                                for b in range(nq)])
    ctx.eq('frequencies', r.frequencies.to('meV').magnitude, [
        [f[b, j] / THZ for j in range(m)] for b in range(nq)], tol=1e-6)
    if kind == 'mesh':
        tot = sum(w[b] for b in range(nq))
        ctx.eq('weights', r.weights, [w[b] / tot for b in range(nq)])
    else:
        ctx.eq('weights', r.weights, [1. / nq] * nq)
    if cls == 'QpointPhononModes':
        ctx.true('shape', np.shape(r.eigenvectors) == (nq, m, n, 3))
        # the phase of a mode as a whole has no meaning
        got, want = [], []
        ev = r.eigenvectors
        for b in range(nq):
            for j in range(m):
                ref = None
                for a in range(n):
                    for k in range(3):
                        v = e[b, j, a, k, 0] + 1j * e[b, j, a, k, 1]
                        if ref is None:
                            ref = (v, ev[b, j, a, k])
                        ph = phase(ctx, [c['r'][a, x] - c['r'][0, x]
                                         for x in range(3)], q[b])
                        got.append(ev[b, j, a, k] * conj(ref[1]))
                        want.append(v * conj(ref[0]) * ph)
        ctx.eq('eigenvectors', got, want, tol=1e-6, scale_tol=1e-6)


def mode_axis(ctx, kind):
    """is the last axis of the eigenvectors in an HDF5 file taken for the modes
    (as Phonopy writes them; see the YAML and HDF5 files of the same calculation
    among the test data)"""
    import h5py
    from euphonic import QpointPhononModes
    d = tempfile.mkdtemp()
    try:
        ev = np.array([[.6, .8, 0.], [-.64, .48, .6], [.48, -.36, .8]])
        with h5py.File(os.path.join(d, f'{kind}.hdf5'), 'w') as h:
            h['qpoint'] = np.zeros((1, 3))
            h['frequency'] = np.array([[1., 2., 3.]])
            h['weight'] = np.ones(1)
            h['eigenvector'] = ev.reshape(1, 3, 3) + 0j
        with open(os.path.join(d, 'phonopy.yaml'), 'w') as f:
            f.write('phonopy:\n  version: 2.4.2\nphysical_unit:\n'
                    '  atomic_mass: AMU\n  length: Angstrom\n'
                    '  force_constants: eV/Angstrom^2\nprimitive_cell:\n'
                    '  lattice:\n' + '  - [ 3.0, 0.0, 0.0 ]\n'
                    '  - [ 0.0, 3.0, 0.0 ]\n  - [ 0.0, 0.0, 3.0 ]\n'
                    '  points:\n  - symbol: Si\n    coordinates: '
                    '[ 0.0, 0.0, 0.0 ]\n    mass: 28.0\n')
        with quiet():
            r = QpointPhononModes.from_phonopy(
                path=d, phonon_name=f'{kind}.hdf5')
    finally:
        shutil.rmtree(d)
    g = np.array([[complex(x) for x in v] for v in np.array(
        r.eigenvectors).reshape(3, 3)])
    known = np.allclose(g, ev)
    ctx.true('HDF5 eigenvector columns are modes', not known)
    return not known


def phase(ctx, r, q):
    """exp(2 pi i q.r)"""
    if not ctx.symbolic:
        return np.exp(2j * np.pi * sum(a * b for a, b in zip(q, r)))
    import euphonic.util as u
    x = ctx.arr([sum(a * b for a, b in zip(r, q))]) * (2 * np.pi)
    return u.np.exp(1j * x)[0]


def conj(z):
    return z.conjugate() if hasattr(z, 'conjugate') else z


# -- phonopy force constants -------------------------------------------------
PF = [dict(sc=s, types=t, src=f, **o) for s, t, f, o in (
    ('chain2', ['Na', 'Cl'], 'yaml', {}),
    ('chain2', ['Na', 'Cl'], 'yaml', {'full': True, 'units': 'au'}),
    ('one', ['Na'], 'FORCE_CONSTANTS', {}),
    ('chain2', ['Na', 'Cl'], 'FORCE_CONSTANTS', {'units': 'mixed'}),
    ('plane', ['Si'], 'FORCE_CONSTANTS', {'full': True, 'units': 'ang'}),
    ('chain2', ['Na', 'Cl'], 'fc.hdf5', {'units': 'hartree'}),
    ('root2', ['Na', 'Cl'], 'fc.hdf5', {'full': True, 'units': 'mRy'}),
    ('shear', ['Na', 'Cl'], 'yaml', {}),
    ('shear3', ['Si'], 'FORCE_CONSTANTS', {}),
    ('left', ['Na', 'Cl'], 'yaml', {}),
    ('chain2', ['Na', 'Cl'], 'yaml', {'place': -1.}),
    ('plane', ['Si', 'O'], 'yaml', {'place': 1.}),
    ('chain2', ['Na', 'Cl'], 'fc.dat', {'given': 'hdf5'}),
    ('chain2', ['Na'], 'fc.h5', {'units': 'ang'}),
    ('chain2', ['Na'], 'fc.hd5', {'units': 'ang', 'full': True}),
    ('chain2', ['Na', 'Cl'], 'fc.hdf5', {'given': 'phonopy', 'text': True}),
    ('chain2', ['Na'], 'FORCE_CONSTANTS', {'bad': 'size'}),
    ('chain2', ['Na'], 'FORCE_CONSTANTS', {'given': 'bad', 'bad': 'format'}),
    ('fcc prim', ['Na', 'Cl'], 'yaml', {}),
    ('bct prim', ['Na'], 'FORCE_CONSTANTS', {'units': 'au'}),
    ('bct super', ['Si'], 'yaml', {}),
    ('shear super', ['Si'], 'FORCE_CONSTANTS', {'full': True}),
    ('big', BIG[:4], 'FORCE_CONSTANTS', {}),
    ('big', ['Na', 'Cl'], 'fc.hdf5', {'full': True}),
    ('chain13', ['Na', 'Cl', 'Na'], 'yaml', {'units': 'au'}),
)]
# supercell of the unit cell and primitive cell of it, as Phonopy writes them
# (vectors in columns)
PRIM = {'fcc prim': (np.eye(3, dtype=int), np.array(
            [[0, .5, .5], [.5, 0, .5], [.5, .5, 0]])),
        'bct prim': (np.diag([1, 1, 1]), np.array(
            [[1, 0, .5], [0, 1, .5], [0, 0, .5]])),
        # these matrices do not commute
        'bct super': (np.diag([2, 1, 1]), np.array(
            [[1, 0, .5], [0, 1, .5], [0, 0, .5]])),
        'shear super': (np.array([[1, 0, 0], [1, 1, 0], [0, 0, 1]]), np.array(
            [[1, 0, .5], [0, 1, .5], [0, 0, .5]]))}


class Phonopy:
    def __init__(self, ctx, F, sc, types, units='ang', place=0.):
        self.ctx, self.F, self.units = ctx, F, units
        if sc in PRIM:
            self.M, self.P = PRIM[sc]
            self.S = np.rint(self.M.T @ np.linalg.inv(self.P).T).astype(int)
        else:
            self.S = np.array(SC[sc], dtype=int)
            self.M, self.P = self.S.T, None
        self.cells = cells_of(self.S)
        self.nc, self.n = len(self.cells), len(types)
        lay = layout(self.n, self.cells, ctx.choice('order', [
            'atom-major', 'stride']))
        # primitive atoms are numbered as they come in the supercell
        first = list(dict.fromkeys(j for j, _ in lay))
        self.lay = [(first.index(j), k) for j, k in lay]
        self.place = [int(round(place)) * (i % 2 == 0) for i in range(self.n)]
        self.c = crystal(ctx, types)
        for i in range(self.n):
            for x in range(3):
                v = self.c['r'][i, x] - self.place[i]
                ctx.assume((v >= .02) & (v <= .98))
        self.p2s = [[a for a, (j, _) in enumerate(self.lay) if j == i][0]
                    for i in range(self.n)]
        self.phi = ctx.reals('phi', (self.n, self.n, self.nc, 3, 3), -1., 1.)

    def Phi(self, i, j, v):
        return self.phi[i, j, klass(self.S, self.cells, tuple(
            int(x) for x in v))]

    def summary(self, extra=''):
        F, c = self.F, self.c
        t = summary(F, c, PU[self.units])
        t += 'supercell_matrix:\n' + ''.join(
            f'- [ {", ".join(str(int(x)) for x in r)} ]\n' for r in self.M)
        if self.P is not None:
            t += 'primitive_matrix:\n' + ''.join(
                f'- [ {", ".join("%.15f" % x for x in r)} ]\n'
                for r in self.P)
        inv = np.linalg.inv(self.S)
        r = []
        for j, k in self.lay:
            v = [c['r'][j, x] + float(self.cells[k][x]) for x in range(3)]
            r.append([sum(v[x] * float(inv[x, y]) for x in range(3))
                      for y in range(3)])
        m = len(self.lay)
        sup = dict(n=m, types=[c['types'][j] for j, _ in self.lay], r=r,
                   mass=[c['mass'][j] for j, _ in self.lay])
        lat = [[sum(float(self.S[i, k]) * c['cell'][k, j] for k in range(3))
                for j in range(3)] for i in range(3)]
        t += 'supercell:\n  lattice:\n' + yl(F, lat, '  ') + '  points:\n' + \
            points(F, sup, '  ', [self.p2s[j] + 1 for j, _ in self.lay])
        F.write('phonopy.yaml', t + extra)

    def fc(self, full):
        rows = range(len(self.lay)) if full else self.p2s
        return [[[[self.Phi(self.lay[a][0], j, np.array(self.cells[k])
                            - self.cells[self.lay[a][1]])[x, y]
                   for y in range(3)] for x in range(3)]
                 for j, k in self.lay] for a in rows], len(list(rows))


@harness('C26', functions=FP, bounds='Phonopy force constants in phonopy.yaml, '
         'FORCE_CONSTANTS and HDF5, compact and full, 1-13 cells of 1-4 atoms '
         'in thirteen supercells (non-symmetric and primitive matrices too), five sets '
         'of units; every number symbolic', cases=PF, traces=1)
def phonopy_fc(ctx, sc, types, src, full=False, units='', place=0., given=None,
               text=False, bad=''):
    from euphonic import ForceConstants
    with Files(ctx) as F:
        P = Phonopy(ctx, F, sc, types, units, place)
        fc, rows = P.fc(full)
        cols = len(P.lay)
        extra = ''
        if src == 'yaml':
            extra = 'force_constants:\n  format: "' + (
                'full' if full else 'compact') + \
                f'"\n  shape: [ {rows}, {cols} ]\n  elements:\n'
            for a in range(rows):
                for b in range(cols):
                    extra += f'  - # ({a + 1}, {b + 1})\n' + yl(
                        F, fc[a][b], '    ')
        P.summary(extra)
        if src.startswith('FORCE') or text:
            t = f'   {rows}   {cols + (bad == "size")}\n'
            if full and src.startswith('FORCE'):
                t = f'   {rows}\n'
            for a in range(rows):
                for b in range(cols):
                    t += f'{a + 1} {b + 1}\n' + ''.join(
                        '    ' + F.nums(r, '%.15f') + '\n' for r in fc[a][b])
            F.write(src, t)
        elif src.startswith('fc'):
            import h5py
            with h5py.File(F.path(src), 'w') as h:
                h['force_constants'] = F.array(fc, (rows, cols, 3, 3), float)
        kw = {} if src == 'yaml' else {'fc_name': src}
        if given:
            kw['fc_format'] = given
        go = lambda: F.read(ForceConstants.from_phonopy, path=F.dir, **kw)
        if bad:
            ctx.expect_raise('refused', ValueError, go)
            return
        g = go()
    check_crystal(ctx, P.c, g.crystal, LEN[units], wrapped=True)
    ctx.true('supercell', np.array_equal(np.array(g.sc_matrix, dtype=float),
                                         P.S), f'{g.sc_matrix}')
    org = [[int(x) for x in o] for o in g.cell_origins]
    ctx.true('cells', len(org) == P.nc and sorted(
        klass(P.S, P.cells, o) for o in org) == list(range(P.nc)))
    # the file puts atom i at r_i + (its own whole number of cells)
    sh = [np.array([v] * 3) for v in P.place]
    want = [[[P.Phi(i, j, np.array(o) + sh[i] - sh[j])[x, y]
              * FCU[units] for j in range(P.n) for y in range(3)]
             for i in range(P.n) for x in range(3)] for o in org]
    ctx.eq('force constants', g.force_constants.to(
        'hartree/bohr**2').magnitude, want, tol=1e-6)
    ctx.true('no dipoles', g.born is None)


@harness('C26', functions=FP, bounds='Born charges, dielectric tensor and NAC '
         'factor in phonopy.yaml (two layouts) or in BORN with and without the '
         'factor; four sets of units; every number symbolic', cases=[
             dict(where=w, units=u) for w, u in (
                 ('new', 'ang'), ('new', 'au'), ('old', 'ang'),
                 ('old', 'mixed'), ('BORN', 'ang'), ('BORN', 'hartree'),
                 ('BORN nofactor', 'ang'), ('BORN nofactor', 'au'),
                 ('both', 'ang'), ('old nofactor', 'ang'),
                 ('unused', 'ang'))], traces=1)
def phonopy_born(ctx, where, units):
    from euphonic.readers import phonopy
    from euphonic import ForceConstants
    with Files(ctx) as F:
        P = Phonopy(ctx, F, 'chain2', ['Na', 'Cl'], units)
        z = ctx.reals('z', (2, 3, 3), -3., 3.)
        eps = ctx.reals('eps', (3, 3), 1., 9.)
        fac = ctx.real('factor', 1., 20.)
        z2 = ctx.reals('z2', (2, 3, 3), -3., 3.)
        eps2 = ctx.reals('eps2', (3, 3), 1., 9.)
        fc, rows = P.fc(False)
        y = 'force_constants:\n  format: "compact"\n  shape: [ ' \
            f'{rows}, {len(P.lay)} ]\n  elements:\n' + ''.join(
                '  -\n' + yl(F, m, '    ') for r in fc for m in r)
        zs, es = (z2, eps2) if where == 'both' else (z, eps)
        if where in ('new', 'unused'):
            y += 'nac:\n  unit_conversion_factor: ' + F.num(fac, '%.15f') + \
                '\n  born_effective_charge:\n' + ''.join(
                    '  -\n' + yl(F, z[i], '    ') for i in range(2)) + \
                '  dielectric_constant:\n' + yl(F, eps, '  ')
        elif where.startswith(('old', 'both')):
            y += 'born_effective_charge:\n' + ''.join(
                '-\n' + yl(F, zs[i], '  ') for i in range(2)) + \
                'dielectric_constant:\n' + yl(F, es, '  ')
        if where in ('old', 'BORN nofactor'):
            f0 = '  nac_unit_conversion_factor: ' + F.num(fac, '%.15f') + '\n'
        else:
            f0 = ''
        P.summary(y)
        if f0:
            t = open(F.path('phonopy.yaml')).read()
            F.write('phonopy.yaml', t.replace('  version: 2.4.2\n',
                                              '  version: 2.4.2\n' + f0, 1))
        b = '' if 'nofactor' in where else F.num(fac, '%.15f') + '\n'
        b += '# comment\n' + F.nums(eps, '%.15f') + '\n' + ''.join(
            F.nums(z[i], '%.15f') + '\n' for i in range(2))
        kw = {}
        if where.startswith(('BORN', 'both', 'unused')):
            if where == 'unused':
                b = '1.0\n' + '2.0 ' * 9 + '\n' + ('3.0 ' * 9 + '\n') * 2
            F.write('BORN', b)
            kw['born_name'] = 'BORN'
        log = []

        def total(cls, *a, **k):
            log.append((a, k))
            return 'short range'
        F.put(ForceConstants, 'from_total_fc_with_dipole', classmethod(total))
        if where == 'old nofactor':
            ctx.expect_raise('refused', KeyError, lambda: F.read(
                ForceConstants.from_phonopy, path=F.dir, **kw))
            return
        r = F.read(ForceConstants.from_phonopy, path=F.dir, **kw)
    ctx.true('long range part removed', r == 'short range' and len(log) == 1)
    (cr, fcs, scm, org), k = log[0][0][:4], log[0][1]
    ctx.eq('Born charges', k['born'].to('e').magnitude, z)
    # e^2/(length^3 force constants unit) in e^2/(bohr hartree)
    u = (BOHR / LEN[units]) ** 3 / FCU[units]
    ctx.eq('dielectric', k['dielectric'].to('e**2/(bohr*hartree)').magnitude,
           [[eps[i, j] / fac * u for j in range(3)] for i in range(3)],
           tol=1e-6, scale_tol=1e-9)
    want = [[[P.Phi(i, j, o)[x, y] * FCU[units] for j in range(2)
              for y in range(3)] for i in range(2) for x in range(3)]
            for o in [[int(v) for v in w] for w in org]]
    ctx.eq('force constants', fcs.to('hartree/bohr**2').magnitude, want,
           tol=1e-6)
    check_crystal(ctx, P.c, cr, LEN[units], wrapped=True)
