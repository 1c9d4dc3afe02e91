"""C21: round trips through dictionaries and JSON files"""
import contextlib
import copy as cp
import io
import json
import os
import tempfile
import numpy as np
from vf.harness import harness
from .common import *
from .C18 import FACTOR

FN = ['io._obj_to_dict', 'io._process_dict', 'io._to_json_dict',
      'io._from_json_dict', 'io._obj_to_json_file', 'io._obj_from_json_file',
      'to_dict / from_dict / to_json_file / from_json_file of Crystal, '
      'ForceConstants, QpointFrequencies, QpointPhononModes, StructureFactor, '
      'DebyeWaller, Spectrum1D, Spectrum1DCollection, Spectrum2D, '
      'Spectrum2DCollection']
BOHR = .529177210903
HA = 27.211386245988
UF = {**FACTOR, ('angstrom', 'bohr'): 1 / BOHR, ('amu', 'm_e'): 1822.888486209,
      ('bohr', 'angstrom'): BOHR, ('amu', 'kg'): 1.66053906660e-27,
      ('eV/angstrom**2', 'hartree/bohr**2'): BOHR ** 2 / HA,
      ('e', 'C'): 1.602176634e-19,
      ('e**2/(bohr*hartree)', 'e**2/(angstrom*eV)'): 1 / (BOHR * HA),
      ('angstrom**2', 'mbarn'): 1e11, ('angstrom**2', 'bohr**2'): BOHR ** -2,
      ('K', 'mK'): 1e3}


class symbolic_json:
    """json module on symbolic numbers: a number is written as a token"""

    def __init__(self, ctx):
        self.on = ctx.symbolic

    def __enter__(self):
        if not self.on:
            return
        from vf.sym import Sym
        from vf import npshim
        self.fd = npshim.fake_dtypes()
        self.fd.__enter__()
        self.saved = {n: getattr(json, n) for n in
                      ('dump', 'dumps', 'load', 'loads')}
        toks = []

        def default(o):
            if isinstance(o, Sym):
                if o.is_const():
                    return float(o.const_val())
                if not o.is_real_syntactic():
                    raise TypeError('complex is not JSON serializable')
                toks.append(o)
                return {'__vf__': len(toks) - 1}
            raise TypeError(f'Object of type {type(o).__name__} is not JSON '
                            'serializable')

        def hook(d):
            return toks[d['__vf__']] if list(d) == ['__vf__'] else d
        sv = self.saved
        for n in ('dump', 'dumps'):
            setattr(json, n, lambda *a, f=sv[n], **k: f(*a, **{
                **k, 'default': default}))
        for n in ('load', 'loads'):
            setattr(json, n, lambda *a, f=sv[n], **k: f(*a, **{
                **k, 'object_hook': hook}))

    def __exit__(self, *a):
        if self.on:
            self.fd.__exit__()
            for n, f in self.saved.items():
                setattr(json, n, f)


def through(obj, route, d_out=None):
    """obj through a dictionary or a JSON file"""
    cls = type(obj)
    if route == 'dict':
        d = obj.to_dict()
        if d_out is not None:
            d_out.append(d)
        return cls.from_dict(d)
    with tempfile.TemporaryDirectory() as t:
        f = os.path.join(t, 'o.json')
        with contextlib.redirect_stdout(io.StringIO()):
            obj.to_json_file(f)
        return cls.from_json_file(f)


class Obj:
    """an object, and what it should contain: quantities {attr: (values, unit)},
    arrays {attr: values}, plain {attr: value}"""
    def __init__(self, o, quant, arrays=None, plain=None, crystal=None,
                 absent=()):
        self.o, self.quant, self.arrays = o, quant, arrays or {}
        self.plain, self.crystal = plain or {}, crystal
        self.absent = list(absent)

    def expect(self, ctx, label, o, units=None):
        from euphonic import ureg
        ctx.true(f'{label} class', type(o) is type(self.o))
        for a, (v, u) in self.quant.items():
            got = getattr(o, a)
            u1 = (units or {}).get(a, u)
            f = 1. if u1 == u else UF[(u, u1)]
            ctx.true(f'{label} {a} unit', ureg(getattr(
                o, a + '_unit')).units == ureg(u1).units
                and got.units == ureg(u1).units,
                f'{got.units} for {u1}')
            v = np.asarray(v, dtype=object)
            want = np.array([x * f for x in v.ravel()],
                            dtype=object).reshape(v.shape)
            ctx.eq(f'{label} {a}', got.magnitude, want if v.shape else
                   want[()], tol=1e-6)
            if not ctx.symbolic and v.shape:
                ctx.true(f'{label} {a} dtype',
                         got.magnitude.dtype == np.float64)
        for a, v in self.arrays.items():
            got = getattr(o, a)
            w = np.asarray(v)
            if w.dtype.kind in 'iUS':
                ctx.true(f'{label} {a}', isinstance(got, np.ndarray)
                         and got.dtype.kind == w.dtype.kind
                         and got.shape == w.shape and (got == w).all(),
                         f'{got!r}'[:80])
            else:
                ctx.eq(f'{label} {a}', got, v)
                if not ctx.symbolic:
                    ctx.true(f'{label} {a} dtype', got.dtype == w.dtype)
        for a, v in self.plain.items():
            got = getattr(o, a)
            ctx.true(f'{label} {a}', same(got, v), f'{got!r} for {v!r}'[:120])
        for a in self.absent:
            ctx.true(f'{label} {a} absent', getattr(o, a) is None)
        if self.crystal is not None:
            self.crystal.expect(ctx, label + ' crystal', o.crystal,
                                {k[8:]: v for k, v in (units or {}).items()
                                 if k.startswith('crystal.')})


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(sorted(a)) == sorted(b) and all(same(a[k], b[k])
                                                    for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def build_crystal(ctx, n=2, empty=False):
    from euphonic import Crystal, ureg
    if empty:
        c = Crystal(ctx.const(np.eye(3)) * ureg('angstrom'), np.zeros((0, 3)),
                    np.array([], dtype='<U2'), np.zeros(0) * ureg('amu'))
        return Obj(c, {'cell_vectors': (np.eye(3), 'angstrom'),
                       'atom_mass': (np.zeros(0), 'amu')},
                   {'atom_r': np.zeros((0, 3))}, {'n_atoms': 0})
    cell = ctx.reals('cell', (3, 3), -1., 1.) + ctx.const(np.eye(3) * 4)
    r = ctx.reals('r', (n, 3), -1.5, 1.5)
    m = ctx.reals('m', n, 1., 250.)
    ty = np.array(['Na', 'C', 'Cl'][:n])
    c = Crystal(cell.copy() * ureg('angstrom'), r.copy(), ty.copy(),
                m.copy() * ureg('amu'))
    return Obj(c, {'cell_vectors': (cell, 'angstrom'), 'atom_mass': (m, 'amu')},
               {'atom_r': r, 'atom_type': ty}, {'n_atoms': n})


def build(ctx, kind, opt='', layout='C', n=2, nq=2):
    from euphonic import (ureg, Crystal, ForceConstants, QpointFrequencies,
                          QpointPhononModes, StructureFactor, DebyeWaller,
                          Spectrum1D, Spectrum1DCollection, Spectrum2D)
    from euphonic.spectra import Spectrum2DCollection

    def lay(a):
        """same values, another memory layout"""
        if layout == 'C':
            return a.copy()
        if layout == 'F':
            return np.asfortranarray(a) if not ctx.symbolic else \
                np.moveaxis(np.moveaxis(a, -1, 0).copy(), 0, -1)
        b = np.concatenate([a, a], axis=-1)
        if ctx.symbolic:
            b[..., ::2], b[..., 1::2] = a, a
            return b[..., ::2]
        b[..., ::2] = a
        return b[..., ::2]
    if kind[0] in '12':
        two, coll = kind[0] == '2', kind.endswith('C')
        nx, ny, nc = 3, 2, 2
        e = int('edges' in opt)
        x = ctx.reals('x', nx + e, -3., 3.)
        q = {'x_data': (x, 'meV' if not two else '1/angstrom')}
        args = [lay(x) * ureg(q['x_data'][1])]
        shape = (nx,)
        u = '1/meV'
        if two:
            y = ctx.reals('y', ny + e, -3., 3.)
            q['y_data'] = (y, 'meV')
            args.append(lay(y) * ureg('meV'))
            shape = (nx, ny)
            u = 'mbarn/meV'
        if coll:
            shape = (nc,) + shape
        v = ctx.reals('v', shape, -5., 5.)
        q['z_data' if two else 'y_data'] = (v, u)
        args.append(lay(v) * ureg(u))
        meta = {}
        labels = None
        if 'meta' in opt:
            meta = {'name': 'a', 'n': 3, 'x': 1.5, 'more': {'k': [1, 2]}}
            if coll:
                meta['line_data'] = [{'i': 0, 'name2': 'a'}, {'i': 1}]
            labels = [(0, 'A'), (2, '')]
        if 'nolab' in opt:
            labels = []
        cls = {'1D': Spectrum1D, '1DC': Spectrum1DCollection,
               '2D': Spectrum2D, '2DC': Spectrum2DCollection}[kind]
        lab = None if labels is None else [
            (np.int64(i), t) for i, t in labels]
        o = cls(*args, x_tick_labels=lab, metadata=cp.deepcopy(meta))
        return Obj(o, q, {}, {'x_tick_labels': labels, 'metadata': meta})
    if kind == 'Crystal':
        return build_crystal(ctx, n, 'empty' in opt)
    C = build_crystal(ctx, n)
    if kind == 'ForceConstants':
        sc = np.array([[2, 0, 0], [0, 1, 0], [0, 0, 1]], dtype=np.int32)
        org = np.array([[0, 0, 0], [1, 0, 0]], dtype=np.int32)
        fc = ctx.reals('fc', (2, 3 * n, 3 * n), -1., 1.)
        q = {'force_constants': (fc, 'eV/angstrom**2')}
        kw = {}
        ab = ['born', 'dielectric']
        if 'born' in opt:
            b = ctx.reals('b', (n, 3, 3), -3., 3.)
            d = ctx.reals('eps', (3, 3), -1., 1.)
            q['born'] = (b, 'e')
            q['dielectric'] = (d, 'e**2/(bohr*hartree)')
            kw = dict(born=lay(b) * ureg('e'),
                      dielectric=lay(d) * ureg('e**2/(bohr*hartree)'))
            ab = []
        o = ForceConstants(C.o, lay(fc) * ureg('eV/angstrom**2'), sc, org, **kw)
        return Obj(o, q, {'sc_matrix': sc, 'cell_origins': org},
                   {'n_cells_in_sc': 2}, C, ab)
    if kind == 'DebyeWaller':
        w = ctx.reals('w', (n, 3, 3), -1., 1.)
        t = ctx.real('T', 0., 900.)
        tu = 'degC' if 'degC' in opt else 'K'
        T = ureg.Quantity(t if not ctx.symbolic else t, tu)
        o = DebyeWaller(C.o, lay(w) * ureg('angstrom**2'), T)
        return Obj(o, {'debye_waller': (w, 'angstrom**2'),
                       'temperature': (t, tu)}, {}, {}, C)
    f = ctx.reals('f', (nq, 3 * n), -2., 30.)
    qp = ctx.reals('q', (nq, 3), -1., 1.)
    arr = {'qpts': qp}
    kw = {}
    if 'weights' in opt:
        w = ctx.reals('w', nq, .05, 3.)
        kw['weights'] = lay(w)
        arr['weights'] = w
    else:
        arr['weights'] = np.full(nq, 1. / nq)
    quant = {'frequencies': (f, 'meV')}
    F = lay(f) * ureg('meV')
    ab = []
    if kind == 'QpointFrequencies':
        o = QpointFrequencies(C.o, lay(qp), F, **kw)
    elif kind == 'QpointPhononModes':
        ev = ctx.cplx('ev', (nq, 3 * n, n, 3), -1., 1.)
        arr['eigenvectors'] = ev
        o = QpointPhononModes(C.o, lay(qp), F, lay(ev), **kw)
    else:
        s = ctx.reals('s', (nq, 3 * n), 0., 3.)
        quant['structure_factors'] = (s, 'angstrom**2')
        if 'temp' in opt:
            t = ctx.real('T', 0., 900.)
            tu = 'degC' if 'degC' in opt else 'K'
            quant['temperature'] = (t, tu)
            kw['temperature'] = ureg.Quantity(t, tu)
        else:
            ab.append('temperature')
        o = StructureFactor(C.o, lay(qp), F, lay(s) * ureg('angstrom**2'),
                            **kw)
    return Obj(o, quant, arr, {'n_qpts': nq}, C, ab)


NEWU = {'cell_vectors': 'bohr', 'atom_mass': 'm_e',
        'force_constants': 'hartree/bohr**2', 'born': 'C',
        'dielectric': 'e**2/(angstrom*eV)', 'frequencies': '1/cm',
        'structure_factors': 'mbarn', 'debye_waller': 'bohr**2'}
NEWS = {'1D': {'x_data': '1/cm', 'y_data': '1/eV'},
        '1DC': {'x_data': 'THz', 'y_data': '1/eV'},
        '2D': {'x_data': '1/nm', 'y_data': '1/cm', 'z_data': 'barn/eV'},
        '2DC': {'x_data': '1/bohr', 'y_data': 'THz', 'z_data': 'barn/eV'}}

CASES = []
for _k, _opts in (('Crystal', ['', 'empty']), ('ForceConstants', ['', 'born']),
                  ('QpointFrequencies', ['', 'weights']),
                  ('QpointPhononModes', ['', 'weights']),
                  ('StructureFactor', ['', 'weights temp', 'temp degC']),
                  ('DebyeWaller', ['', 'degC']), ('1D', ['', 'edges meta']),
                  ('1DC', ['nolab', 'edges meta']), ('2D', ['', 'edges meta']),
                  ('2DC', ['edges', 'meta'])):
    for _o in _opts:
        for _r in ('dict', 'json'):
            CASES.append(dict(kind=_k, opt=_o, route=_r, units=False,
                              layout='C'))
    for _r in ('dict', 'json'):
        CASES.append(dict(kind=_k, opt=_opts[-1] if _opts[-1] not in (
            'empty', 'degC', 'temp degC') else _opts[-2], route=_r, units=True,
            layout='C'))
for _k, _o in (('QpointPhononModes', 'weights'), ('StructureFactor', 'temp'),
               ('ForceConstants', 'born'), ('2DC', 'edges meta')):
    for _l in ('F', 'strided'):
        CASES.append(dict(kind=_k, opt=_o, route='json', units=False,
                          layout=_l))
CASES += [dict(kind='QpointPhononModes', opt='', route='json', units=False,
               layout='C', n=1, nq=1),
          dict(kind='ForceConstants', opt='born', route='json', units=False,
               layout='C', n=1),
          dict(kind='DebyeWaller', opt='', route='json', units=False,
               layout='C', n=1)]


@harness('C21', functions=FN, bounds='all ten serialisable classes with 0-2 '
         'atoms, 1-2 q-points, 3x2 spectra of 2 members; every array entry '
         'symbolic; optional fields absent or present; original or changed '
         'units; C, Fortran and strided layouts; through dictionaries and JSON '
         'files (numbers are written as tokens, so exactly)',
         cases=CASES, traces=1)
def round_trip(ctx, kind, opt, route, units, layout, n=2, nq=2):
    with symbolic_json(ctx), quiet():
        O = build(ctx, kind, opt, layout, n, nq)
        O.expect(ctx, 'built', O.o)
        nu = {}
        if units:
            if kind in NEWS:
                nu = dict(NEWS[kind])
            else:
                nu = {a: NEWU[a] for a in O.quant if a in NEWU}
                if O.crystal is not None:
                    nu['crystal.cell_vectors'] = 'bohr'
                    nu['crystal.atom_mass'] = 'kg'
                    O.o.crystal.cell_vectors_unit = 'bohr'
                    O.o.crystal.atom_mass_unit = 'kg'
            for a, u in nu.items():
                if not a.startswith('crystal.'):
                    setattr(O.o, a + '_unit', u)
        ds = []
        o2 = through(O.o, route, ds)
        O.expect(ctx, 'back', o2, nu)
        O.expect(ctx, 'original', O.o, nu)
        ctx.true('a new object', o2 is not O.o)
        o3 = through(o2, 'dict' if route == 'json' else 'json')
        O.expect(ctx, 'back again', o3, nu)
        if ds:
            # the dictionary holds copies
            wreck(ds[0])
            O.expect(ctx, 'original after changing the dictionary', O.o, nu)
            O.expect(ctx, 'result after changing the dictionary', o2, nu)
            d2 = O.o.to_dict()
            keys = set(d2)
            type(O.o).from_dict(d2)
            ctx.true('from_dict leaves its argument', set(d2) == keys)
            O.expect(ctx, 'original after from_dict', O.o, nu)


def wreck(d):
    for k, v in list(d.items()):
        if isinstance(v, dict):
            wreck(v)
            v['intruder'] = 1
        elif isinstance(v, np.ndarray) and v.size:
            if v.dtype.kind in 'US':
                v[...] = 'X'
            else:
                v[...] = 7
        elif isinstance(v, list):
            v.append('intruder')
            for e in v:
                if isinstance(e, dict):
                    wreck(e)
                    e['intruder'] = 2


@harness('C21', functions=['QpointPhononModes.to_qpoint_frequencies',
                           'StructureFactor.to_qpoint_frequencies'],
         bounds='2 atoms, 2 q-points, every entry symbolic, weights given or '
         'not, changed units',
         cases=[dict(kind=k, opt=o) for k in ('QpointPhononModes',
                                              'StructureFactor')
                for o in ('', 'weights')], traces=1)
def to_frequencies(ctx, kind, opt):
    from euphonic import QpointFrequencies
    O = build(ctx, kind, opt)
    O.o.frequencies_unit = '1/cm'
    r = O.o.to_qpoint_frequencies()
    ctx.true('class', type(r) is QpointFrequencies)
    Q = Obj(r, {'frequencies': O.quant['frequencies']},
            {k: v for k, v in O.arrays.items() if k != 'eigenvectors'},
            O.plain, O.crystal)
    Q.expect(ctx, 'frequencies', r, {'frequencies': '1/cm'})
    O.expect(ctx, 'original', O.o, {'frequencies': '1/cm'})


@harness('C21', functions=['Spectrum1D.to_text_file',
                           'Spectrum1DCollection.to_text_file'],
         bounds='3 points (edges or centres), 1 or 2 lines, every entry '
         'symbolic (the numbers handed to numpy.savetxt), changed units',
         cases=[dict(kind='1D', opt=''), dict(kind='1D', opt='edges'),
                dict(kind='1DC', opt='meta'), dict(kind='1DC', opt='edges')],
         traces=1)
def text_file(ctx, kind, opt):
    """columns: bin centres, then each line, in the units of the header"""
    O = build(ctx, kind, opt)
    for a, u in NEWS[kind].items():
        setattr(O.o, a + '_unit', u)
    with tempfile.TemporaryDirectory() as t:
        f = os.path.join(t, 'o.txt')
        if ctx.symbolic:
            got = []
            orig = np.savetxt
            np.savetxt = lambda fn, X, **k: got.append((fn, X, k))
            try:
                O.o.to_text_file(f)
            finally:
                np.savetxt = orig
            (fn, data, k), = got
            head = k['header'].split('\n')
            ctx.true('file', str(fn) == f)
        else:
            O.o.to_text_file(f, fmt='%.17g')
            data = np.loadtxt(f, ndmin=2)
            head = [x[2:].rstrip('\n') for x in open(f) if x[0] == '#']
    x, u = O.quant['x_data']
    fx = UF[(u, NEWS[kind]['x_data'])]
    if opt == 'edges':
        x = [(a + b) / 2 for a, b in zip(x, x[1:])]
    v = np.asarray(O.quant['y_data'][0], dtype=object).reshape((-1, 3))
    fy = UF[('1/meV', NEWS[kind]['y_data'])]
    ctx.eq('x column', data[:, 0], [a * fx for a in x], tol=1e-6)
    for i, row in enumerate(v):
        ctx.eq(f'line {i}', data[:, i + 1], [a * fy for a in row], tol=1e-6)
    ctx.true('columns', data.shape == (3, 1 + len(v)))
    for n in ('x', 'y'):
        un = str(getattr(O.o, n + '_data').units)
        ctx.true(f'{n} unit in the header', any(
            f'{n}_data in ({un})' in h for h in head))
    O.expect(ctx, 'untouched', O.o, NEWS[kind])
