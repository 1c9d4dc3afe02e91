"""C27: what the options of the command-line tools do"""
import contextlib
import io
import json
import math
import os
import tempfile
import types
import numpy as np
from vf.harness import harness
from .common import *
from .C18 import FACTOR

FN = ['cli.dos.main', 'cli.dispersion.main', 'cli.intensity_map.main',
      'cli.powder_map.main', 'cli.utils.load_data_from_file',
      'cli.utils._get_energy_bins', 'cli.utils._get_q_distance',
      'cli.utils._grid_spec_from_args', 'cli.utils._get_debye_waller',
      'cli.utils._get_pdos_weighting', 'cli.utils._arrange_pdos_groups',
      'cli.utils._calc_modes_kwargs', 'cli.utils._get_cli_parser',
      'cli.utils._bands_from_force_constants', 'cli.utils._insert_gamma',
      'cli.utils._get_tick_labels', 'cli.utils._get_break_points',
      'cli.powder_map._get_broaden_kwargs',
      'cli.optimise_dipole_parameter.calculate_optimum_dipole_parameter',
      'cli.show_sampling.main']
FWHM = 2 * math.sqrt(2 * math.log(2))
CUB = [[4., 0, 0], [0, 4., 0], [0, 0, 4.]]


class Stop(Exception):
    pass


def _load():
    # before the symbolic run, so that their use of numpy is encoded too
    import importlib
    for m in ('dos', 'dispersion', 'intensity_map', 'powder_map',
              'optimise_dipole_parameter', 'show_sampling', 'utils'):
        try:
            importlib.import_module(f'euphonic.cli.{m}')
        except Exception:
            pass


_load()


def crystal_dict(types, cell=CUB):
    n = len(types)
    r = [[.5 * i, .5 * i, .5 * i] for i in range(n)]
    return {'cell_vectors': cell, 'cell_vectors_unit': 'angstrom',
            'n_atoms': n, 'atom_r': r, 'atom_type': list(types),
            'atom_mass': [20. + 3 * i for i in range(n)],
            'atom_mass_unit': 'amu'}


def fc_dict(types, cell=CUB):
    n = len(types)
    return {'crystal': crystal_dict(types, cell),
            'force_constants': np.eye(3 * n).reshape(1, 3 * n,
                                                     3 * n).tolist(),
            'force_constants_unit': 'hartree/bohr**2', 'n_cells_in_sc': 1,
            'sc_matrix': np.eye(3, dtype=int).tolist(),
            'cell_origins': [[0, 0, 0]]}


def modes_dict(types, nq=2, eig=True):
    n = len(types)
    d = {'crystal': crystal_dict(types), 'n_qpts': nq,
         'qpts': [[.1 * i, 0, 0] for i in range(nq)],
         'weights': [1. / nq] * nq,
         'frequencies': [[1. + i + j for j in range(3 * n)]
                         for i in range(nq)], 'frequencies_unit': 'meV'}
    if eig:
        e = np.eye(3 * n).reshape(3 * n, n, 3)
        e = np.stack([e, 0 * e], axis=-1)
        d['eigenvectors'] = {'__complex__': True}
        d['eigenvectors'] = np.array([e] * nq).tolist()
    return d


def same(x):
    """as it is now: the tools scale spectra in place"""
    return x.copy() if hasattr(x, 'copy') and hasattr(x, 'x_data') else x


class Tool:
    """runs main() of a tool with symbolic values of options; phonons and
    spectra are symbolic and everything passed to the calculation recorded"""

    def __init__(self, ctx, tool, data, params, types=('Na',), given=None,
                 freqs=None, unit='meV', cell=CUB):
        self.ctx, self.tool, self.params = ctx, tool, list(params)
        self.types, self.given, self.unit = types, given or {}, unit
        self.data, self.cell = data, cell
        self.calls, self.out, self.freqs = [], None, freqs
        self.undo = []
        self.n = 0
        self.modes_out = []

    def put(self, obj, name, f, new=False):
        if not hasattr(obj, name) and not new:
            return
        had = name in vars(obj)
        old = vars(obj).get(name)
        setattr(obj, name, f)
        self.undo.append((obj, name, had, old))

    def named(self, name):
        return [c for c in self.calls if c[0] == name]

    def one(self, name):
        c = self.named(name)
        self.ctx.true(f'one call of {name}', len(c) == 1, f'{len(c)}')
        return c[0]

    def modes(self, cls):
        ctx, T = self.ctx, self
        from euphonic import ureg

        def f(fc, qpts, *a, **k):
            n, m = len(qpts), 3 * len(T.types)
            T.n += 1
            fr = np.empty((n, m), dtype=object)
            fr = [[2. + .1 * i + j for j in range(m)] for i in range(n)]
            fr[0][0] = ctx.real(f'flo{T.n}', -2., 1.5)
            fr[-1][-1] = ctx.real(f'fhi{T.n}', 20., 30.)
            T.modes_out.append([list(x) for x in fr])
            if n == 1 and m == 1:
                raise AssertionError
            args = []
            if cls.__name__ == 'QpointPhononModes':
                e = np.eye(m).reshape(m, m // 3, 3) * (1 + 0j)
                args = [ctx.const(np.array([e] * n), dtype=complex)]
            out = cls(fc.crystal, ctx.arr(qpts) if not isinstance(
                qpts, np.ndarray) else qpts,
                ureg.Quantity(ctx.arr(fr), 'meV'), *args)
            T.calls.append((f'modes:{cls.__name__}', fc, qpts, a, k, out))
            if k.get('return_mode_gradients'):
                g = ureg.Quantity(ctx.reals('grad', (n, m), .5, 9.),
                                  'meV*angstrom')
                T.grad = g
                return out, g
            return out
        return f

    def rec(self, name, result=None):
        def f(obj, *a, **k):
            r = result(obj, *a, **k) if result else obj
            self.calls.append((name, same(obj), a, k, same(r)))
            return r
        return f

    def reals(self, name, shape):
        # in falling order: their largest value is printed
        n = int(np.prod(shape))
        vals = []
        for i in range(n):
            self.n += 1
            vals.append(self.ctx.real(f'{name}{self.n}', 9. - self.n,
                                      9.9 - self.n))
        out = np.empty(n, dtype=object)
        out[:] = vals
        return self.ctx.arr(out.reshape(shape).tolist())

    def go(self):
        import argparse
        import importlib
        import euphonic
        from euphonic import (ForceConstants, QpointFrequencies,
                              QpointPhononModes, Spectrum1D, Spectrum2D,
                              Spectrum1DCollection, StructureFactor, ureg)
        ctx = self.ctx
        main = importlib.import_module(f'euphonic.cli.{self.tool}')
        orig = argparse.ArgumentParser.parse_args

        def parse(parser, *a, **k):
            ns = orig(parser, *a, **k)
            for n, v in self.given.items():
                if not hasattr(ns, n):
                    raise AssertionError(f'no option {n}')
                setattr(ns, n, v)
            return ns
        self.put(argparse.ArgumentParser, 'parse_args', parse)
        self.put(ForceConstants, 'calculate_qpoint_frequencies',
                 self.modes(QpointFrequencies))
        self.put(ForceConstants, 'calculate_qpoint_phonon_modes',
                 self.modes(QpointPhononModes))

        def s1(obj, bins, *a, **k):
            return Spectrum1D(bins, ureg.Quantity(self.reals(
                'y', (len(bins) - 1,)), '1/meV'))

        def s1c(obj, bins, *a, **k):
            return Spectrum1DCollection(bins, ureg.Quantity(self.reals(
                'y', (len(self.types), len(bins) - 1)), '1/meV'),
                metadata={'line_data': [
                    {'species': t, 'index': i} for i, t in enumerate(
                        self.types)]} if len(set(self.types)) > 1 else
                {'species': self.types[0], 'index': 0} if
                len(self.types) == 1 else {'species': self.types[0],
                                           'line_data': [
                    {'index': i} for i in range(len(self.types))]})

        def s2(obj, bins, *a, **k):
            n = len(obj.qpts)
            return Spectrum2D(ureg.Quantity(ctx.const(np.arange(n) * .1),
                                            '1/angstrom'),
                              bins, ureg.Quantity(self.reals(
                                  'z', (n, len(bins) - 1)), 'mbarn/meV'))
        def flip(obj, *a, **k):
            obj.frequencies = obj.frequencies[:, ::-1]
        for cls in (QpointFrequencies, QpointPhononModes):
            self.put(cls, 'calculate_dos', self.rec('dos', s1))
            self.put(cls, 'calculate_dos_map', self.rec('dos map', s2))
        self.put(QpointPhononModes, 'calculate_pdos', self.rec('pdos', s1c))
        self.put(QpointPhononModes, 'reorder_frequencies', self.rec(
            'reorder', flip))
        self.put(QpointPhononModes, 'calculate_debye_waller',
                 self.rec('debye waller', lambda o, *a, **k: ('DW', T.n)))
        T = self
        self.put(QpointPhononModes, 'calculate_structure_factor', self.rec(
            'structure factor', lambda o, *a, **k: StructureFactor(
                o.crystal, o.qpts, o.frequencies, ureg.Quantity(
                    ctx.const(np.ones(np.shape(o.frequencies.magnitude))),
                    'mbarn'))))
        self.put(StructureFactor, 'calculate_sqw_map', self.rec('sqw', s2))

        import math as mt
        self.put(ureg.Quantity, '__ceil__', lambda q: mt.ceil(
            q.to('').magnitude), new=True)

        def wide(obj, *a, **k):
            r = obj.copy()
            n = '_z_data' if isinstance(obj, Spectrum2D) else '_y_data'
            attr = n[1:]
            old = getattr(obj, attr)
            setattr(r, attr, ureg.Quantity(self.reals('b', np.shape(
                old.magnitude)), old.units))
            return r

        def keep(obj, *a, **k):
            self.out = obj
        for cls in (Spectrum1D, Spectrum1DCollection, Spectrum2D):
            self.put(cls, 'broaden', self.rec('broaden', wide))
            self.put(cls, 'to_json_file', keep)
            self.put(cls, 'split', self.rec('split', lambda o, *a, **k: [o.copy()]))
        import euphonic.powder as pw
        for n, mk in (('dos', s1), ('pdos', s1c), ('structure_factor', s1)):
            f = self.rec('sphere ' + n, lambda fc, q, mk=mk, **k: mk(
                fc, k['energy_bins']))
            for mod in (pw, main):
                self.put(mod, 'sample_sphere_' + n, f)

        def stop(obj, *a, **k):
            self.calls.append(('plotted', obj, a, k, None))
            raise Stop
        import inspect
        import euphonic.plot as pl
        self.signature = {n: inspect.signature(getattr(pl, n)) for n in (
            'plot_1d', 'plot_2d')}
        for mod in (main, pl):
            for n in ('plot_1d', 'plot_2d'):
                self.put(mod, n, stop)
        import matplotlib.style as ms

        @contextlib.contextmanager
        def context(style, after_reset=False):
            self.styles = self.styles + (list(style) if isinstance(
                style, (list, tuple)) else [style])
            yield
        self.styles = []
        self.put(ms, 'context', context)
        tmp = tempfile.mkdtemp()
        fn = os.path.join(tmp, 'data.json')
        try:
            with open(fn, 'w') as f:
                json.dump(self.data, f)
            with contextlib.redirect_stdout(io.StringIO()), quiet(), \
                    contextlib.redirect_stderr(io.StringIO()):
                try:
                    main.main([fn] + self.params + [
                        '--save-json', os.path.join(tmp, 'out.json')])
                except Stop:
                    pass
        finally:
            for obj, n, had, old in reversed(self.undo):
                setattr(obj, n, old) if had else delattr(obj, n)
            os.remove(fn)
            os.rmdir(tmp)
        for c in self.named('plotted'):
            d, o = c[1], self.out
            attr = 'z_data' if hasattr(o, 'z_data') else 'y_data'
            d = list(d) if type(d) in (list, tuple) else [d]
            ctx.true('plotted', len(d) == 1)
            ctx.eq('what is plotted is what is saved', getattr(
                d[0], attr).magnitude, getattr(o, attr).magnitude)
            ctx.eq('its axis', d[0].x_data.magnitude, o.x_data.magnitude)
            ctx.true('its labels', list(d[0].x_tick_labels or []) == list(
                o.x_tick_labels or []))
        return self.out


U = {'meV': 1., '1/cm': FACTOR[('meV', '1/cm')],
     'THz': FACTOR[('meV', 'THz')], 'eV': 1e-3}


def edges(ctx, T, out, name, n, lo, hi, unit, headroom=1.05, key=None):
    """bins: n between lo and hi or the range of the modes"""
    flo, fhi = T.lo, T.hi
    if lo is None:
        lo = flo * U[unit] - 1e-5 * U[unit]
        lo = lo if bool(lo < 0) else 0.
    if hi is None:
        hi = fhi * U[unit] * headroom
    b = out.to(unit).magnitude if unit != '1/cm' else \
        out.to('1/cm').magnitude
    ctx.true('number of bins', len(b) == n + 1, f'{len(b)}')
    ctx.eq('bins', b, [lo + (hi - lo) * (i / n) for i in range(n + 1)],
           tol=1e-6, scale_tol=1e-9)


def first(T, ctx):
    T.lo = ctx.real('flo1', -2., 1.5)
    T.hi = ctx.real('fhi1', 20., 30.)


@harness('C27', functions=FN, bounds='euphonic-dos with limits given or not, '
         '1-5 bins, four units; frequencies of a 1x1x2 grid; lowest (any sign) '
         'and highest symbolic', cases=[
             dict(lo=a, hi=b, n=n, unit=u) for a, b, n, u in (
                 (0, 0, 3, 'meV'), (1, 0, 2, 'meV'), (0, 1, 5, 'meV'),
                 (1, 1, 1, 'meV'), (0, 0, 3, '1/cm'), (1, 1, 2, 'THz'),
                 (0, 1, 2, 'eV'))] + [dict(lo=1, hi=1, n=2, unit='meV',
                                          bad=True)], traces=1)
def dos_bins(ctx, lo, hi, n, unit, bad=False):
    given = {}
    k = U[unit]
    if lo:
        given['e_min'] = ctx.real('emin', -1. * k, 2. * k)
    if hi:
        given['e_max'] = ctx.real('emax', 3. * k, 50. * k)
    if bad:
        given['e_max'] = given['e_min'] - ctx.real('less', 0., 5.)
    p = ['--ebins', str(n), '--grid', '1', '1', '2', '--energy-unit', unit]
    if lo:
        p += ['--e-min=-1']
    if hi:
        p += ['--e-max', '40']
    T = Tool(ctx, 'dos', fc_dict(['Na']), p, given=given)
    if bad:
        ctx.expect_raise('empty range', ValueError, T.go)
        return
    out = T.go()
    c = T.one('dos')
    first(T, ctx)
    edges(ctx, T, c[2][0] if c[2] else c[3]['dos_bins'], 'dos', n,
          given.get('e_min'), given.get('e_max'), unit)
    ctx.true('unit of the spectrum', out.x_data_unit == str(c[2][0].units))
    ctx.eq('values', out.y_data.to('1/meV').magnitude,
           c[4].y_data.to('1/meV').magnitude)
    ctx.true('no broadening', not T.named('broaden'))


def mp(n):
    g = [[(2 * r - m - 1) / (2. * m) for r in range(1, m + 1)] for m in n]
    return [[a, b, c] for a in g[0] for b in g[1] for c in g[2]]


@harness('C27', functions=FN, bounds='euphonic-dos, powder map and intensity map '
         'grids: given, by spacing (symbolic range that fixes the grid) in '
         'four units, default', cases=[
             dict(how=h, unit=u, tool=t) for h, u, t in (
                 ('grid', 'angstrom', 'dos'), ('spacing', 'angstrom', 'dos'),
                 ('spacing', 'bohr', 'dos'), ('spacing', 'nm', 'dos'),
                 ('grid', 'angstrom', 'intensity_map'),
                 ('spacing', 'nm', 'intensity_map'),
                 ('grid', 'bohr', 'powder_map'),
                 ('spacing', 'bohr', 'powder_map'))], traces=1)
def grids(ctx, how, unit, tool):
    """Monkhorst-Pack grid of the DOS or of the Debye-Waller exponent"""
    k = {'angstrom': 1., 'bohr': .529177210903, 'nm': 10.}[unit]
    p = ['--length-unit', unit]
    given = {}
    if how == 'grid':
        p += ['--grid', '1', '2', '3']
        want = (1, 2, 3)
    else:
        # reciprocal length 2 pi/4 = 1.5708 per angstrom: 2 points from
        # .7854 to 1.5708
        given['grid_spacing'] = ctx.real('spacing', .80 * k, 1.5 * k)
        p += ['--grid-spacing', '1.']
        want = (2, 2, 2)
    if tool != 'dos':
        p += ['--weighting', 'coherent', '--temperature', '300']
        given['temperature'] = ctx.real('temp', 1., 400.)
    if tool == 'intensity_map':
        p += ['--q-spacing', str(1.2 * k)]
    if tool == 'powder_map':
        p += ['--q-spacing', str(1. * k), '--q-min', '0.', '--q-max',
              str(1. * k), '--no-widgets']
    T = Tool(ctx, tool, fc_dict(['Na']), p, given=given)
    T.go()
    calls = [c for c in T.calls if c[0].startswith('modes')]
    if tool == 'dos':
        c = calls[0]
        ctx.true('one calculation', len(calls) == 1)
    else:
        d = T.one('debye waller')
        c = [x for x in calls if x[5] is d[1]][0]
        t = d[2][0] if d[2] else d[3]['temperature']
        ctx.eq('temperature', t.to('K').magnitude, given['temperature'])
        if tool == 'intensity_map':
            s = T.one('structure factor')
            ctx.true('Debye-Waller exponent used', (
                s[3].get('dw') or s[2][-1]) is d[4])
        else:
            for s in T.named('sphere structure_factor'):
                ctx.true('Debye-Waller exponent used', s[3].get('dw') is d[4])
                ctx.eq('temperature of the spheres', s[3][
                    'temperature'].to('K').magnitude, given['temperature'])
    ctx.eq('grid', ctx.const(np.array(c[2], dtype=float)), mp(want))


OPT = [([], {}),
       (['--asr'], {'asr': 'reciprocal'}),
       (['--asr', 'realspace', '--disable-c'],
        {'asr': 'realspace', 'use_c': False}),
       (['--use-c', '--n-threads', '3', '--dipole-parameter', '1.5'],
        {'use_c': True, 'n_threads': 3, 'dipole_parameter': 1.5})]


@harness('C27', functions=FN, bounds='four tools, four sets of calculation '
         'options; dipole parameter symbolic', cases=[
             dict(tool=t, i=i) for t in ('dos', 'dispersion', 'intensity_map',
                                         'powder_map', 'powder dw')
             for i in range(4)], traces=0)
def calculation_options(ctx, tool, i):
    opts, want = OPT[i]
    p = list(opts)
    given = {}
    want = dict(want)
    if i == 3:
        want['dipole_parameter'] = given['dipole_parameter'] = ctx.real(
            'dip', .1, 3.)
    if tool == 'dos':
        p += ['--grid', '1', '1', '2']
    elif tool.startswith('powder'):
        p += ['--q-spacing', '1.', '--q-max', '1.', '--no-widgets']
        if tool == 'powder dw':
            p += ['-w', 'coherent', '--temperature', '10', '--grid', '1', '1',
                  '2']
            tool = 'powder_map'
    else:
        p += ['--q-spacing', '1.2']
    T = Tool(ctx, tool, fc_dict(['Na']), p, given=given)
    T.go()
    ks = [c[4] for c in T.calls if c[0].startswith('modes')] + [
        c[3] for c in T.calls if c[0].startswith('sphere')]
    ctx.true('calculations', len(ks) > 0)
    for k in ks:
        for n, d in (('asr', None), ('use_c', None), ('n_threads', None)):
            ctx.true(n, k.get(n, d) == want.get(n, d), f'{k.get(n)}')
        ctx.eq('dipole parameter', k.get('dipole_parameter', 1.),
               want.get('dipole_parameter', 1.))


DB = [dict(par=p, **k) for p, k in (
    ('eb', {}), ('ib', {}), ('eb', {'shape': 'lorentz'}), ('eb2', {}),
    ('ib3', {'unit': '1/cm'}), ('none', {}), ('adaptive', {}),
    ('adaptive scale', {}), ('adaptive eb', {}), ('adaptive ib', {}),
    ('adaptive eb2', {}), ('adaptive ib lorentz', {'shape': 'lorentz'}),
    ('adaptive eb ib', {}), ('adaptive ib3', {'unit': 'THz'}),
    ('adaptive ib', {'unit': '1/cm'}), ('adaptive fast', {}),
    ('eb ib', {}), ('adaptive scale eb', {}))]


@harness('C27', functions=FN, bounds='euphonic-dos: 18 combinations of the '
         'broadening options, all their numbers symbolic; scale symbolic or '
         'not given; 2 bins, 2 q-points', cases=DB, traces=1)
def dos_broadening(ctx, par, shape='gauss', unit='meV'):
    """FWHM polynomials, adaptive widths, and their combination"""
    from euphonic import ureg
    p = ['--ebins', '2', '--grid', '1', '1', '2', '--energy-unit', unit,
         '--shape', shape]
    given = {}
    k = U[unit]
    has = par.split()
    ad = 'adaptive' in has

    def num(name, lo, hi):
        return ctx.real(name, lo, hi)
    eb = [x for x in has if x.startswith('eb')]
    ib = [x for x in has if x.startswith('ib')]
    coef = lambda t, n: [num(f'{t}0', 1. * k, 2. * k), num(f'{t}1', .01, .02),
                         num(f'{t}2', 1e-4 / k, 2e-4 / k)][:n]
    cnt = lambda s: int(s[-1]) if s[-1].isdigit() else 1
    bad = par in ('eb ib', 'adaptive scale eb')
    if ad:
        p += ['--adaptive']
    if eb:
        p += ['--energy-broadening'] + ['1.'] * cnt(eb[0])
        given['energy_broadening'] = coef('e', cnt(eb[0]))
    if ib:
        p += ['--instrument-broadening'] + ['1.'] * cnt(ib[0])
        given['inst_broadening'] = coef('i', cnt(ib[0]))
    if 'scale' in has:
        p += ['--adaptive-scale', '2.']
        given['adaptive_scale'] = num('as', .1, 3.)
    if 'fast' in has:
        p += ['--adaptive-method', 'fast', '--adaptive-error', '0.05',
              '--adaptive-fit', 'cheby-log']
        given['adaptive_error'] = num('err', .001, .1)
    sc = 1.
    if par not in ('none', 'adaptive'):
        p += ['--scale', '2.']
        sc = given['scale'] = num('sc', 0., 3.)
    T = Tool(ctx, 'dos', fc_dict(['Na']), p, given=given)
    if bad:
        ctx.expect_raise('given twice', ValueError, T.go)
        return
    out = T.go()
    c = T.one('dos')
    kw = c[3]
    poly = None
    scale = given.get('adaptive_scale', 1.)
    if ib:
        poly = given['inst_broadening']
    if eb:
        if ad and cnt(eb[0]) == 1:
            scale = given['energy_broadening'][0]
        else:
            poly = given['energy_broadening']
    bro = T.named('broaden')
    mw = kw.get('mode_widths')
    if ad:
        g = T.grad.to('meV*angstrom').magnitude
        w = 2 / (2 * 64.) ** (1 / 3) * scale
        f = T.named('modes:QpointPhononModes')[0][5].frequencies.to(
            'meV').magnitude
        want = [[None] * 3 for _ in range(2)]
        for i in range(2):
            for j in range(3):
                v = g[i, j] * w
                v = v * v
                if poly is not None and shape == 'gauss':
                    s = sum(a * (f[i, j] * k) ** n for n, a in enumerate(
                        poly)) / (k * FWHM)
                    v = v + s * s
                want[i][j] = v
        m = mw.to('meV').magnitude
        ctx.eq('mode widths (standard deviation)', m * m, want, tol=1e-6,
               scale_tol=1e-6)
        ctx.true('method', kw.get('adaptive_method', 'reference') == (
            'fast' if 'fast' in has else 'reference'))
        ctx.true('fit', kw.get('adaptive_error_fit', 'cubic') == (
            'cheby-log' if 'fast' in has else 'cubic'))
        ctx.eq('error', kw.get('adaptive_error', .01),
               given.get('adaptive_error', .01))
    else:
        ctx.true('no mode widths', mw is None)
    y = c[4].y_data.to('1/meV').magnitude
    if poly is not None and not (ad and shape == 'gauss'):
        ctx.true('broadened once', len(bro) == 1)
        b = bro[0]
        x = b[2][0] if b[2] else b[3]['x_width']
        ctx.true('shape', b[3].get('shape', 'gauss') == shape)
        width(ctx, x, poly, unit)
        y = b[4].y_data.to('1/meV').magnitude
    else:
        ctx.true('not broadened again', not bro)
    ctx.eq('spectrum', out.y_data.to('1/meV').magnitude, y * sc)


def width(ctx, x, poly, unit):
    """x is the polynomial of the energy, as a number or as a function"""
    from euphonic import ureg
    if callable(x) and not hasattr(x, 'magnitude'):
        e = ctx.real('energy', 0., 40.)
        w = x(ureg.Quantity(ctx.arr([e]), 'meV'))
        v = e * U[unit]
        ctx.eq('width', w.to(unit).magnitude, [sum(
            a * v ** n for n, a in enumerate(poly))], tol=1e-6,
            scale_tol=1e-9)
    else:
        ctx.true('constant width', len(poly) == 1)
        w = x.to(unit).magnitude
        ctx.eq('width', w, poly[0] if np.shape(w) == () else [poly[0]])


PD = [(t, w, s) for t in (('Na', 'Cl'), ('Na', 'Cl', 'Na'), ('Si',),
                          ('Si', 'Si'))
      for w in ('dos', 'coherent-dos', 'incoherent-dos',
                'coherent-plus-incoherent-dos') for s in (None, [], ['*'])
      if w in ('dos', 'coherent-plus-incoherent-dos') or (
          t == ('Na', 'Cl') and s is None)] + [
    (('Na', 'Cl', 'Si'), 'dos', s) for s in (['Na', 'Cl'], ['Si', 'Na'], ['Cl'],
                                             ['Na', 'Cl', 'Si'])] + [
    (('Na', 'Cl', 'Si', 'Cl'), 'coherent-dos', ['Na', 'Cl'])]


@harness('C27', functions=FN, bounds='euphonic-dos --pdos and --weighting for '
         'six crystals (1-3 species, lists of 1-3 of them); 2 bins', cases=[
             dict(types=list(t), weighting=w, species=s) for t, w, s in PD],
         traces=1)
def dos_groups(ctx, types, weighting, species):
    """total and per-species lines"""
    p = ['--ebins', '2', '--grid', '1', '1', '2', '--weighting', weighting]
    sel = None
    if species is not None:
        sel = [types[-1]] if species == ['*'] else species
        p += ['--pdos'] + sel
    T = Tool(ctx, 'dos', fc_dict(types), p, types=types)
    out = T.go()
    if weighting == 'dos' and species is None:
        c = T.one('dos')
        ctx.eq('dos', out.y_data.magnitude, c[4].y_data.magnitude)
        return
    c = T.one('pdos')
    ctx.true('weighting', c[3].get('weighting') == (
        None if weighting == 'dos' else weighting[:-4]))
    y = c[4].y_data.magnitude
    tot = [sum(y[i, b] for i in range(len(types))) for b in range(2)]
    per = {s: [sum(y[i, b] for i in range(len(types)) if types[i] == s)
               for b in range(2)] for s in set(types)}
    got = out.y_data.magnitude
    if species is None:
        ctx.eq('total', got, tot)
        return
    lines = [m.get('label') for m in out.iter_metadata()] if hasattr(
        out, 'iter_metadata') else [
            {**{k: v for k, v in out.metadata.items() if k != 'line_data'},
             **l}.get('label') for l in out.metadata.get(
                 'line_data', [{}] * len(got))]
    lines = [str(l) for l in lines]
    order = list(dict.fromkeys(types))
    if sel:
        ctx.true('lines', sorted(lines) == sorted(sel), f'{lines}')
        ctx.eq('selected', got, [per[s] for s in lines])
    else:
        ctx.true('lines', lines[0] == 'Total' and sorted(lines[1:])
                 == sorted(order), f'{lines}')
        ctx.eq('lines', got, [tot] + [per[l] for l in lines[1:]])


# -- band paths --------------------------------------------------------------
LATT = {'cub': CUB, 'fcc': [[0, 2.5, 2.5], [2.5, 0, 2.5], [2.5, 2.5, 0]],
        'hex': [[3., 0, 0], [-1.5, 1.5 * 3 ** .5, 0], [0, 0, 5.]],
        'tri': [[3., 0, 0], [.5, 3.5, 0], [.3, .7, 4.1]]}


def path_for(cell, spacing):
    import seekpath
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return seekpath.get_explicit_k_path((cell, [[0, 0, 0]], [0]),
                                            reference_distance=spacing)


@harness('C27', functions=FN, bounds='dispersion and intensity map of four '
         'lattices, q spacing in two units; energy unit any of four; with and '
         'without reordering; frequencies symbolic', cases=[
             dict(tool=t, cell=c, unit=u, energy=e) for t, c, u, e in (
                 ('dispersion', 'cub', 'angstrom', 'meV'),
                 ('dispersion', 'fcc', 'bohr', 'THz'),
                 ('dispersion', 'hex', 'angstrom', '1/cm'),
                 ('dispersion', 'hex', 'nm', 'meV'),
                 ('dispersion', 'tri', 'angstrom', 'meV'),
                 ('intensity_map', 'tri', 'angstrom', 'meV'),
                 ('intensity_map', 'fcc', 'angstrom', 'meV'),
                 ('intensity_map', 'hex', 'bohr', '1/cm'))] + [
             dict(tool='dispersion', cell='fcc', unit='angstrom',
                  energy='meV', reorder=True)], traces=1)
def band_paths(ctx, tool, cell, unit, energy, reorder=False):
    """q-points of the recommended path, its labels and breaks"""
    from euphonic import QpointPhononModes, Spectrum1DCollection
    sp = {'angstrom': 1., 'bohr': .529177210903, 'nm': 10.}[unit] * .6
    p = ['--q-spacing', repr(sp), '--length-unit', unit, '--energy-unit',
         energy] + (['--reorder'] if reorder else [])
    T = Tool(ctx, tool, fc_dict(['Na'], LATT[cell]), p)
    out = T.go()
    bp = path_for(LATT[cell], .6)
    q, lab = [list(x) for x in bp['explicit_kpoints_rel']], \
        list(bp['explicit_kpoints_labels'])
    if tool == 'dispersion':
        nq, nl = [], []
        for i, (a, b) in enumerate(zip(q, lab)):
            nq.append(a)
            nl.append(b)
            if b == 'GAMMA' and 0 < i < len(q) - 1:
                nq.append(a)
                nl.append(b)
        q, lab = nq, nl
    c, = [c for c in T.calls if c[0].startswith('modes')]
    ctx.eq('path', ctx.const(np.array(c[2], dtype=float)), q)
    ctx.true('repeated points are kept', c[4].get('reduce_qpts') is False)
    ctx.true('eigenvectors as needed', (c[0] == 'modes:QpointPhononModes')
             == reorder)
    ctx.true('reordering', len(T.named('reorder')) == int(reorder))
    want = [(i, r'$\Gamma$' if l == 'GAMMA' else l)
            for i, l in enumerate(lab) if l]
    ctx.true('labels', [(int(i), str(l)) for i, l in out.x_tick_labels]
             == want, f'{out.x_tick_labels} for {want}')
    s = T.one('split')
    ind = s[3].get('indices', s[2][0] if s[2] else None)
    brk = [i for i in range(1, len(lab)) if lab[i] and lab[i - 1]
           and lab[i] != lab[i - 1]]
    ctx.true('breaks', list(ind) == brk, f'{ind} for {brk}')
    if tool == 'dispersion':
        f = T.modes_out[-1]
        ctx.eq('bands', out.y_data.to(energy).magnitude, [
            [f[i][j] * U[energy] for i in range(len(q))]
            for j in ((2, 1, 0) if reorder else (0, 1, 2))], tol=1e-6)
        ctx.true('energy unit', out.y_data.units == c[5].frequencies.to(
            energy).units)


@harness('C27', functions=FN, bounds='intensity map options: bins, q and energy '
         'broadening (constant or polynomial), scale; numbers symbolic',
         cases=[dict(par=p, weighting=w, unit=u, shape=s) for p, w, u, s in (
             ('', 'dos', 'meV', 'gauss'), ('zero', 'dos', 'meV', 'gauss'),
             ('q', 'dos', 'meV', 'gauss'),
             ('e', 'dos', '1/cm', 'lorentz'), ('q e', 'coherent', 'meV',
                                               'gauss'),
             ('e2', 'dos', 'meV', 'gauss'), ('e3', 'coherent', 'THz', 'gauss'),
             ('q e2', 'dos', 'meV', 'gauss'))], traces=1)
def map_options(ctx, par, weighting, unit, shape):
    k = U[unit]
    p = ['--q-spacing', '1.2', '--ebins', '2', '-w', weighting,
         '--energy-unit', unit, '--shape', shape, '--length-unit', 'bohr',
         '--scale', '1.']
    p[1] = '.6'
    given = {'scale': 0. if 'zero' in par else ctx.real('sc', .1, 3.)}
    eb = [x for x in par.split() if x[0] == 'e']
    if 'q' in par.split():
        p += ['--q-broadening', '0.1']
        given['q_broadening'] = [ctx.real('qb', .01, .2)]
    n = 0
    if eb:
        n = int(eb[0][1:] or 1)
        p += ['--energy-broadening'] + ['1.'] * n
        given['energy_broadening'] = [
            ctx.real('e0', 1. * k, 2. * k), ctx.real('e1', .01, .02),
            ctx.real('e2', 1e-4 / k, 2e-4 / k)][:n]
    T = Tool(ctx, 'intensity_map', fc_dict(['Na']), p, given=given)
    out = T.go()
    c = T.one('dos map' if weighting == 'dos' else 'sqw')
    first(T, ctx)
    edges(ctx, T, c[2][0] if c[2] else list(c[3].values())[0], '', 2, None,
          None, unit)
    if weighting == 'coherent':
        s = T.one('structure factor')
        ctx.true('no Debye-Waller factor', s[3].get('dw') is None
                 and not T.named('debye waller'))
    z = c[4].z_data.magnitude
    b = T.named('broaden')
    ctx.true('broadened once if at all', len(b) == int(par not in ('', 'zero')))
    if b:
        kw = b[0][3]
        ctx.true('shape', kw.get('shape') == shape)
        x = kw.get('x_width')
        if 'q' in par.split():
            w = x.to('1/bohr').magnitude
            ctx.eq('q width', w if np.shape(w) == () else w[0],
                   given['q_broadening'][0])
        else:
            ctx.true('no q width', x is None)
        if n:
            width(ctx, kw.get('y_width'), given['energy_broadening'], unit)
        else:
            ctx.true('no energy width', kw.get('y_width') is None)
        z = b[0][4].z_data.magnitude
    ctx.eq('spectrum', out.z_data.magnitude, z * given['scale'])


POWD = [dict(weighting=w, **k) for w, k in (
    ('dos', {}), ('dos', {'pdos': True}), ('coherent-dos', {}),
    ('incoherent-dos', {'pdos': True}), ('coherent', {}),
    ('dos', {'density': True}), ('coherent', {'density': True, 'jitter': True}),
    ('dos', {'emax': True, 'unit': '1/cm'}), ('dos', {'ei': True}),
    ('dos', {'ei': True, 'emax': True}), ('dos', {'ef': True}),
    ('dos', {'ef': True, 'angles': True, 'unit': 'THz'}),
    ('dos', {'ei': True, 'angles': True}), ('dos', {'qb': 1, 'eb': 1}),
    ('dos', {'qb': 2, 'eb': 3, 'unit': 'THz'}), ('dos', {'length': 'nm'}),
    ('dos', {'types': ['Si'], 'pdos': True}),
    ('coherent', {'types': ['Na', 'Cl'], 'length': 'bohr', 'qb': 1}))]


@harness('C27', functions=FN, bounds='powder map: 18 combinations of options; '
         'q limits, spacing, densities, widths, energy limits and scale '
         'symbolic; 1-3 spheres, 2 energy bins', cases=POWD, traces=1,
         opts={'max_paths': 300})
def powder_options(ctx, weighting, pdos=False, density=False, jitter=False,
                   emax=False, ei=False, qb=0, eb=0, unit='meV',
                   length='angstrom', types=None, ef=False, angles=False):
    from euphonic import ureg
    types = types or (['Na', 'Cl'] if pdos else ['Na'])
    k = U[unit]
    p = ['--ebins', '2', '-w', weighting, '--energy-unit', unit,
         '--length-unit', length, '--q-min', '1', '--q-max', '2',
         '--q-spacing', '.5', '--scale', '2.', '--no-widgets',
         '--sampling', 'spherical-polar-improved']
    if density:
        q0, dq = .25, .5
    else:
        q0 = ctx.real('qmin', .1, .5)
        dq = ctx.real('dq', .3, .4)
    m = ctx.choice('spheres', [1, 2] if density else [1, 2, 3])
    fr = .5 if density else ctx.real('part', .01, .99)
    q1 = q0 + dq * (m - 1) + dq * fr
    given = dict(scale=ctx.real('sc', .1, 3.), q_min=q0, q_max=q1,
                 q_spacing=dq)
    if pdos:
        p += ['--pdos', types[-1]]
    if jitter:
        p += ['--jitter']
    if density:
        p += ['--npts-density', '10', '--npts-min', '5', '--npts-max', '8']
        dens = given['npts_density'] = ctx.real('density', 2., 25.)
    else:
        p += ['--npts', '77']
    if emax:
        p += ['--e-max', '40']
        given['e_max'] = ctx.real('emax', 3. * k, 40. * k)
    if ei:
        p += ['--e-i', '35']
    if ef:
        p += ['--e-f', '4.5']
    if angles:
        p += ['--angle-range', '10.5', '-100']
    if qb:
        p += ['--q-broadening'] + ['.1'] * qb
        given['q_broadening'] = [ctx.real('q0', .01, .2), ctx.real(
            'q1', .01, .1)][:qb]
    if eb:
        p += ['--energy-broadening'] + ['1.'] * eb
        given['energy_broadening'] = [
            ctx.real('e0', 1. * k, 2. * k), ctx.real('e1', .01, .02),
            ctx.real('e2', 1e-4 / k, 2e-4 / k)][:eb]
    T = Tool(ctx, 'powder_map', fc_dict(types), p, given=given, types=types)
    import importlib
    mod = importlib.import_module('euphonic.cli.powder_map')
    import euphonic.spectra as sp
    kin = T.rec('kinematic', lambda s, **kw: s.copy())
    T.put(mod, 'apply_kinematic_constraints', kin)
    T.put(sp, 'apply_kinematic_constraints', kin)
    out = T.go()
    ku = f'1/{length}'
    x = out.x_data.to(ku).magnitude
    ctx.true('spheres', len(x) == m + 1, f'{len(x)} for {m}')
    ctx.eq('shell edges', x, [q0 + (q1 - q0) * (i / m) for i in range(m + 1)],
           tol=1e-6, scale_tol=1e-9)
    name = 'sphere structure_factor' if weighting == 'coherent' else \
        'sphere dos' if weighting == 'dos' and not pdos else 'sphere pdos'
    cs = T.named(name)
    ctx.true('one average per shell', len(cs) == m == len(
        [c for c in T.calls if c[0].startswith('sphere')]))
    first(T, ctx)
    hi = given.get('e_max')
    if ei and not emax:
        hi = 35.
    rows = []
    for i, c in enumerate(cs):
        kw = c[3]
        q = (c[2][0] if c[2] else kw['mod_q']).to(ku).magnitude
        mid = q0 + (q1 - q0) * ((i + .5) / m)
        ctx.eq('|q|', q, mid, tol=1e-6, scale_tol=1e-9)
        n = kw['npts']
        if density:
            a = dens * mid * mid
            ctx.true('at most', a > n - 1 - 1e-6 if n > 5 else n == 5)
            ctx.true('at least', a < n + 1e-6 if n < 8 else n == 8)
        else:
            ctx.true('points', n == 77, f'{n}')
        ctx.true('sampling', kw['sampling'] == 'spherical-polar-improved'
                 and kw['jitter'] is jitter)
        edges(ctx, T, kw['energy_bins'], '', 2, given.get('e_min'), hi, unit,
              headroom=1.2)
        r = c[4].y_data.to('1/meV').magnitude
        if weighting == 'coherent':
            ctx.true('no Debye-Waller factor', kw.get('dw') is None
                     and kw.get('temperature') is None)
        elif name == 'sphere pdos':
            ctx.true('weighting', kw.get('weighting') == (
                None if weighting == 'dos' else weighting[:-4]))
            r = r[len(types) - 1] if pdos else [
                sum(r[j, b] for j in range(len(types))) for b in range(2)]
        rows.append([r[0], r[1]])
    z = out.z_data.to('1/meV').magnitude
    b = T.named('broaden')
    ctx.true('broadened once if at all', len(b) == int(bool(qb or eb)))
    want = rows
    if b:
        kw = b[0][3]
        ctx.eq('before broadening', b[0][1].z_data.to('1/meV').magnitude, rows)
        ctx.true('shape', kw.get('shape') == 'gauss')
        xw, yw = kw.get('x_width'), kw.get('y_width')
        if qb > 1:
            v = ctx.real('somewhere', 0., 4.)
            w = xw(ureg.Quantity(ctx.arr([v]), ku))
            g = given['q_broadening']
            ctx.eq('q width', w.to(ku).magnitude, [g[0] + g[1] * v])
        elif qb:
            ctx.eq('q width', xw.to(ku).magnitude, given['q_broadening'][0])
        else:
            ctx.true('no q width', xw is None)
        if eb:
            width(ctx, yw, given['energy_broadening'], unit)
        else:
            ctx.true('no energy width', yw is None)
        want = [[v for v in r] for r in b[0][4].z_data.to('1/meV').magnitude]
    kc = T.named('kinematic')
    ctx.true('kinematic constraints', len(kc) == int(ei or ef))
    if ei or ef:
        kw = kc[0][3]
        ctx.true('incident energy', (kw.get('e_i') == ureg.Quantity(
            35., unit)) if ei else kw.get('e_i') is None)
        ctx.true('final energy', (kw.get('e_f') == ureg.Quantity(
            4.5, unit)) if ef else kw.get('e_f') is None)
        ctx.true('angles', list(kw.get('angle_range', [0., 180.])) == (
            [10.5, -100.] if angles else [0., 180.]), f'{kw}')
    ctx.eq('map', z, [[v * given['scale'] for v in r] for r in want])


@harness('C27', functions=FN, bounds='dispersion, intensity map and DOS of '
         'phonons from a file: 4 q-points, 3 symbolic frequencies each, '
         'symbolic break tolerance; energy unit any of four', cases=[
             dict(tool=t, opts=o, unit=u) for t, o, u in (
                 ('dispersion', [], 'meV'), ('dispersion', [], '1/cm'),
                 ('dispersion', ['--reorder'], 'THz'),
                 ('intensity_map', ['-w', 'dos'], 'meV'),
                 ('intensity_map', ['-w', 'coherent'], 'THz'),
                 ('intensity_map', ['-w', 'dos'], '1/cm'),
                 ('dos', [], 'meV'), ('dos', ['--pdos'], 'eV'),
                 ('dos', ['-w', 'coherent-dos'], '1/cm'))], traces=1)
def precomputed(ctx, tool, opts, unit):
    """phonons from a file are used as they are, in the requested unit"""
    from euphonic import QpointFrequencies, QpointPhononModes, ureg
    given = {}
    if tool != 'dos':
        given['btol'] = ctx.real('btol', 1., 20.)
    d = modes_dict(['Na'], nq=4)
    d['qpts'] = [[0., 0., 0.], [.25, 0, 0], [.5, 0, 0], [.5, .25, 0]]
    ebins = [] if tool == 'dispersion' else ['--ebins', '2']
    T = Tool(ctx, tool, d, ebins + opts + ['--energy-unit', unit], given=given)
    fr = [[2. + .1 * i + j for j in range(3)] for i in range(4)]
    fr[1][0] = ctx.real('flo', -2., 1.5)
    fr[2][2] = ctx.real('fhi', 20., 30.)
    loaded = []
    for cls in (QpointFrequencies, QpointPhononModes):
        old = vars(cls).get('from_json_file')
        if old is None:
            continue

        def load(c, *a, old=old, **k):
            m = old.__func__(c, *a, **k)
            m.frequencies = ureg.Quantity(ctx.arr(fr), 'meV')
            loaded.append(m)
            return m
        T.put(cls, 'from_json_file', classmethod(load))
    out = T.go()
    ctx.true('nothing is interpolated', not [
        c for c in T.calls if c[0].startswith('modes')])
    k = U[unit]
    if tool != 'dos':
        s = T.one('split')
        ctx.true('no fixed breaks', s[3].get('indices') is None
                 and not s[2])
        ctx.eq('tolerance of breaks', s[3]['btol'], given['btol'])
        ctx.true('labels', [(int(i), str(l)) for i, l in out.x_tick_labels][0]
                 == (0, r'$\Gamma$'), f'{out.x_tick_labels}')
    if tool == 'dispersion':
        rev = '--reorder' in opts
        ctx.true('reordering', len(T.named('reorder')) == int(rev))
        ctx.eq('bands', out.y_data.to(unit).magnitude, [
            [fr[i][j] * k for i in range(4)]
            for j in ((2, 1, 0) if rev else (0, 1, 2))], tol=1e-6)
        return
    if tool == 'intensity_map':
        c = T.one('sqw' if 'coherent' in opts else 'dos map')
    else:
        c = T.one('dos' if not opts else 'pdos')
    b = c[2][0] if c[2] else [v for v in c[3].values()
                              if hasattr(v, 'units')][0]
    T.lo, T.hi = fr[1][0], fr[2][2]
    edges(ctx, T, b, '', 2, None, None, unit)
    y = c[4].z_data if tool == 'intensity_map' else c[4].y_data
    o = out.z_data if tool == 'intensity_map' else out.y_data
    y = y.to(o.units).magnitude
    if tool == 'dos' and opts == ['--pdos']:
        ctx.eq('spectrum', o.magnitude, [[v for v in y[0]]] * 2)
    elif tool == 'dos' and opts:
        ctx.eq('spectrum', o.magnitude, [v for v in y[0]])
    else:
        ctx.eq('spectrum', o.magnitude, y)


# -- files -------------------------------------------------------------------
@harness('C27', functions=FN, bounds='every supported extension and kind of '
         'file', cases=[dict(f=f, only=o) for f in (
             'a.phonon', 'a.castep_bin', 'a.check', 'a.json:fc', 'a.json:modes',
             'a.json:freq', 'a.json:other', 'a.txt', 'mesh.yaml', 'band.hdf5',
             'mesh.yaml:freq', 'phonopy.yaml', 'phonopy.yaml+fc.hdf5',
             'phonopy.yaml+BORN', 'force_constants.hdf5',
             'force_constants.hdf5+BORN',
             'force_constants.hdf5:alone') for o in (False, True)], traces=0)
def loading(ctx, f, only):
    """which reader is used with which arguments"""
    from euphonic import ForceConstants, QpointFrequencies, QpointPhononModes
    from euphonic.cli import utils
    name, _, kind = f.partition(':')
    name, _, extra = name.partition('+')
    log, undo = [], []

    def stub(cls, how):
        def g(*a, **k):
            log.append((cls, how, a, k))
            if how == 'from_phonopy':
                if cls is not ForceConstants:
                    if name.startswith(('phonopy', 'force')):
                        raise KeyError('phonon')
                    if kind == 'freq' and cls is QpointPhononModes:
                        raise RuntimeError('no eigenvectors')
            return cls.__name__
        undo.append((cls, how, vars(cls).get(how)))
        setattr(cls, how, staticmethod(g))
    tmp = tempfile.mkdtemp()
    made = []

    def touch(n, data=''):
        with open(os.path.join(tmp, n), 'w') as fd:
            fd.write(data)
        made.append(n)
    d = {'fc': fc_dict(['Na']), 'modes': modes_dict(['Na']),
         'freq': modes_dict(['Na'], eig=False), 'other': {'a': 1}}.get(kind, {})
    touch(name, json.dumps(d))
    if extra == 'fc.hdf5':
        touch('force_constants.hdf5')
    elif extra == 'BORN':
        touch('BORN')
    if name == 'force_constants.hdf5' and kind != 'alone':
        touch('phonopy.yaml')
    path = os.path.join(tmp, name)

    def run():
        with contextlib.redirect_stdout(io.StringIO()), quiet():
            return utils.load_data_from_file(path, frequencies_only=only)
    try:
        for c in (ForceConstants, QpointFrequencies, QpointPhononModes):
            for h in ('from_castep', 'from_phonopy', 'from_json_file'):
                stub(c, h)
        if name == 'a.txt' or kind in ('other', 'alone'):
            ctx.expect_raise('not recognised', ValueError, run)
            return
        r = run()
    finally:
        for c, h, o in undo:
            setattr(c, h, o) if o is not None else delattr(c, h)
        for n in made:
            os.remove(os.path.join(tmp, n))
        os.rmdir(tmp)
    want = {'a.phonon': 'QpointFrequencies' if only else 'QpointPhononModes',
            'a.castep_bin': 'ForceConstants', 'a.check': 'ForceConstants'}
    if name in want:
        want = want[name]
    elif name.startswith(('phonopy', 'force')) or kind == 'fc':
        want = 'ForceConstants'
    else:
        want = 'QpointFrequencies' if only or kind == 'freq' else \
            'QpointPhononModes'
    ctx.true('kind of data', r == want, f'{r} for {want}')
    cls, how, a, k = log[-1]
    if how != 'from_phonopy':
        ctx.true('file', str(a[0] if a else list(k.values())[0]) == path)
        return
    ctx.true('folder', str(k['path']) == tmp)
    if want != 'ForceConstants':
        ctx.true('file', k['phonon_name'] == name)
    else:
        ctx.true('summary', k['summary_name'] == 'phonopy.yaml')
        ctx.true('force constants', k['fc_name'] == (
            'force_constants.hdf5' if 'fc.hdf5' in extra or
            name.startswith('force') else 'FORCE_CONSTANTS'))
        ctx.true('Born charges', k.get('born_name') == (
            'BORN' if extra == 'BORN' else None))


@harness('C27', functions=FN, bounds='every tool on data without what it needs',
         cases=[dict(tool=t, data=d, opts=o) for t, d, o in (
             ('dos', 'modes', ['--adaptive']), ('dos', 'freq', ['--pdos']),
             ('dos', 'freq', ['-w', 'coherent-dos']),
             ('dispersion', 'freq', ['--reorder']),
             ('intensity_map', 'freq', ['-w', 'coherent']),
             ('intensity_map', 'modes', ['-w', 'coherent', '--temperature',
                                         '5']),
             ('powder_map', 'modes', []))], traces=0)
def refused(ctx, tool, data, opts):
    d = modes_dict(['Na'], eig=data == 'modes')
    T = Tool(ctx, tool, d, opts)
    ctx.expect_raise('refused', TypeError, T.go)


@harness('C27', functions=FN, bounds='dipole parameter search: any minimum and '
         'step, 1-4 values; measured times symbolic and different', cases=[
             dict(n=n, loops=l) for n, l in ((1, 1), (2, 3), (3, 2), (4, 1))],
         traces=1)
def optimise_dipole(ctx, n, loops):
    """every value from minimum to maximum; the fastest is returned"""
    import euphonic.cli.optimise_dipole_parameter as mod
    from euphonic import ForceConstants
    lo = ctx.real('lo', .1, 1.)
    step = ctx.real('step', .1, .5)
    T = Tool(ctx, 'dos', fc_dict(['Na']), [])
    t = {}
    now = [0.]
    dur = [ctx.real(f't{i}', .1, 9.) for i in range(2 * n)]
    cnt = [0]

    def modes(fc, qpts, **k):
        T.calls.append((qpts, k))
        now[0] = now[0] + dur[cnt[0]]
        cnt[0] += 1
    tmp = tempfile.mkdtemp()
    fn = os.path.join(tmp, 'a.json')
    with open(fn, 'w') as f:
        json.dump(fc_dict(['Na']), f)
    T.put(ForceConstants, 'calculate_qpoint_phonon_modes', modes)
    clock = lambda: now[0]
    if hasattr(mod, 'time') and not callable(mod.time):
        T.put(mod, 'time', types.SimpleNamespace(
            time=clock, perf_counter=clock, monotonic=clock))
    for nm in ('time', 'perf_counter', 'monotonic'):
        if callable(getattr(mod, nm, None)):
            T.put(mod, nm, clock)
    try:
        with quiet(), contextlib.redirect_stdout(io.StringIO()):
            r = mod.calculate_optimum_dipole_parameter(
                fn, dipole_parameter_min=lo, dipole_parameter_max=lo
                + step * (n - 1), dipole_parameter_step=step, n=loops,
                asr='reciprocal')
    finally:
        for obj, nm, had, old in reversed(T.undo):
            setattr(obj, nm, old)
        os.remove(fn)
        os.rmdir(tmp)
    ctx.true('calculations', len(T.calls) == 2 * n)
    vals = [lo + step * i for i in range(n)]
    for i in range(n):
        (q1, k1), (q2, k2) = T.calls[2 * i:2 * i + 2]
        ctx.true('q-points', np.shape(q1) == (1, 3)
                 and np.shape(q2) == (loops, 3))
        ctx.eq('parameter', [k1['dipole_parameter'], k2['dipole_parameter']],
               [vals[i]] * 2, tol=1e-6)
        ctx.true('options', k1.get('asr') == k2.get('asr') == 'reciprocal'
                 and k2.get('reduce_qpts') is False)
    opt, ti, tq, ps, tis, tqs = r
    ctx.eq('values', ps, vals, tol=1e-6)
    ctx.eq('initialisation', tis, [dur[2 * i] for i in range(n)])
    ctx.eq('time per q-point', tqs, [dur[2 * i + 1] / loops for i in range(n)])
    best = 0
    for i in range(1, n):
        if bool(dur[2 * i + 1] < dur[2 * best + 1]):
            best = i
    ctx.eq('optimum', [opt, ti, tq], [vals[best], dur[2 * best],
                                      dur[2 * best + 1] / loops], tol=1e-6)


SHOW = {'golden-square': ('golden_square', 'n'),
        'regular-square': ('regular_square', 'rr'),
        'golden-sphere': ('golden_sphere', 'n'),
        'recurrence-square': ('recurrence_sequence', 2),
        'recurrence-cube': ('recurrence_sequence', 3),
        'spherical-polar-grid': ('spherical_polar_grid', 'tt'),
        'sphere-from-square-grid': ('sphere_from_square_grid', 'tt'),
        'spherical-polar-improved': ('spherical_polar_improved', 'n'),
        'random-sphere': ('random_sphere', 'n')}


@harness('C27', functions=FN, bounds='euphonic-show-sampling: every sampling, '
         'jitter or not, 13 numbers of points in 1-33; points symbolic',
         cases=[dict(how=h, jitter=j) for h in SHOW for j in (False, True)],
         traces=0, opts={'max_paths': 100})
def show_sampling(ctx, how, jitter):
    """the points shown are those of the sampling asked for, at least as many
    as requested, with the smallest grid that has them"""
    import argparse
    import importlib
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from matplotlib.axes import Axes
    from mpl_toolkits.mplot3d import Axes3D
    from euphonic import sampling
    mod = importlib.import_module('euphonic.cli.show_sampling')
    dim = 2 if how.endswith('-square') else 3
    n = ctx.choice('npts', [1, 2, 3, 4, 5, 8, 9, 16, 17, 18, 19, 32, 33])
    pts = [tuple(ctx.real(f'p{i}{j}', -1., 1.) for j in range(dim))
           for i in range(3)]
    T = Tool(ctx, 'show', {}, [])
    for f in set(f for f, _ in SHOW.values()):
        def g(*a, f=f, **k):
            T.calls.append((f, a, k))
            return iter(pts)
        T.put(sampling, f, g)
    shown = []
    for c in (Axes, Axes3D):
        T.put(c, 'scatter', lambda ax, *a, **k: shown.append(a))
    T.put(mod, 'matplotlib_save_or_show', lambda **k: None)
    try:
        with quiet(), contextlib.redirect_stdout(io.StringIO()):
            mod.main([str(n), how] + (['--jitter'] if jitter else []))
    finally:
        for obj, nm, had, old in reversed(T.undo):
            setattr(obj, nm, old) if had else delattr(obj, nm)
        plt.close('all')
    f, kind = SHOW[how]
    ctx.true('one sampling', len(T.calls) == 1 and T.calls[0][0] == f,
             f'{T.calls}')
    _, a, k = T.calls[0]
    if kind == 'n':
        ctx.true('points', a[0] == n)
    elif kind == 'rr':
        r = next(r for r in range(1, 50) if r * r >= n)
        ctx.true('grid', tuple(a) == (r, r), f'{a}')
    elif kind == 'tt':
        r = next(r for r in range(1, 50) if 2 * r * r >= n)
        ctx.true('grid', tuple(a) == (2 * r, r), f'{a}')
    else:
        ctx.true('points', a[0] == n and (
            a[1:] == (kind,) or k.get('order') == kind))
    if how not in ('recurrence-square', 'recurrence-cube', 'random-sphere'):
        ctx.true('jitter', bool(k.get('jitter', False)) is jitter)
    got = [[c[i] for c in shown[0]] for i in range(3)]
    ctx.true('shown once', len(shown) == 1 and len(shown[0]) == dim)
    ctx.eq('points shown', got, [list(p) for p in pts])


def effective(styles):
    """the settings that a list of styles gives"""
    import matplotlib as mp
    import matplotlib.style as ms
    out = {}
    for s in styles:
        if isinstance(s, dict):
            out.update(s)
        elif str(s) in ms.library:
            out.update(ms.library[str(s)])
        else:
            with quiet():
                out.update(mp.rc_params_from_file(
                    str(s), use_default_template=False))
    return out


INCH = {'cm': 1 / 2.54, 'mm': 1 / 25.4, 'inch': 1., 'm': 1 / .0254}
DRAWN = [dict(tool=t, opts=o, base=b, style=s, labels=l, fu=u) for
         t, o, b, s, l, u in (
    ('dos', '', 1, (), 0, 'cm'),
    ('dos', 'size font width', 1, (), 1, 'cm'),
    ('dos', 'size', 0, ('ggplot',), 2, 'mm'),
    ('dos', 'width', 0, (), 1, 'cm'),
    ('dispersion', '', 1, ('ggplot', 'grayscale'), 0, 'cm'),
    ('dispersion', 'size width family range', 1, ('bmh',), 1, 'inch'),
    ('dispersion', 'min', 1, (), 2, 'inch'),
    ('intensity_map', '', 1, (), 0, 'cm'),
    ('intensity_map', 'size font family map range', 1, ('bmh',), 1, 'm'),
    ('intensity_map', 'min', 0, (), 2, 'cm'),
    ('powder_map', '', 1, (), 0, 'cm'),
    ('powder_map', 'font map range', 1, ('ggplot',), 1, 'cm'),
    ('powder_map', 'widgets min size', 1, (), 2, 'cm'),
    ('powder_map', 'widgets max', 0, ('bmh', 'ggplot'), 0, 'cm'))]


@harness('C27', functions=FN + ['cli.utils._compose_style',
                                'cli.utils._plot_label_kwargs'],
         bounds='four tools, fourteen sets of options for labels, '
         'styles, figure and font sizes, line widths, colour maps and limits; '
         'every number symbolic', cases=DRAWN, traces=1)
def drawn(ctx, tool, opts, base, style, labels, fu):
    """the plot gets the labels, the limits and the style that are asked for"""
    import euphonic.styles as es
    o = opts.split()
    p, given, want = [], {}, {}
    if tool == 'dos':
        p += ['--grid', '1', '1', '2', '--ebins', '2']
    elif tool == 'powder_map':
        p += ['--q-spacing', '1.', '--q-max', '1.', '--ebins', '2'] + (
            [] if 'widgets' in o else ['--no-widgets'])
    else:
        p += ['--q-spacing', '1.2'] + (
            ['--ebins', '2'] if tool == 'intensity_map' else [])
    dim = 2 if tool.endswith('map') else 1
    name = 'plot_1d' if dim == 1 else 'plot_2d'
    if style:
        p += ['--style'] + list(style)
    if not base:
        p += ['--no-base-style']
    lab = {'title': '', 'xlabel': '', 'ylabel': ''}
    if tool == 'dos':
        lab['xlabel'] = 'Energy / meV'
    else:
        lab['ylabel'] = 'Energy / meV'
    if tool == 'powder_map':
        lab['xlabel'] = '|q| / 1/\u00c5'
    if labels == 1:
        lab = {'title': 'a title', 'xlabel': 'along x', 'ylabel': 'up y'}
        p += ['--title', 'a title', '--x-label', 'along x', '--y-label',
              'up y']
    elif labels == 2:
        p += ['--xlabel', '']
        lab['xlabel'] = ''
        if tool == 'dos':
            p += ['--ylabel', 'count']
            lab['ylabel'] = 'count'
    num = {}
    if 'size' in o:
        a = given['figsize'] = [ctx.real('w', .5, 30.), ctx.real('h', .5, 30.)]
        p += ['--fig-size', '9.', '7.']
        if fu != 'cm':
            p += ['--fig-size-unit', fu]
        num['figure.figsize'] = [x * INCH[fu] for x in a]
    if 'font' in o:
        num['font.size'] = given['fontsize'] = ctx.real('fs', 4., 30.)
        p += ['--font-size', '11.']
    if 'width' in o:
        num['lines.linewidth'] = given['linewidth'] = ctx.real('lw', .1, 5.)
        p += ['--line-width', '3.']
    if 'family' in o:
        p += ['--font', 'DejaVu Sans']
    if 'map' in o:
        p += ['--c-map', 'bone']
    lim = {}
    n0, n1 = ('vmin', 'vmax') if dim == 2 else ('e_min', 'e_max')
    k0, k1 = ('vmin', 'vmax') if dim == 2 else ('ymin', 'ymax')
    if 'range' in o or 'min' in o:
        lim[k0] = given[n0] = ctx.real('low', -3., 1.)
        p += ['--v-min=-1.' if dim == 2 else '--e-min=-1.']
    if 'range' in o or 'max' in o:
        lim[k1] = given[n1] = ctx.real('high', -1., 9.) if dim == 2 else \
            ctx.real('high', 2., 9.)
        p += ['--v-max' if dim == 2 else '--e-max', '5.']
    if tool == 'dos':
        lim = {'ymin': 0}
    T = Tool(ctx, tool, fc_dict(['Na']), p, given=given)
    T.go()
    c = T.one('plotted')
    b = dict(T.signature[name].bind(c[1], *c[2], **c[3]).arguments)
    for k, v in lab.items():
        ctx.true(k, (b.get(k) or '') == v, f'{b.get(k)!r}')
    for k in (k0, k1):
        if k in lim:
            ctx.true(f'{k} given', b.get(k) is not None)
            ctx.eq(k, b[k], lim[k])
        else:
            ctx.true(f'{k} not given', b.get(k) is None, f'{b.get(k)}')
    must = []
    if base:
        must.append(es.base_style)
        if 'widgets' in o:
            must.append(es.intensity_widget_style)
    must += list(style)
    must = effective(must)
    if 'family' in o:
        must['font.sans-serif'] = 'DejaVu Sans'
        must['font.family'] = 'sans-serif'
    if 'map' in o:
        must['image.cmap'] = 'bone'
    got = effective(T.styles)
    one = lambda v: list(v) if isinstance(v, (list, tuple)) else [v]
    ctx.true('what the style sets', set(got) == set(must) | set(num),
             f'{sorted(set(got) ^ (set(must) | set(num)))}')
    for k in sorted(got):
        if k in num:
            ctx.eq(k, ctx.arr(one(got[k])), ctx.arr(one(num[k])))
        else:
            ctx.true(k, one(got[k]) == one(must[k]),
                     f'{got[k]} and not {must[k]}')


@harness('C27', functions=FN + ['cli.utils._brille_calc_modes_kwargs'],
         bounds='euphonic-powder-map with and without --use-brille: three '
         'weightings, three kinds of grid, numbers of points, densities and '
         'threads given or not; dipole parameter and temperature symbolic; a '
         'stand-in for Brille', cases=[
             dict(w='dos', kind=None, npts=None, dens=None, th=None, opts=1),
             dict(w='dos', kind='mesh', npts=70, dens=None, th=1, opts=0),
             dict(w='dos', kind='nest', npts=None, dens=200, th=4, opts=1),
             dict(w='coherent-dos', kind='trellis', npts=None, dens=None,
                  th=2, opts=2),
             dict(w='coherent', kind='nest', npts=40, dens=50, th=None,
                  opts=2),
             dict(w='coherent', kind='mesh', npts=None, dens=None, th=3,
                  opts=1),
             dict(w='coherent', kind='off', npts=40, dens=None, th=3,
                  opts=1)], traces=1)
def powder_brille(ctx, w, kind, npts, dens, th, opts):
    import sys
    import types as tp
    from euphonic import QpointFrequencies, QpointPhononModes
    p, want = [list(OPT[opts][0]), dict(OPT[opts][1])]
    p += ['--q-spacing', '1.', '--q-max', '2.', '--no-widgets', '--ebins', '2',
          '-w', w]
    given = {}
    p += ['--dipole-parameter', '1.5']
    want['dipole_parameter'] = given['dipole_parameter'] = ctx.real(
        'dip', .1, 3.)
    if kind != 'off':
        p += ['--use-brille']
        if kind:
            p += ['--brille-grid-type', kind]
    if npts:
        p += ['--brille-npts', str(npts)]
    if dens:
        p += ['--brille-npts-density', str(dens)]
    if th:
        p += ['--n-threads', str(th)]
        want['n_threads'] = th
    if w == 'coherent':
        p += ['--temperature', '10', '--grid', '1', '1', '2']
        given['temperature'] = ctx.real('temp', 1., 400.)
    T = Tool(ctx, 'powder_map', fc_dict(['Na']), p, given=given)
    made = []

    class BrilleInterpolator:
        @classmethod
        def from_force_constants(cls, force_constants, grid_type='trellis',
                                 grid_npts=1000, grid_density=None,
                                 grid_kwargs=None, interpolation_kwargs=None):
            o = cls()
            o.crystal = force_constants.crystal
            made.append((o, force_constants, grid_type, grid_npts,
                         grid_density, grid_kwargs, interpolation_kwargs))
            return o
    BrilleInterpolator.calculate_qpoint_frequencies = T.modes(
        QpointFrequencies)
    BrilleInterpolator.calculate_qpoint_phonon_modes = T.modes(
        QpointPhononModes)
    mod = tp.ModuleType('euphonic.brille')
    mod.BrilleInterpolator = BrilleInterpolator
    saved = sys.modules.get('euphonic.brille')
    sys.modules['euphonic.brille'] = mod
    try:
        T.go()
    finally:
        if saved is None:
            del sys.modules['euphonic.brille']
        else:
            sys.modules['euphonic.brille'] = saved
    spheres = [c for c in T.calls if c[0].startswith('sphere')]
    modes = [c for c in T.calls if c[0].startswith('modes')]
    ctx.true('two spheres', len(spheres) == 2)
    ctx.true('range of energies' + (', Debye-Waller' if w == 'coherent' else
                                    ''), len(modes) == 1 + (w == 'coherent'))
    users = [(c[1], c[4]) for c in modes] + [(c[1], c[3]) for c in spheres]

    def asked(k, what):
        for n in ('asr', 'use_c', 'n_threads'):
            ctx.true(f'{n} {what}', k.get(n) == want.get(n), f'{k.get(n)}')
        ctx.eq(f'dipole parameter {what}', k.get('dipole_parameter', 1.),
               want['dipole_parameter'])
    if kind == 'off':
        ctx.true('no interpolation', not made)
        for o, k in users:
            asked(k, 'of the calculations')
        return
    ctx.true('one grid', len(made) == 1)
    o, fc, g, gn, gd, gk, ik = made[0]
    ctx.true('kind of grid', g == (kind or 'trellis'))
    ctx.true('density', gd == dens)
    if dens is None:
        ctx.true('points', gn == (npts or 5000))
    asked(ik or {}, 'of the grid')
    for u, k in users:
        ctx.true('all from the grid', u is o)
        ctx.true('nothing else', not set(k) & {'asr', 'use_c',
                                               'dipole_parameter'})
        n = k.get('threads')
        ctx.true('threads', n == th if th else n is None, f'{n}')
        if th:
            ctx.true('in parallel', bool(k.get('useparallel')) == (th > 1))
        else:
            ctx.true('in parallel by default', 'useparallel' not in k)
