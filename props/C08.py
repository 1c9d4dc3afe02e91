"""C08: results depend on the current attributes only, not on the history"""
import itertools
import warnings
import numpy as np
from vf.harness import harness
from .common import *
from .C04 import EPSS
from .C06 import modal, KnownEigh

FN = ['ForceConstants._calculate_phonons_at_qpts (cached images, Ewald data, '
      'sum-rule force constants)', 'ForceConstants.force_constants/born/dielectric '
      'setters', 'ForceConstants.__setattr__',
      'ForceConstants.calculate_qpoint_phonon_modes',
      'ForceConstants.calculate_qpoint_frequencies']

CALCS = {
    'plain': dict(dipole=False),
    'rasr': dict(dipole=False, asr='realspace'),
    'qasr': dict(dipole=False, asr='reciprocal'),
    'dip': dict(dipole=True),
    'dip2': dict(dipole=True, dipole_parameter=0.6, splitting=False),
    'diprasr': dict(dipole=True, asr='realspace', splitting=False),
    'freq': dict(dipole=True, splitting=False, freq=True),
}
SETS = ('fc', 'born', 'eps', 'units')


def seqs(tier_long):
    """histories before the final calculation"""
    out = []
    calcs = ['plain', 'rasr', 'qasr', 'dip', 'dip2', 'freq']
    for c in calcs:
        for s in SETS:
            out.append((c, s))
    for c, d in itertools.permutations(['plain', 'rasr', 'qasr', 'dip', 'dip2'], 2):
        out.append((c, d))
    out += [('diprasr', 'fc', 'born'), ('dip', 'eps', 'dip2'),
            ('fc', 'rasr', 'units'), ('dip2', 'born', 'dip2', 'eps'),
            ('rasr', 'fc', 'rasr'), ('fc', 'born', 'eps')]
    if tier_long:
        for c, s, d, t in itertools.product(['rasr', 'qasr', 'dip', 'dip2'],
                                            SETS[:3], ['diprasr', 'dip2'],
                                            SETS[:3]):
            out.append((c, s, d, t))
    return out


def run(ctx, obj, name, Q):
    kw = dict(CALCS[name])
    freq = kw.pop('freq', False)
    f = obj.calculate_qpoint_frequencies if freq else \
        obj.calculate_qpoint_phonon_modes
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f(Q, use_c=False, **kw)


def build(ctx, geo, fc, born, eps):
    return make_fc(ctx, geo, mass=ctx.const([23., 35.5]), fc=fc, born=born,
                   dielectric=eps)[0]


@harness('C08', functions=FN, opts={'abs_mode': 'atom', 'max_mode': 'atom'},
         bounds='every sequence of one calculation and one assignment, every '
         'ordered pair of different calculations, and 6 longer histories '
         '(thorough: 4-step histories), each before a final calculation (without '
         'corrections, with dipole + real-space rule, with dipole + another '
         'Ewald parameter); two atoms, 1 cell; force constants with every '
         'eigenvalue in [-1,1], every Born charge in [-3,3]',
         cases=[dict(final=f, part=p, long=False) for f in
                ('plain', 'diprasr', 'dip2') for p in range(4)],
         thorough_cases=[dict(final=f, part=p, long=True) for f in
                         ('diprasr', 'dip2', 'dip') for p in range(4)],
         traces=1)
def history(ctx, final, part, long):
    from euphonic import ureg
    geo = GEOM['tri2u']
    A = modal(Pre(ctx, 'a'), geo, .05)
    B = modal(Pre(ctx, 'b'), geo, .0)
    fcs = {'a': A[0](A[1]), 'b': B[0](B[1])}
    born = {k: ctx.reals('z' + k, (2, 3, 3), -3., 3.) for k in 'ab'}
    eps = {'a': ctx.const(EPSS['full']), 'b': ctx.const(EPSS['diag'])}
    cur = dict(fc='a', born='a', eps='a', units=False)
    obj = build(ctx, geo, fcs['a'], born['a'], eps['a'])
    S = seqs(long)
    h = ctx.choice('history', S[part::4])
    Q = ctx.const([[0., 0., 0.], [0.13, -0.27, 0.41]])
    with KnownEigh(ctx, A[2] + B[2]):
        for op in h:
            if op == 'fc':
                cur['fc'] = 'b'
                obj.force_constants = fcs['b'] * ureg('hartree/bohr**2')
            elif op == 'born':
                cur['born'] = 'b'
                obj.born = born['b'] * ureg('e')
            elif op == 'eps':
                cur['eps'] = 'b'
                obj.dielectric = eps['b'] * ureg('e**2/(bohr*hartree)')
            elif op == 'units':
                cur['units'] = True
                obj.force_constants_unit = 'eV/angstrom**2'
                obj.born_unit = 'coulomb'
                obj.dielectric_unit = 'e**2/(angstrom*eV)'
            else:
                run(ctx, obj, op, Q)
        got = run(ctx, obj, final, Q)
        new = build(ctx, geo, fcs[cur['fc']], born[cur['born']],
                    eps[cur['eps']])
        want = run(ctx, new, final, Q)
        again = run(ctx, obj, final, Q)
    for k in range(2):
        w = echo_matrix(ctx, want, k)
        ctx.eq(f'{"+".join(h)}: matrix {k}', echo_matrix(ctx, got, k), w)
        ctx.eq(f'{"+".join(h)}: matrix {k} again', echo_matrix(ctx, again, k), w)
    ctx.eq('force constants', obj.force_constants.to('hartree/bohr**2').magnitude,
           fcs[cur['fc']])
    ctx.eq('born', obj.born.to('e').magnitude, born[cur['born']])
    ctx.eq('dielectric', obj.dielectric.to('e**2/(bohr*hartree)').magnitude,
           eps[cur['eps']])
    ctx.eq('q-points', Q, [[0., 0., 0.], [0.13, -0.27, 0.41]])
    ctx.eq('cell', obj.crystal.cell_vectors.to('angstrom').magnitude, geo['cell'])
    ctx.eq('atom_r', obj.crystal.atom_r, geo['r'])
    ctx.true('units kept', (obj.force_constants_unit == 'eV/angstrom**2'
                            or obj.force_constants.units == ureg('eV/angstrom**2'))
             == (cur['units'] and not (
                 'fc' in h and h.index('fc') > h.index('units'))))


class Pre:
    """context with prefixed input names"""

    def __init__(self, ctx, p):
        self._c, self._p = ctx, p

    def real(self, name, lo, hi):
        return self._c.real(self._p + name, lo, hi)

    def __getattr__(self, n):
        return getattr(self._c, n)
