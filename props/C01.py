"""C01: interpolated dynamical matrix is the Fourier sum over images"""
import numpy as np
from vf.harness import harness
from .common import *

FN = ['ForceConstants._calculate_phonons_at_qpts',
      'ForceConstants._calculate_phonons_at_q',
      'ForceConstants._calculate_dyn_mat', 'ForceConstants._calculate_phases',
      'ForceConstants._calculate_supercell_images',
      'ForceConstants.calculate_qpoint_phonon_modes',
      'ForceConstants.calculate_qpoint_frequencies',
      'ForceConstants.__init__', 'Crystal.__init__']


def check_q(ctx, obj, call, D, w, v, q, fc, cells, ims, m_au, sgn, tag=''):
    n = obj.crystal.n_atoms
    ref = dyn_mat_ref(ctx, fc, q, cells, ims, n, m_au)
    ctx.eq(tag + 'dynamical matrix', D, ref)


def freqs_of(w, sgn):
    fr = [root(x) if sgn(i) > 0 else root(-x) * -1 for i, x in enumerate(w)]
    return [conv(x, 'hartree', 'meV') for x in fr]


def evecs_of(ctx, v, n):
    return ctx.arr([[[v[3 * a + x, k] for x in range(3)]
                     for a in range(n)] for k in range(3 * n)])


@harness('C01', functions=FN, bounds='1-5 atoms, up to 12 cells in '
         'the supercell (one atom: 130), lattices/supercell matrices of the cases, every fc in '
         '[-1,1], every q in [-2,2]^3, masses in [1,250]',
         cases=[{'g': g} for g in ('sc1', 'tri2', 'fcc2', 'hex2', 'tri2perm',
                                   'neg2', 'big5', 'big4', 'chain17',
                                   'chain130')],
         thorough_cases=[{'g': g} for g in ('tri3', 'nondiag2', 'tri2_3')])
def dynmat(ctx, g):
    obj, fc, cells, ims, m_au = make_fc(ctx, g)
    n = obj.crystal.n_atoms
    q = ctx.reals('q', (1, 3), -2., 2.)
    sgn = lambda i: 1 if i % 2 else -1
    with EighStub(ctx, signs=lambda k, i: sgn(i)) as st:
        r = obj.calculate_qpoint_phonon_modes(q, use_c=False, reduce_qpts=False)
    D, w, v = st.calls[0]
    ref = dyn_mat_ref(ctx, fc, q[0], cells, ims, n, m_au)
    ctx.eq('dynamical matrix', D, ref)
    ctx.eq('frequencies', r.frequencies.to('meV').magnitude[0], freqs_of(w, sgn))
    ctx.true('frequency unit', str(r.frequencies.units) == 'millielectron_volt')
    ctx.eq('eigenvectors', r.eigenvectors[0], evecs_of(ctx, v, n))
    ctx.eq('qpts', r.qpts, q)


@harness('C01', functions=FN, bounds='one atom; every eigenvalue of either '
         'sign with magnitude in 1e-18..1e-15, 1e-12..1e-10, 1e-8..1e-6 Hartree, '
         'and zero', cases=[dict(m=-18), dict(m=-12), dict(m=-8)])
def small_eigenvalues(ctx, m):
    obj = make_fc(ctx, 'sc1')[0]
    sgn = [lambda i: 1 if i % 2 else -1, lambda i: -1, lambda i: 1][
        ctx.choice('signs', [0, 1, 2])]
    mag = (10. ** m, 10. ** (m + (3 if m == -18 else 2)))
    call = ctx.choice('call', ['modes', 'frequencies'])
    with EighStub(ctx, signs=lambda k, i: sgn(i), mag=mag) as st:
        f = obj.calculate_qpoint_phonon_modes if call == 'modes' else \
            obj.calculate_qpoint_frequencies
        r = f(ctx.const([[.1, .2, .3]]), use_c=False, reduce_qpts=False)
    D, w, v = st.calls[0]
    k = 1e-3 / np.sqrt(mag[1])
    ctx.eq('frequencies', r.frequencies.to('meV').magnitude[0] * k,
           [x * k for x in freqs_of(w, sgn)])


@harness('C01', functions=FN, bounds='two atoms, 2x1x1; force constants and '
         'crystal given in other units, every fc value and q in [-2,2]^3; '
         'frequency-only entry point', cases=[
             {'u': 'eV/angstrom**2', 'cu': 'bohr', 'mu': 'kg'},
             {'u': 'mRy/bohr**2', 'cu': 'nm', 'mu': 'amu'},
             {'u': 'hartree/bohr**2', 'cu': 'angstrom', 'mu': 'electron_mass'}])
def units(ctx, u, cu, mu):
    from euphonic import ForceConstants, ureg
    obj, fc, cells, ims, m_au = make_fc(ctx, 'tri2', mass=ctx.const([23., 35.5]))
    cr = obj.crystal
    from euphonic import Crystal
    cr2 = Crystal(cr.cell_vectors.to(cu), cr.atom_r, cr.atom_type,
                  cr.atom_mass.to(mu))
    obj = ForceConstants(cr2, (fc * ureg('hartree/bohr**2')).to(u),
                         obj.sc_matrix, obj.cell_origins)
    ctx.eq('fc readback', obj.force_constants.to('hartree/bohr**2').magnitude,
           fc)
    ctx.true('fc unit kept', ureg(str(obj.force_constants.units)).units
             == ureg(u).units)
    q = ctx.reals('q', (1, 3), -2., 2.)
    sgn = lambda i: -1 if i == 1 else 1
    with EighStub(ctx, signs=lambda k, i: sgn(i)) as st:
        r = obj.calculate_qpoint_frequencies(q, use_c=False, reduce_qpts=False)
    D, w, v = st.calls[0]
    ctx.eq('dynamical matrix', D, dyn_mat_ref(ctx, fc, q[0], cells, ims, 2, m_au))
    ctx.eq('frequencies', r.frequencies.to('meV').magnitude[0], freqs_of(w, sgn))
    ctx.true('type', type(r).__name__ == 'QpointFrequencies')


@harness('C01', functions=FN, bounds='two atoms, 2x1x1; q-points in [-1.4,1.4] '
         'along one direction plus concrete ones, reduced to the first zone '
         'before the sum (reduce_qpts=True): each output row belongs to its '
         'q-point', cases=[{'ax': 0}, {'ax': 1}])
def reduced(ctx, ax):
    obj, fc, cells, ims, m_au = make_fc(ctx, 'tri2', mass=ctx.const([23., 35.5]))
    x = ctx.real('x', -1.4, 1.4)
    qs = [[0.3, -0.2, 0.1], [0.45, 0.1, -0.2]]
    q1 = [0.1, 0.2, -0.15]
    q1[ax] = x
    q = ctx.arr([qs[0], q1, qs[1], qs[0]])
    with EchoEigh(ctx) as st:
        r = obj.calculate_qpoint_phonon_modes(q, use_c=False, reduce_qpts=True)
    for k in range(4):
        ref = dyn_mat_ref(ctx, fc, q[k], cells, ims, 2, m_au)
        ctx.eq(f'dynamical matrix of row {k}', echo_matrix(ctx, r, k), ref)
    ctx.eq('qpts', r.qpts, q)
