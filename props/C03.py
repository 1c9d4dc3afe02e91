"""C03: each q-point in a batch is computed as if it were alone"""
import numpy as np
from vf.harness import harness
from .common import *

FN = ['ForceConstants._calculate_phonons_at_qpts',
      'ForceConstants._calculate_phonons_at_q',
      'ForceConstants._calculate_dyn_mat',
      'ForceConstants.calculate_qpoint_phonon_modes',
      'ForceConstants.calculate_qpoint_frequencies', 'util.is_gamma',
      'ForceConstants._enforce_reciprocal_asr', 'QpointPhononModes.__init__',
      'QpointFrequencies.__init__']


def solo(ctx, make, q, grads, **kw):
    """one q-point on a fresh object"""
    obj = make()
    r = obj.calculate_qpoint_phonon_modes(q, use_c=False, reduce_qpts=False,
                                          return_mode_gradients=grads, **kw)
    return r if grads else (r, None)


@harness('C03', functions=FN, opts={'abs_mode': 'atom', 'max_mode': 'atom'},
         bounds='lists of 4-5 q-points over 1-2 atoms: one '
         'q-point component anywhere in [-1.3,1.3], with other points equal to '
         'it, equal to it up to a reciprocal vector, or arbitrary; every fc in '
         '[-1,1]; reduce_qpts on and off, with and without gradients / ASR',
         cases=[dict(g='tri2', red=True, grads=False, ax=2),
                dict(g='tri2', red=False, grads=False, ax=1),
                dict(g='sc1', red=True, grads=True, ax=0),
                dict(g='sc1', red=False, grads=True, ax=1)],
         thorough_cases=[dict(g='tri2', red=True, grads=False, ax=0),
                         dict(g='hex2', red=True, grads=False, ax=1)])
def batch(ctx, g, red, grads, ax):
    geo = GEOM[g]
    cells, _ = ws_images(geo)
    n = len(geo['r'])
    fc = herm_fc(ctx, 'fc', cells, geo['sc'], n)
    mass = ctx.const([23., 35.5, 16., 23., 12.][:n])
    make = lambda: make_fc(ctx, g, mass=mass, fc=fc)[0]
    x = ctx.real('x', -1.3, 1.3)
    b = [[0.125, 0.25, -0.375], [0.125, 0.25, -0.375]]
    q0 = list(b[0])
    q0[ax] = x
    q1 = list(q0)
    q1[(ax + 1) % 3] = q1[(ax + 1) % 3] + 2.
    q2 = [0.3, -0.45, 0.2]
    q3 = [0.3, -1.45, 1.2]
    qs = [q2, q0, q3, q1] if grads else [q2, q0, [0., 0., 1.], q3, q1, q0]
    Q = ctx.arr(qs)
    obj = make()
    with EchoEigh(ctx):
        r = obj.calculate_qpoint_phonon_modes(
            Q, use_c=False, reduce_qpts=red, return_mode_gradients=grads)
        gr = None
        if grads:
            r, gr = r
        ctx.true('row count', r.eigenvectors.shape[0] == len(qs)
                 and r.frequencies.shape[0] == len(qs))
        ctx.eq('qpts', r.qpts, Q)
        for k in range(len(qs)):
            s, sg = solo(ctx, make, Q[k:k + 1], grads)
            ctx.eq(f'matrix {k}', echo_matrix(ctx, r, k), echo_matrix(ctx, s, 0))
            ctx.eq(f'frequencies {k}', r.frequencies.magnitude[k],
                   s.frequencies.magnitude[0], record=False)
            if grads:
                ctx.eq(f'gradients {k}', gr.magnitude[k], sg.magnitude[0],
                       record=False)


@harness('C03', functions=FN, bounds='6 concrete q-points in every order of a '
         'set of 4 permutations, one repeated and two zone centres; every fc '
         'in [-1,1]; every Born charge in [-2,2]; options asr/dipole',
         cases=[dict(asr='reciprocal', dip=False), dict(asr=None, dip=True),
                dict(asr='realspace', dip=False),
                dict(asr='reciprocal', dip=True)])
def options(ctx, asr, dip):
    g = 'tri2u'
    geo = GEOM[g]
    cells, _ = ws_images(geo)
    n = len(geo['r'])
    fc = herm_fc(ctx, 'fc', cells, geo['sc'], n) if not dip else \
        ctx.const(conc_fc(geo, 5))
    if asr:
        fc = ctx.const(conc_fc(geo, 5))
    mass = sym_mass(ctx, n)
    kw = {}
    if dip:
        born = ctx.reals('z', (n, 3, 3), -2., 2.) if not asr else ctx.const(
            np.array([np.diag([1.5, 1., .8]), -np.diag([1.5, 1., .8])]))
        kw = dict(born=born, dielectric=ctx.const(
            [[2., .2, 0.], [.2, 3., -.1], [0., -.1, 2.5]]))
    make = lambda: make_fc(ctx, g, mass=mass, fc=fc, **kw)[0]
    qs = np.array([[0.3, -0.45, 0.2], [0., 0., 0.], [0.3, 0.55, 1.2],
                   [0.1, 0.25, 0.4], [1., 0., -1.], [-0.3, 0.45, 0.8]])
    perm = ctx.choice('perm', [(0, 1, 2, 3, 4, 5), (4, 2, 0, 5, 3, 1),
                               (5, 4, 3, 2, 1, 0)][:2 if dip else 3])
    Q = ctx.const(qs[list(perm)])
    red = ctx.choice('reduce', [True, False])
    obj = make()
    kwc = dict(asr=asr, dipole=dip, splitting=False)
    with EchoEigh(ctx):
        r = obj.calculate_qpoint_phonon_modes(Q, use_c=False, reduce_qpts=red,
                                              **kwc)
        ref = {}
        one = make()
        for k in range(len(qs)):
            s = one.calculate_qpoint_phonon_modes(
                Q[k:k + 1], use_c=False, reduce_qpts=False, **kwc)
            ctx.eq(f'matrix {k}', echo_matrix(ctx, r, k), echo_matrix(ctx, s, 0))
            ref[perm[k]] = echo_matrix(ctx, s, 0)
        # equivalent points
        ctx.eq('equivalent q-points', ref[0], ref[2])
        ctx.eq('equivalent zone centres', ref[1], ref[4])


@harness('C03', functions=FN, bounds='lists of 700 concrete q-points in no '
         'order, with repeats and points equal up to a reciprocal vector (far '
         'from the first zone too); one atom, every fc in [-1,1], every mass',
         cases=[dict(red=True), dict(red=False)], traces=1,
         opts={'abs_mode': 'atom', 'max_mode': 'atom'})
def long_list(ctx, red):
    g = 'sc1'
    obj, fc, cells, ims, m_au = make_fc(ctx, g)
    rng = np.random.default_rng(11)
    base = np.round(rng.uniform(-1.5, 1.5, (500, 3)), 3)
    base[250] = [0., 0., 0.]
    base[20] = [0., 1., -1.]
    more = base[rng.integers(0, 500, 200)] + rng.integers(-12, 13, (200, 3))
    qs = np.concatenate([base, more])[rng.permutation(700)]
    with EchoEigh(ctx):
        r = obj.calculate_qpoint_phonon_modes(ctx.const(qs), use_c=False,
                                              reduce_qpts=red)
    ctx.eq('qpts', r.qpts, qs)
    ctx.true('row count', len(r.frequencies.magnitude) == 700)
    for k in range(0, 700):
        if k % 7 == 3 or k > 650 or k < 20:
            ctx.eq('matrix', echo_matrix(ctx, r, k),
                   dyn_mat_ref(ctx, fc, qs[k], cells, ims, 1, m_au),
                   record=k % 50 == 0)


@harness('C03', functions=FN, bounds='3-4 q-points (one symbolic in '
         '[-1.3,1.3]), every weight in [0,2]')
def weights(ctx):
    obj, fc, cells, ims, m_au = make_fc(ctx, 'sc1', mass=ctx.const([23.]))
    x = ctx.real('x', -1.3, 1.3)
    Q = ctx.arr([[0.25, 0., x], [0.3, 0.1, 0.2], [1.25, 0., 0.5], [.3, .1, .2]])
    w = ctx.reals('w', 4, 0.01, 2.)
    red = ctx.choice('reduce', [True, False])
    freq_only = ctx.choice('freqs', [True, False])
    keep = ctx.arr([w[i] for i in range(4)])
    with EchoEigh(ctx):
        f = obj.calculate_qpoint_frequencies if freq_only else \
            obj.calculate_qpoint_phonon_modes
        r = f(Q, weights=w, use_c=False, reduce_qpts=red)
        ctx.eq('weights', r.weights, w)
        ctx.eq('caller weights', w, keep)
        ctx.eq('qpts', r.qpts, Q)
        r = f(Q, use_c=False, reduce_qpts=red)
        ctx.eq('default weights', r.weights, [0.25] * 4)


@harness('C03', functions=FN, opts={'abs_mode': 'atom'},
         bounds='5 q-points with up to three zone centres of which one is off '
         'a lattice point by every rounding error in [-4e-16,4e-16], with and '
         'without LO-TO splitting; every Born charge in [-2,2]',
         cases=[dict(split=s, G=G) for s in (True, False)
                for G in ([0., 0., 0.], [1., 0., -1.])])
def rounding(ctx, split, G):
    g = 'tri2u'
    geo = GEOM[g]
    born = ctx.reals('z', (2, 3, 3), -2., 2.)
    kw = dict(born=born, dielectric=ctx.const(
        [[2., .2, 0.], [.2, 3., -.1], [0., -.1, 2.5]]))
    make = lambda: make_fc(ctx, g, mass=ctx.const([23., 35.5]),
                           fc=ctx.const(conc_fc(geo, 5)), **kw)[0]
    d = ctx.real('d', -4e-16, 4e-16)
    a, b = [0.3, -0.45, 0.2], [0., 0.25, 0.4]
    z = [0., 0., 0.]
    fz = [G[0], G[1] + (d if not G[0] else 0.), G[2]]
    if G[0]:
        fz[0] = G[0] + d
    qs = ctx.choice('list', [[z, a, fz, b], [fz, a, b, z], [a, fz, b, z, a], [a, z, fz, b],
                             [fz, a]])
    Q = ctx.arr(qs)
    exact = ctx.const([G if q is fz else q for q in qs])
    kwc = dict(splitting=split, insert_gamma=False, use_c=False)
    with EchoEigh(ctx):
        r = make().calculate_qpoint_phonon_modes(Q, reduce_qpts=True, **kwc)
        s = make().calculate_qpoint_phonon_modes(exact, reduce_qpts=False, **kwc)
        for k in range(len(qs)):
            ctx.eq(f'matrix {k}', echo_matrix(ctx, r, k), echo_matrix(ctx, s, k),
                   scale_tol=1e-9)
