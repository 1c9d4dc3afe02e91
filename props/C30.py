"""C30: plots show the data of the spectra"""
import math
import numpy as np
from vf.harness import harness
from .common import *
from .C18 import axis

FN = ['plot.plot_1d', 'plot.plot_1d_to_axis', 'plot.plot_2d',
      'plot.plot_2d_to_axis', 'plot._set_x_tick_labels',
      'plot._get_gridspec_kw', 'Spectrum.get_bin_centres',
      'Spectrum.get_bin_edges']


class Recorder:
    """Matplotlib's axes with what they are told to draw written down (they
    draw something of the same size instead, for Matplotlib needs numbers)"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.undo = []
        self.lines, self.images, self.grid = [], [], []
        self.lim, self.ticks = {}, {}
        self.inside = False     # Matplotlib itself calls

    def put(self, o, n, f):
        self.undo.append((o, n, n in vars(o), vars(o).get(n)))
        setattr(o, n, f)

    def __enter__(self):
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.colors
        import matplotlib.pyplot as plt
        from matplotlib.axes import Axes
        from matplotlib.image import NonUniformImage
        from matplotlib.gridspec import GridSpecBase
        R = self
        sizes = lambda v: np.arange(float(np.shape(v)[0]))
        plot = Axes.plot
        xt, xtl, add = Axes.set_xticks, Axes.set_xticklabels, Axes.add_image
        init, data = NonUniformImage.__init__, NonUniformImage.set_data
        gs = GridSpecBase.__init__

        def plot_(ax, x, y, *a, **k):
            p = plot(ax, sizes(x), sizes(y), *a, **k)
            R.lines.append((ax, x, y, p[-1]))
            return p

        def lim(which):
            def g(ax, a=None, b=None, **k):
                n = ('left', 'right') if which == 'x' else ('bottom', 'top')
                if b is None and isinstance(a, (tuple, list)):
                    a, b = a
                a = k.pop(n[0], a)
                b = k.pop(n[1], b)
                if not R.inside:
                    R.lim[id(ax), which] = (a, b)
                return (a, b)
            return g

        def ticks(ax, locs, labels=None, **k):
            R.ticks[id(ax)] = [list(flat(locs)), labels]
            R.inside = True
            try:
                return xt(ax, sizes(locs), labels=labels, **k)
            finally:
                R.inside = False

        def ticklabels(ax, labels, **k):
            R.ticks[id(ax)][1] = list(labels)
            return xtl(ax, labels, **k)

        def init_(im, ax, *, extent=None, **k):
            init(im, ax, **k)
            R.images.append(dict(im=im, ax=ax, extent=extent, added=False))

        def data_(im, x, y, A):
            for d in R.images:
                if d['im'] is im:
                    d.update(x=x, y=y, A=A)
            data(im, sizes(x), sizes(y), np.arange(float(np.size(A))).reshape(
                np.shape(A)))

        def add_(ax, im):
            for d in R.images:
                if d['im'] is im:
                    d['added'] = ax is d['ax']
            return add(ax, im)

        def gs_(g, nrows, ncols, height_ratios=None, width_ratios=None):
            R.grid.append((nrows, ncols, width_ratios))
            gs(g, nrows, ncols)
        self.put(Axes, 'plot', plot_)
        self.put(Axes, 'set_xlim', lim('x'))
        self.put(Axes, 'set_ylim', lim('y'))
        self.put(Axes, 'set_xticks', ticks)
        self.put(Axes, 'set_xticklabels', ticklabels)
        self.put(Axes, 'add_image', add_)
        self.put(NonUniformImage, '__init__', init_)
        self.put(NonUniformImage, 'set_data', data_)
        self.put(GridSpecBase, '__init__', gs_)
        if self.ctx.symbolic:
            self.put(matplotlib.colors, '_sanitize_extrema', lambda v: v)
        return self

    def __exit__(self, *a):
        import matplotlib.pyplot as plt
        for o, n, had, old in reversed(self.undo):
            setattr(o, n, old) if had else delattr(o, n)
        plt.close('all')


def flat(v):
    return list(v.ravel()) if hasattr(v, 'ravel') else list(v)


def line_axis(ctx, tag, n, rep):
    """increasing, with point i + 1 the same as i for i in rep"""
    x = [ctx.real(tag + '0', 0., 3.)]
    for i in range(n - 1):
        x.append(x[-1] if i in rep else x[-1] + ctx.real(
            f'{tag}d{i}', .1, 2.))
    return x


def make(ctx, tag, n, nl, rep=(), edges=False, ticks=None, named=True,
         xu='1/angstrom', yu='meV'):
    from euphonic import Spectrum1D, Spectrum1DCollection, ureg
    x = line_axis(ctx, tag + 'x', n + int(edges), rep)
    y = ctx.reals(tag + 'y', (max(nl, 1), n), -5., 90.)
    kw = {} if ticks is None else {'x_tick_labels': ticks}
    X = ctx.arr(x) * ureg(xu)
    if nl == 0:
        s = Spectrum1D(X, y[0] * ureg(yu), metadata={'label': f'{tag} only'}
                       if named else {}, **kw)
    else:
        s = Spectrum1DCollection(X, y * ureg(yu), metadata={
            'line_data': [{'label': f'{tag} {i}'} if named and i != 1 else
                          {'index': i} for i in range(nl)]}, **kw)
    names = [f'{tag} only'] if nl == 0 else [
        f'{tag} {i}' if i != 1 else None for i in range(nl)]
    if not named:
        names = [None] * len(names)
    return s, x, y, names


def segments(n, rep):
    cuts = [0] + [i + 1 for i in sorted(rep)] + [n]
    return list(zip(cuts[:-1], cuts[1:]))


def check_lines(ctx, R, ax, x, y, rep, edges, names, label):
    """every line drawn in full, in segments of one colour, named once"""
    n = len(y[0])
    c = [(a + b) / 2 for a, b in zip(x[:-1], x[1:])] if edges else x
    segs = segments(n, rep)
    got = [l for l in R.lines if l[0] is ax]
    ctx.true(f'{label}: number of segments', len(got) == len(segs) * len(y),
             f'{len(got)}')
    if len(got) != len(segs) * len(y):
        return
    for i in range(len(y)):
        own = got[i * len(segs):(i + 1) * len(segs)]
        for (a, b), (_, gx, gy, p) in zip(segs, own):
            ctx.eq(f'{label}: x of line {i}', gx, c[a:b])
            ctx.eq(f'{label}: y of line {i}', gy, list(y[i])[a:b])
        cols = {str(p.get_color()) for *_, p in own}
        ctx.true(f'{label}: one colour per line', len(cols) == 1, f'{cols}')
        ls = [p.get_label() for *_, p in own]
        ctx.true(f'{label}: named in the legend once', (
            ls[0] == names[i] if names[i] else ls[0].startswith('_'))
            and all(l.startswith('_') for l in ls[1:]), f'{ls}')
    cols = [str(l[3].get_color()) for l in got[::len(segs)]]
    ctx.true(f'{label}: lines in different colours',
             len(set(cols)) == len(cols), f'{cols}')


def check_axis(ctx, R, ax, x, ticks, label):
    lo, hi = R.lim[id(ax), 'x']
    ctx.eq(f'{label}: x limits', [lo, hi], [x[0], x[-1]])
    if ticks:
        loc, lab = R.ticks[id(ax)]
        ctx.eq(f'{label}: tick positions', loc, [x[i] for i, _ in ticks])
        ctx.true(f'{label}: tick labels', list(lab) == [t for _, t in ticks])


LINES = [dict(n=4, nl=0), dict(n=4, nl=3), dict(n=4, nl=0, edges=True),
         dict(n=3, nl=2, edges=True), dict(n=5, nl=2, rep=[1]),
         dict(n=6, nl=3, rep=[0, 3]), dict(n=5, nl=0, rep=[2]),
         dict(n=5, nl=2, rep=[3], ticks=[[0, 'G'], [3, 'X'], [4, 'X']]),
         dict(n=4, nl=1, ticks=[[0, 'a very long label'], [2, 'b']]),
         dict(n=4, nl=2, labels=['one', 'two']),
         dict(n=4, nl=0, labels='mine'), dict(n=5, nl=2, rep=[1],
                                              labels=['one', '']),
         dict(n=4, nl=2, named=False),
         dict(n=6, nl=1, rep=[1], ticks=[[0, 'G'], [2, 'X'], [3, 'W']])]


@harness('C30', functions=FN, bounds='one spectrum or collection of up to 3 lines '
         'and 6 points, bin edges or points with any spacing, repeated points, '
         'tick labels and line labels; every value symbolic', cases=LINES,
         traces=1)
def lines(ctx, n, nl, rep=(), edges=False, ticks=None, labels=None,
          named=True):
    import matplotlib.pyplot as plt
    from euphonic.plot import plot_1d, plot_1d_to_axis
    ticks = ticks and [tuple(t) for t in ticks]
    s, x, y, names = make(ctx, 's', n, nl, rep, edges, ticks, named)
    if labels is not None:
        names = [labels] if isinstance(labels, str) else list(labels)
        names = [m or None for m in names]
    lo = ctx.real('lo', -10., 0.)
    hi = ctx.real('hi', 50., 100.)
    with Recorder(ctx) as R, quiet():
        fig = plot_1d(s, title='T', xlabel='some x', ylabel='some y', ymin=lo,
                      ymax=hi, labels=labels)
        ax = R.lines[0][0]
        ctx.true('one subplot', {id(l[0]) for l in R.lines} == {id(ax)})
        check_lines(ctx, R, ax, x, y, rep, edges, names, 'plot')
        check_axis(ctx, R, ax, x, ticks, 'plot')
        ctx.eq('y limits', list(R.lim[id(ax), 'y']), [lo, hi])
        leg = ax.get_legend()
        want = [m for m in names if m]
        ctx.true('legend', ([t.get_text() for t in leg.get_texts()] if leg
                            else []) == want, f'{leg}')
        ctx.true('titles', fig.get_suptitle() == 'T' and any(
            a.get_xlabel() == 'some x' and a.get_ylabel() == 'some y'
            for a in fig.axes))
        # onto axes of the caller's, with his own properties
        k = len(R.lines)
        fig2, ax2 = plt.subplots()
        plot_1d_to_axis(s, ax2, labels, color='red', linewidth=3.)
        ctx.true('properties of the lines', all(
            l[3].get_color() == 'red' and l[3].get_linewidth() == 3.
            for l in R.lines[k:]) and len(R.lines) == 2 * k)
        check_axis(ctx, R, ax2, x, ticks, 'to axis')
        for l, m in zip(R.lines[:k], R.lines[k:]):
            ctx.eq('same x', m[1], l[1])
            ctx.eq('same y', m[2], l[2])
        if nl:
            ctx.expect_raise('labels', ValueError, lambda: plot_1d_to_axis(
                s, ax2, ['a'] * (nl + 1)))
        ctx.expect_raise('type', TypeError, lambda: plot_1d_to_axis(
            [1., 2.], ax2))


@harness('C30', functions=FN, bounds='2-3 spectra or collections side by side; '
         'every value symbolic', cases=[
             dict(parts=[[3, 2], [4, 2]]), dict(parts=[[3, 0], [3, 0], [4, 0]]),
             dict(parts=[[2, 1], [4, 1]], bad='x'),
             dict(parts=[[2, 1], [4, 1]], bad='y')], traces=1)
def subplots(ctx, parts, bad=None):
    """each part in its own subplot, to the same scale in x"""
    from euphonic.plot import plot_1d
    S = [make(ctx, f's{i}', n, nl, ticks=[(0, f'{i}a'), (n - 1, f'{i}b')])
         for i, (n, nl) in enumerate(parts)]
    if bad:
        setattr(S[-1][0], bad + '_data_unit', '1/bohr' if bad == 'x'
                else 'eV')
    with Recorder(ctx) as R, quiet():
        if bad:
            ctx.expect_raise('units', ValueError, lambda: plot_1d(
                [s[0] for s in S]))
            return
        lo = ctx.real('lo', -10., 0.)
        fig = plot_1d([s[0] for s in S], ymin=lo)
        axs = []
        for l in R.lines:
            if l[0] not in axs:
                axs.append(l[0])
        ctx.true('subplots', len(axs) == len(S))
        pos = [a.get_position().x0 for a in axs]
        ctx.true('from left to right', pos == sorted(pos))
        for i, (ax, (s, x, y, names)) in enumerate(zip(axs, S)):
            check_lines(ctx, R, ax, x, y, (), False, names, f'part {i}')
            check_axis(ctx, R, ax, x, [(0, f'{i}a'), (len(x) - 1, f'{i}b')],
                       f'part {i}')
            ctx.eq('lower limit', R.lim[id(ax), 'y'][0], lo)
        w = [g[2] for g in R.grid if g[1] == len(S) and g[2] is not None]
        ctx.true('widths', len(w) == 1)
        r = [s[1][-1] - s[1][0] for s in S]
        for i in range(1, len(S)):
            ctx.eq('width as range of x', w[0][i] * r[0], w[0][0] * r[i])


MAPS = [dict(parts=[[2, 2]]), dict(parts=[[2, 3]], xe=True),
        dict(parts=[[3, 2]], ye=True), dict(parts=[[2, 2]], xe=True, ye=True),
        dict(parts=[[2, 2]], vmin=True), dict(parts=[[2, 2]], vmax=True),
        dict(parts=[[1, 2], [2, 2]], xe=True, ye=True),
        dict(parts=[[2, 1], [3, 1]], vmax=True, ye=True)]


@harness('C30', functions=FN, bounds='1-2 two-dimensional spectra of up to 3x3 '
         'points, each axis of bin edges or points with any spacing; every value '
         'symbolic; colour limits given or not', cases=MAPS, traces=1)
def maps(ctx, parts, xe=False, ye=False, vmin=False, vmax=False):
    from euphonic import Spectrum2D, ureg
    from euphonic.plot import plot_2d
    S = []
    for i, (n, m) in enumerate(parts):
        x = axis(ctx, f'x{i}', n + int(xe))
        y = axis(ctx, f'y{i}', m + int(ye))
        z = ctx.reals(f'z{i}', (n, m), -2., 9.)
        t = [(0, 'G'), (n - 1, 'X')]
        S.append((Spectrum2D(
            ctx.arr(x) * ureg('1/angstrom'), ctx.arr(y) * ureg('meV'),
            z * ureg('mbarn/meV'), x_tick_labels=t), x, y, z, t))
    kw = {}
    if vmin:
        kw['vmin'] = ctx.real('vmin', -9., 0.)
    if vmax:
        kw['vmax'] = ctx.real('vmax', 1., 50.)
    with Recorder(ctx) as R, quiet():
        fig = plot_2d([s[0] for s in S] if len(S) > 1 else S[0][0],
                      title='T', xlabel='some x', ylabel='some y',
                      cmap='bone', **kw)
        ctx.true('one image each', len(R.images) == len(S)
                 and all(d['added'] for d in R.images)
                 and len({id(d['ax']) for d in R.images}) == len(S))
        zs = [v for s in S for v in flat(s[3])]
        for i, (d, (s, x, y, z, t)) in enumerate(zip(R.images, S)):
            ed, ce = [], []
            for v, e in ((x, xe), (y, ye)):
                mid = [(a + b) / 2 for a, b in zip(v[:-1], v[1:])]
                ce.append(mid if e else v)
                ed.append(v if e else [v[0]] + mid + [v[-1]])
            ctx.eq(f'map {i}: x', d['x'], ce[0])
            ctx.eq(f'map {i}: y', d['y'], ce[1])
            n, m = z.shape
            ctx.eq(f'map {i}: values', d['A'], [[z[a, b] for a in range(n)]
                                                for b in range(m)])
            ctx.eq(f'map {i}: extent', list(d['extent']),
                   [ed[0][0], ed[0][-1], ed[1][0], ed[1][-1]])
            ctx.eq(f'map {i}: x limits', list(R.lim[id(d['ax']), 'x']),
                   [ed[0][0], ed[0][-1]])
            ctx.eq(f'map {i}: y limits', list(R.lim[id(d['ax']), 'y']),
                   [ed[1][0], ed[1][-1]])
            loc, lab = R.ticks[id(d['ax'])]
            ctx.eq(f'map {i}: ticks', loc, [x[a] for a, _ in t])
            ctx.true(f'map {i}: tick labels', list(lab) == ['G', 'X'])
            nm = d['im'].norm
            ctx.true(f'map {i}: colours', d['im'].get_cmap().name == 'bone')
            if vmin:
                ctx.eq(f'map {i}: lower colour limit', nm.vmin, kw['vmin'])
            else:
                ctx.true(f'map {i}: lower colour limit is the least value',
                         all_of([v >= nm.vmin for v in zs])
                         & any_of([v <= nm.vmin for v in zs]))
            if vmax:
                ctx.eq(f'map {i}: upper colour limit', nm.vmax, kw['vmax'])
            else:
                ctx.true(f'map {i}: upper colour limit is the greatest value',
                         all_of([v <= nm.vmax for v in zs])
                         & any_of([v >= nm.vmax for v in zs]))
        if len(S) > 1:
            w = [g[2] for g in R.grid if g[1] == len(S) and g[2] is not None]
            ctx.true('widths', len(w) == 1)
            r = [s[1][-1] - s[1][0] for s in S]
            ctx.eq('width as range of x', w[0][1] * r[0], w[0][0] * r[1])
        ctx.true('titles', fig.get_suptitle() == 'T' and any(
            a.get_xlabel() == 'some x' and a.get_ylabel() == 'some y'
            for a in fig.axes))


def all_of(cs):
    r = cs[0]
    for c in cs[1:]:
        r = r & c
    return r


def any_of(cs):
    r = cs[0]
    for c in cs[1:]:
        r = r | c
    return r
