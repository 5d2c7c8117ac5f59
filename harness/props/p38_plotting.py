from ..core import Sub
from ..common import *
from ..est import *
from .p16_peaks import simple_grid

ID = 'P38'
TITLE = 'Plots show exactly the given array, spectrum, estimates and ground truth'
PROP = {
    'statement': 'plot_array draws every nominal element location (1D arrays on the x-axis) and, on request and only if there are location errors, every actual location; plot_coarray does so for the unique location differences. plot_spectrum draws each given 1D spectrum against the grid axis normalized by its maximum (line or stems, linear or log scale) and each 2D spectrum as an image whose axes, orientation and extent follow the grid (also when swapped), and marks estimates and ground truth at their locations. Arrays are drawn with a common scale (equal ranges in 3D). Everything is drawn on the given axes, within the visible limits, in distinguishable colors and markers, labels name axis and unit, a new figure (of the requested size) is created and shown only when no axes are given, the returned containers are those artists, and spectra or sources that do not fit the grid are refused.',
    'quantifier': {'over': ['inputs', 'configurations'], 'text': 'all array dimensions, location errors, grids, spectra containers, marker sets and plot options'},
    'why_tests_cant': 'There are no tests of the plotting functions.',
    'anchors': {'files': ['doatools/plotting/plot_array.py', 'doatools/plotting/plot_spectrum.py'],
                'mechanism': [{'name': 'plotting', 'where': 'plot_array, plot_coarray, plot_spectrum'}],
                'observe_at': ['artists on the axes', 'returned containers']},
}
RULE = ('Arrays, grids, spectra and options are generated, drawn with the Agg backend, and the data of the artists is compared with the input. Every case is non-trivial.')


def plt_():
    import matplotlib
    matplotlib.use('Agg', force=True)
    import matplotlib.pyplot as plt
    plt.close('all')
    return plt


class shows:
    """Counts the calls of matplotlib's show()."""

    def __init__(self, plt):
        self.plt, self.n = plt, 0

    def __enter__(self):
        self.old = self.plt.show

        def show(*args, **kwargs):
            self.n += 1

        self.plt.show = show
        return self

    def __exit__(self, *exc):
        self.plt.show = self.old


def visible(ax, pts, what):
    """Every point is inside of the limits of the axes."""
    lims = [ax.get_xlim(), ax.get_ylim()] + ([ax.get_zlim()] if hasattr(ax, 'get_zlim') else [])
    for i, (lo, hi) in enumerate(lims):
        lo, hi = min(lo, hi), max(lo, hi)
        t = 1e-9 * (1 + abs(lo) + abs(hi))
        q = pts[:, i]
        require(np.min(q) >= lo - t and np.max(q) <= hi + t, '{}: outside of the view: {} not in [{}, {}]', what, q, lo, hi)


def rgba(color):
    from matplotlib.colors import to_rgba
    return tuple(to_rgba(color))


def stem_color(s):
    cs = {rgba(s.markerline.get_color())} | {tuple(v) for v in s.stemlines.get_colors().tolist()}
    require(len(cs) == 1, 'stems and markers in different colors')
    return cs.pop()


def points(col, nd3):
    if nd3:
        return np.array([np.asarray(v, dtype=float) for v in col._offsets3d]).T
    return np.asarray(col.get_offsets(), dtype=float)


def match(got, want, what):
    """Equal as multisets of points."""
    require(got.shape == want.shape, '{}: {} points instead of {}', what, got.shape, want.shape)
    left = [tuple(p) for p in want.tolist()]
    tol = 1e-9 * (1 + (np.max(np.abs(want)) if want.size else 0))
    L = np.array(left)
    for p in got:
        d = np.max(np.abs(L - p), axis=1)
        i = int(np.argmin(d))
        require(d[i] <= tol, '{}: unexpected point {}', what, p)
        L[i] = np.inf


def check_array(c):
    import warnings
    plt = plt_()
    from doatools.plotting import plot_array, plot_coarray
    spec, perts = c['array'], c['perts']
    m = array_size(spec)
    if spec['kind'] == 'generic' and c['shift']:
        o = c['shift'] * rs(c['sseed']).uniform(-1, 1, 3)
        s = 10.0 ** rs(c['sseed'] + 1).uniform(-2, 1, 3)
        spec = dict(spec, locs=[[float(v * s[i] + o[i]) for i, v in enumerate(q)] for q in spec['locs']])
    a = build_array(spec, perts)
    nom = nominal(spec, a)
    has = any(p['type'] == 'location_errors' for p in perts)
    show = c['show']
    act = apply_ref_perts(perts, m, nom, 'all')
    f = plot_coarray if c['coarray'] else plot_array
    nd3 = (act if show and has else nom).shape[1] == 3
    kw = {'show_location_errors': True} if show else {}
    given = None
    if c['give_ax']:
        fig = plt.figure()
        other = fig.add_subplot(121)
        given = fig.add_subplot(122, projection='3d') if nd3 else fig.add_subplot(122)
        plt.figure()  # another current figure
        kw['ax'] = given
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        with shows(plt) as shown:
            ax = f(a, **kw)
    require(shown.n == (0 if c['give_ax'] else 1), 'a new figure is shown and given axes are not: {} calls', shown.n)
    warned = any('location errors' in str(v.message) for v in w)
    require(warned == (show and not has), 'warning about missing location errors: {}', warned)
    require(ax is not None and (given is None or ax is given), 'not drawn on the given axes')
    if given is not None:
        require(len(other.collections) == 0, 'drawn on other axes')
    cols = ax.collections
    want = [('Nominal locations', nom)] + ([('Actual locations', act)] if show and has else [])
    require([q.get_label() for q in cols] == [n for n, _ in want], 'artists {}', [q.get_label() for q in cols])
    for col, (n, x) in zip(cols, want):
        if c['coarray']:
            d = []
            for i in range(m):
                for j in range(m):
                    v = x[i] - x[j]
                    if not any(np.max(np.abs(v - u)) <= 1e-7 * (1 + np.max(np.abs(x))) for u in d):
                        d.append(v)
            x = np.array(d)
        k = 3 if nd3 else 2
        x = np.hstack((x, np.zeros((x.shape[0], 3))))[:, :k]
        match(points(col, nd3), x, n)
        visible(ax, x, n)
    if len(cols) == 2:
        q = [col.get_paths()[0].vertices for col in cols]
        require(q[0].shape != q[1].shape or not np.allclose(q[0], q[1]) or not np.array_equal(cols[0].get_facecolor(), cols[1].get_facecolor()),
                'nominal and actual locations are drawn alike')
    if nd3:
        require(ax.get_zlabel() == 'z', 'z label')
        q = np.array([abs(v[1] - v[0]) for v in (ax.get_xlim(), ax.get_ylim(), ax.get_zlim())])
        s = q / np.array(ax.get_box_aspect() if hasattr(ax, 'get_box_aspect') and ax.get_box_aspect() is not None else q)
        require(np.max(q) <= 1.01 * np.min(q) or np.max(s) <= 1.01 * np.min(s), 'axes of different ranges: {}', q)
    else:
        require(ax.get_aspect() in (1.0, 'equal'), 'aspect ratio {}', ax.get_aspect())
    require(ax.get_xlabel() == 'x' and ax.get_ylabel() == 'y', 'axis labels')
    require(ax.get_legend() is not None, 'no legend')
    plt.close('all')
    return 'array/%dd%s%s' % (nom.shape[1], '/coarray' if c['coarray'] else '', '/actual' if len(want) > 1 else '')


def stem_points(s):
    return np.array([[x, y] for x, y in zip(*s.markerline.get_data())], dtype=float).reshape((-1, 2))


def check_1d(c):
    plt = plt_()
    from doatools.plotting import plot_spectrum
    gs = simple_grid(c)
    g = build_grid(gs)
    x = np.array(ref_axes(gs)[0])
    n = x.size
    r = rs(c['seed'])
    sps = [r.uniform(0.01, 5, n) * 10.0 ** r.randint(-6, 7) for _ in range(c['count'])]
    if c['zero']:
        sps[0] = np.zeros(n)
    elif not c['log'] and c['seed'] % 4 == 0:  # e.g. a spectrum in dB, or noisy values around zero
        s = sps[-1]
        s[r.randint(0, n)] *= -3
        if s.max() <= 0:
            s[r.randint(0, n)] = 1.0
    form = c['container']
    names = ['a', 'b b', 'c', 'd', 'e', 'f'][:c['count']]
    if form == 'array':
        sps = sps[:1]
        arg, labels = sps[0], ['']
    elif form == 'list':
        arg, labels = list(sps), [''] * len(sps)
    elif form == 'tuple':
        arg, labels = tuple(sps), [''] * len(sps)
    else:
        arg, labels = dict(zip(names, sps)), names
    keep = [s.copy() for s in sps]
    src = grid_sources(gs)
    marks = {}
    for name in ('estimates', 'ground_truth'):
        if c[name]:
            marks[name] = build_sources(dict(src, loc=[src['loc'][int(i)] for i in r.randint(0, n, c[name])]))
    kw = dict(marks)
    if c['log']:
        kw['use_log_scale'] = True
    if c['discrete']:
        kw['discrete'] = True
    given = None
    if c['give_ax']:
        fig = plt.figure()
        other, given = fig.add_subplot(121), fig.add_subplot(122)
        plt.figure()
        kw['ax'] = given
    elif c['figsize']:
        kw['figsize'] = (3.0, 5.5)
    with shows(plt) as shown:
        out = plot_spectrum(arg, g, **kw)
    require(shown.n == (0 if c['give_ax'] else 1), 'a new figure is shown and given axes are not: {} calls', shown.n)
    if 'figsize' in kw:
        require(tuple(out[0].figure.get_size_inches()) == (3.0, 5.5), 'figure size')
    require(isinstance(out, tuple) and len(out) == 2, 'returned {!r}', type(out))
    ax, conts = out
    require(given is None or ax is given, 'not drawn on the given axes')
    if given is not None:
        require(len(other.lines) + len(other.collections) == 0, 'drawn on other axes')
    for s, k in zip(sps, keep):
        same(s, k, 'spectrum')
    require(len(conts) == len(sps) + len(marks), '{} containers', len(conts))
    used = []
    for i, s in enumerate(sps):
        y = s / s.max() if s.max() > 0 else s
        if c['discrete']:
            pts = stem_points(conts[i])
            label = conts[i].get_label()
            used.append(stem_color(conts[i]))
        else:
            require(len(conts[i]) == 1, 'expected one line')
            line = conts[i][0]
            require(line.axes is ax, 'line on other axes')
            pts = np.array(line.get_data(), dtype=float).T
            label = line.get_label()
            used.append(rgba(line.get_color()))
            require(line.get_linestyle() == '-', 'spectrum drawn with line style {!r}', line.get_linestyle())
        close(pts, np.column_stack((x, y)), 'spectrum {}'.format(i), 1e-12, 1e-15)
        if labels[i]:
            require(label == labels[i], 'label {} instead of {}', label, labels[i])
    for i, (name, pl) in enumerate([(q, marks[q]) for q in ('estimates', 'ground_truth') if q in marks]):
        s = conts[len(sps) + i]
        require(s.markerline.axes is ax, 'markers on other axes')
        same(stem_points(s), np.column_stack((pl.locations, np.ones(pl.size))), name)
        require(s.get_label() == {'estimates': 'Estimates', 'ground_truth': 'Ground truth'}[name], 'label of ' + name)
        used.append(stem_color(s))
        require(s.markerline.get_marker() not in (' ', '', 'None', None), 'no markers for ' + name)
        if i and name == 'ground_truth':
            require(s.markerline.get_marker() != conts[len(sps)].markerline.get_marker(), 'estimates and ground truth have the same marker')
        visible(ax, stem_points(s), name)
    require(len(set(used)) == len(used), 'different spectra or markers in the same color: {}', used)
    q = sorted(ax.get_xlim())
    require(q[0] <= x.min() + 1e-9 * abs(x.min()) and q[1] >= x.max() - 1e-9 * abs(x.max()), 'the grid [{}, {}] is not visible in {}', x.min(), x.max(), q)
    require(ax.get_yscale() == ('log' if c['log'] else 'linear'), 'scale {}', ax.get_yscale())
    if not c['log']:
        require(ax.get_ylim()[0] == 0 and ax.get_ylim()[1] >= (1 if marks or sps[0].max() > 0 else 0), 'y limits {}', ax.get_ylim())
    require(c['unit'] in ax.get_xlabel() and g.axis_names[0] in ax.get_xlabel(), 'x label {}', ax.get_xlabel())
    require((ax.get_legend() is not None) == bool(marks or form == 'dict'), 'legend')
    from doatools.model.sources import FarField1DSourcePlacement
    wrong = FarField1DSourcePlacement([0.1], {'rad': 'deg', 'deg': 'sin', 'sin': 'rad'}[c['unit']])
    for name in ('estimates', 'ground_truth'):
        raises(ValueError, lambda: plot_spectrum(sps[0], g, plt.figure().add_subplot(111), **{name: wrong}), name + ' in another unit')
    raises(ValueError, lambda: plot_spectrum(np.ones(n + 1), g, plt.figure().add_subplot(111)), 'spectrum of the wrong size')
    raises(ValueError, lambda: plot_spectrum([sps[0], np.ones(n + 1)], g, plt.figure().add_subplot(111)), 'second spectrum of the wrong size')
    raises(ValueError, lambda: plot_spectrum([], g, plt.figure().add_subplot(111)), 'no spectrum')
    raises(ValueError, lambda: plot_spectrum('abc', g, plt.figure().add_subplot(111)), 'text instead of a spectrum')
    plt.close('all')
    return '1d/%s%s%s' % (form, '/log' if c['log'] else '', '/stem' if c['discrete'] else '')


def check_2d(c):
    plt = plt_()
    from matplotlib.colors import LogNorm
    from doatools.plotting import plot_spectrum
    gs = simple_grid(c)
    g = build_grid(gs)
    x, y = [np.array(v) for v in ref_axes(gs)]
    r = rs(c['seed'])
    sp = r.uniform(0.01, 5, (x.size, y.size))
    keep = sp.copy()
    src = grid_sources(gs)
    marks = {}
    for name in ('estimates', 'ground_truth'):
        if c[name]:
            marks[name] = build_sources(dict(src, loc=[src['loc'][int(i)] for i in r.randint(0, sp.size, c[name])]))
    kw = dict(marks)
    if c['log']:
        kw['use_log_scale'] = True
    swap = c['swap']
    if swap:
        kw['swap_axes'] = True
    if c['cmap']:
        kw['color_map'] = 'gray'
    given = None
    if c['give_ax']:
        fig = plt.figure()
        other, given = fig.add_subplot(121), fig.add_subplot(122)
        plt.figure()
        kw['ax'] = given
    elif c['figsize']:
        kw['figsize'] = (3.0, 5.5)
    with shows(plt) as shown:
        ax, conts = plot_spectrum(sp, g, **kw)
    require(shown.n == (0 if c['give_ax'] else 1), 'a new figure is shown and given axes are not: {} calls', shown.n)
    if 'figsize' in kw:
        require(tuple(ax.figure.get_size_inches()) == (3.0, 5.5), 'figure size')
    same(sp, keep, 'spectrum')
    require(len(ax.figure.axes) == (3 if given is not None else 2), 'no color bar')
    require(given is None or ax is given, 'not drawn on the given axes')
    if given is not None:
        require(len(other.images) + len(other.collections) == 0, 'drawn on other axes')
    require(len(conts) == 1 + len(marks), '{} containers', len(conts))
    im = conts[0]
    require(im.axes is ax and list(ax.images) == [im], 'image')
    D = np.asarray(im.get_array(), dtype=float)
    if im.origin == 'upper':
        D = D[::-1]
    h, v = (y, x) if swap else (x, y)
    require(D.shape == (v.size, h.size), 'image of shape {}', D.shape)
    e = im.get_extent()
    close(np.array(e), np.array([h.min(), h.max(), v.min(), v.max()]), 'extent', 1e-12, 1e-12)
    for i in range(h.size):
        for j in range(v.size):
            want = sp[j, i] if swap else sp[i, j]
            require(D[j, i] == want, 'image value at ({}, {}): {} instead of {}', h[i], v[j], D[j, i], want)
    require(isinstance(im.norm, LogNorm) == c['log'], 'color scale {}', type(im.norm).__name__)
    require(im.get_cmap().name == ('gray' if c['cmap'] else 'jet'), 'color map {}', im.get_cmap().name)
    for i, (name, pl) in enumerate([(q, marks[q]) for q in ('estimates', 'ground_truth') if q in marks]):
        L = pl.locations[:, ::-1] if swap else pl.locations
        require(conts[1 + i].axes is ax, 'markers on other axes')
        same(np.asarray(conts[1 + i].get_offsets(), dtype=float), L, name)
        require(conts[1 + i].get_label() == {'estimates': 'Estimates', 'ground_truth': 'Ground truth'}[name], 'label of ' + name)
    if len(marks) == 2:
        q = [v.get_paths()[0].vertices for v in conts[1:]]
        require(q[0].shape != q[1].shape or not np.allclose(q[0], q[1]), 'estimates and ground truth have the same marker')
    names = g.axis_names[::-1] if swap else g.axis_names
    require(names[0] in ax.get_xlabel() and g.units[0] in ax.get_xlabel(), 'x label {}', ax.get_xlabel())
    require(names[1] in ax.get_ylabel() and g.units[0] in ax.get_ylabel(), 'y label {}', ax.get_ylabel())
    require((ax.get_legend() is not None) == bool(marks), 'legend')
    from doatools.model.sources import FarField2DSourcePlacement, NearField2DSourcePlacement
    wrong = FarField2DSourcePlacement([[0.1, 0.2]], 'deg' if src['unit'] == 'rad' else 'rad')
    for name in ('estimates', 'ground_truth'):
        raises(ValueError, lambda: plot_spectrum(sp, g, plt.figure().add_subplot(111), **{name: wrong}), name + ' in another unit')
    if x.size != y.size:
        raises(ValueError, lambda: plot_spectrum(sp.T, g, plt.figure().add_subplot(111)), 'transposed spectrum')
    plt.close('all')
    return '2d/%s%s%s' % (c['grid'], '/swap' if swap else '', '/log' if c['log'] else '')


cnt = st.sampled_from([0, 0, 1, 3])
arr_cases = st.fixed_dictionaries(dict(array=st.one_of(ulas(6), sparse1d(small=True), planar(), generic_arrays(max_m=6), generic_arrays(ndim=3, max_m=6), grid_arrays(max_m=6)), perts=st.one_of(st.just([]), pert_list(2), st.tuples(seeds, st.integers(1, 3)).map(lambda t: [{'type': 'location_errors', 'seed': t[0] % 10 ** 6, 'dim': t[1], 'known': bool(t[0] & 1)}])),
                                       show=st.booleans(), coarray=st.booleans(), give_ax=st.booleans(), shift=st.sampled_from([0, 0, 5, 100]), sseed=seeds))
one = st.fixed_dictionaries(dict(grid=st.just('far1d'), shape=st.integers(2, 20).map(lambda n: [n]), unit=st.sampled_from(['rad', 'deg', 'sin']), seed=seeds, count=st.sampled_from([1, 2, 3, 3, 6]),
                                 container=st.sampled_from(['array', 'list', 'tuple', 'dict']), zero=st.integers(0, 7).map(lambda i: i == 0), estimates=cnt, ground_truth=cnt, log=st.booleans(), discrete=st.booleans(), give_ax=st.booleans(), figsize=st.booleans()))
two = st.fixed_dictionaries(dict(grid=st.sampled_from(['far2d', 'near2d']), shape=st.tuples(st.integers(2, 7), st.integers(2, 7)).map(list), unit=st.sampled_from(['rad', 'deg']), seed=seeds,
                                 estimates=cnt, ground_truth=cnt, log=st.booleans(), swap=st.booleans(), cmap=st.booleans(), give_ax=st.booleans(), figsize=st.booleans()))
SUBS = [Sub('array', arr_cases, check_array, 500), Sub('spectrum_1d', one, check_1d, 600), Sub('spectrum_2d', two, check_2d, 500)]
