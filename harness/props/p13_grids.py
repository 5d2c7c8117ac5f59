from hypothesis import strategies as st

from ..common import *
from ..core import Sub

ID = 'P13'
TITLE = 'Search grids cover exactly the documented half-open ranges in documented order'
PROP = {
    'statement': 'A search grid built from ranges and sizes (scalars, lists of several intervals, per-axis pairs, or defaults) has per axis exactly the equally spaced points of the half-open ranges; one built from axes has exactly those axes. Its size, shape, names and units agree, and its source placement lists the Cartesian product with the first axis varying slowest, in the grid unit and of the matching source type.',
    'quantifier': {'over': ['inputs', 'configurations'], 'text': 'all grid types, units, ranges, sizes, interval lists and explicit axes'},
    'why_tests_cant': 'Tests build a few regular grids; multi-interval and near-field grids and orderings for arbitrary shapes are not reached.',
    'anchors': {'files': ['doatools/estimation/grid.py', 'doatools/utils/math.py', 'doatools/model/sources.py'],
                'mechanism': [{'name': 'axes construction and Cartesian product', 'where': 'doatools/estimation/grid.py'}],
                'observe_at': ['axes', 'shape', 'size', 'source_placement', 'units', 'axis_names', 'ndim']},
}
RULE = 'Grid specifications are generated; axes and ordering are compared with explicit enumeration. Non-trivial: at least two points.'

LIM = {'rad': math.pi / 2, 'deg': 90.0, 'sin': 1.0}


def ax(lo, hi, n):
    return [lo + (hi - lo) * i / n for i in range(n)]


@st.composite
def grid_spec(draw, max_n=12, free=False, dense=0):
    t = draw(st.sampled_from(['far1d', 'far1d_multi', 'far2d', 'near2d', 'axes1', 'axes2f', 'axes2n']))
    g = {'t': t}
    n = st.integers(1, max_n)
    if dense and draw(st.integers(0, 11)) == 11:
        n = st.integers(181, dense) if t == 'far1d' else st.integers(15, int(dense ** 0.5))
    if t in ('far1d', 'far1d_multi', 'axes1'):
        u = g['unit'] = draw(st.sampled_from(['rad', 'deg', 'sin']))
        L = LIM[u]
        if t == 'far1d':
            a, b = sorted([draw(fl(-L, L)), draw(fl(-L, L))])
            if free and draw(st.integers(0, 5)) == 5:
                a, b = b, a
            g['start'] = draw(st.sampled_from([a, None]))
            g['stop'] = draw(st.sampled_from([b, None]))
            g['size'] = draw(st.one_of(n, st.just(None)))
        elif t == 'far1d_multi':
            k = draw(st.integers(1, 4))
            pts = sorted(draw(st.lists(fl(-L, L), min_size=2 * k, max_size=2 * k)))
            g['start'], g['stop'] = pts[0::2], pts[1::2]
            g['size'] = draw(st.lists(st.integers(1, 6), min_size=k, max_size=k))
            if free and draw(st.booleans()):
                # Intervals in any order, possibly overlapping or descending.
                pts = draw(st.lists(fl(-L, L), min_size=2 * k, max_size=2 * k))
                g['start'], g['stop'] = pts[0::2], pts[1::2]
            g['tuple'] = draw(st.booleans())
        else:
            g['axes'] = [sorted(draw(st.lists(fl(-L, L), min_size=1, max_size=max_n)))]
    else:
        u = g['unit'] = 'm' if t in ('near2d', 'axes2n') else draw(st.sampled_from(['rad', 'deg']))
        A, B = (50.0, 50.0) if u == 'm' else ((math.pi, math.pi / 2) if u == 'rad' else (180.0, 90.0))
        if t in ('far2d', 'near2d'):
            x = sorted([draw(fl(-A, A)), draw(fl(-A, A))])
            y = sorted([draw(fl(-B, B)), draw(fl(-B, B))])
            g['start'], g['stop'] = [x[0], y[0]], [x[1], y[1]]
            if t == 'far2d':
                if draw(st.integers(0, 3)) == 0:
                    g['start'] = None
                if draw(st.integers(0, 3)) == 0:
                    g['stop'] = None
            g['size'] = draw(st.one_of(n, st.tuples(n, n).map(list)))
        else:
            g['axes'] = [sorted(draw(st.lists(fl(-A, A), min_size=1, max_size=max_n))),
                         sorted(draw(st.lists(fl(-B, B), min_size=1, max_size=max_n)))]
    if draw(st.integers(0, 4)) == 4:
        # Integers wherever numbers are expected.
        g['int'] = True
        whole = lambda v: [whole(x) for x in v] if isinstance(v, list) else int(v)
        for k in ('start', 'stop', 'axes'):
            if g.get(k) is not None:
                g[k] = whole(g[k])
    g['form'] = draw(st.sampled_from(['plain', 'plain', 'view', 'readonly', 'reverse', 'numpy', 'numpy', 'tuple']))
    if g.get('int') and g['form'] == 'tuple' and len(g.get('axes', [])) > 1:
        g['axes'][1] = [v + 0.25 * (v <= 0) - 0.25 * (v > 0) for v in g['axes'][1]]  # whole numbers on the first axis only
    return g


def numbers(v, form):
    """Numbers (or lists of them) as numpy scalars, arrays or tuples."""
    if form == 'numpy':
        return np.array(v) if isinstance(v, list) else np.array(v)[()]
    return tuple(v) if form == 'tuple' and isinstance(v, list) else v


def build_grid(g):
    from doatools.estimation import grid as G
    t = g['t']
    kw = {}
    if 'axes' in g:
        kw['axes'] = tuple(given_as(np.array(a, dtype=int if g.get('int') and (j == 0 or g['form'] != 'tuple') else float), g.get('form', 'plain')) for j, a in enumerate(g['axes']))
        if t == 'axes2n':
            return G.NearField2DSearchGrid(**kw)
        return (G.FarField1DSearchGrid if t == 'axes1' else G.FarField2DSearchGrid)(unit=g['unit'], **kw)
    for k in ('start', 'stop', 'size'):
        if g[k] is not None:
            kw[k] = numbers(g[k], g.get('form'))
    if t == 'near2d':
        return G.NearField2DSearchGrid(**kw)
    return (G.FarField1DSearchGrid if t.startswith('far1d') else G.FarField2DSearchGrid)(unit=g['unit'], **kw)


def ref_axes(g):
    if 'axes' in g:
        return [list(a) for a in g['axes']]
    t, u = g['t'], g['unit']
    if t == 'far1d':
        L = LIM[u]
        a = -L if g['start'] is None else g['start']
        b = L if g['stop'] is None else g['stop']
        return [ax(a, b, 180 if g['size'] is None else g['size'])]
    if t == 'far1d_multi':
        return [[v for a, b, n in zip(g['start'], g['stop'], g['size']) for v in ax(a, b, n)]]
    q = 1.0 if u == 'rad' else 180 / math.pi
    a = g['start'] or [-math.pi * q, 0.0]
    b = g['stop'] or [math.pi * q, math.pi / 2 * q]
    n = g['size'] if isinstance(g['size'], list) else [g['size']] * 2
    return [ax(a[i], b[i], n[i]) for i in range(2)]


def src_class(g):
    from doatools.model import sources as S
    if g['t'] in ('near2d', 'axes2n'):
        return S.NearField2DSourcePlacement
    return S.FarField1DSourcePlacement if '1' in g['t'] else S.FarField2DSourcePlacement


def check_grid(g):
    gr = build_grid(g)
    e = ref_axes(g)
    d = len(e)
    require(gr.ndim == d and isinstance(gr.axes, tuple) and len(gr.axes) == d, 'ndim {}', gr.ndim)
    for i in range(d):
        close(gr.axes[i], np.array(e[i]), 'axis {}'.format(i), 1e-12, 1e-12)
    shape = tuple(len(a) for a in e)
    require(tuple(gr.shape) == shape, 'shape {} instead of {}', gr.shape, shape)
    require(int(gr.size) == int(np.prod(shape)), 'size {}', gr.size)
    require(tuple(gr.units) == (g['unit'],) * d, 'units {}', gr.units)
    names = ('DOA',) if d == 1 else (('x', 'y') if g['unit'] == 'm' else ('Azimuth', 'Elevation'))
    require(tuple(gr.axis_names) == names, 'axis names {}', gr.axis_names)
    for again in range(2):
        s = gr.source_placement
        require(type(s) is src_class(g), 'source type {}', type(s))
        require(tuple(s.units) == (g['unit'],) * d, 'source units {}', s.units)
        if d == 1:
            close(s.locations, np.array(e[0]), 'source order', 1e-12, 1e-12)
        else:
            pts = np.array([[x, y] for x in e[0] for y in e[1]])
            close(s.locations, pts, 'source order', 1e-12, 1e-12)
    return g['t'] if gr.size > 1 else None


def check_defaults(case):
    from doatools.estimation import grid as G
    q = 180 / math.pi
    u = case['unit']
    if u != 'sin':
        c = 1.0 if u == 'rad' else q
        g = G.FarField2DSearchGrid(unit=u)
        require(tuple(g.shape) == (360, 90), 'default 2D shape {}', g.shape)
        close(g.axes[0], np.arange(360) * (2 * math.pi * c / 360) - math.pi * c, 'default azimuth axis', 1e-12, 1e-10)
        close(g.axes[1], np.arange(90) * (math.pi / 2 * c / 90), 'default elevation axis', 1e-12, 1e-10)
    g = G.FarField1DSearchGrid(unit=u)
    require(tuple(g.shape) == (180,), 'default 1D shape')
    L = LIM[u]
    close(g.axes[0], -L + 2 * L * np.arange(180) / 180, 'default axis', 1e-12, 1e-12)
    same(G.FarField1DSearchGrid().axes[0], G.FarField1DSearchGrid(unit='rad').axes[0], 'default unit')
    return u


SUBS = [Sub('grid', grid_spec(free=True, dense=3000), check_grid, 6000),
        Sub('defaults', st.fixed_dictionaries({'unit': st.sampled_from(['rad', 'deg', 'sin'])}), check_defaults, 24)]
