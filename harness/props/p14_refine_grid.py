from hypothesis import strategies as st

from ..common import *
from ..core import Sub
from .p13_grids import grid_spec, build_grid, ref_axes, src_class

ID = 'P14'
TITLE = 'Refined grids subdivide exactly the neighbourhood of the chosen point'
PROP = {
    'statement': 'Refining a search grid at a coordinate gives, per axis, a grid of the same type and unit from the neighbour `span` points below to the neighbour `span` points above (clipped at the ends of the grid), subdividing every original interval into `density` parts, so that the original point and its neighbours remain grid points on a regular axis. Refining several coordinates gives one such grid each, in order, and can be repeated on refined grids; the original grid is unchanged.',
    'quantifier': {'over': ['inputs', 'histories'], 'text': 'all grids, coordinates including borders, densities, spans, and repeated refinement'},
    'why_tests_cant': 'Tests refine two grids at two points; border clipping, span and nesting vary over all inputs.',
    'anchors': {'files': ['doatools/estimation/grid.py'],
                'mechanism': [{'name': 'create_refined_axes_at', 'where': 'SearchGrid'}],
                'observe_at': ['create_refined_grid_at', 'create_refined_grids_at', 'create_refined_axes_at']},
}
RULE = 'Grids, coordinates, densities, spans and chains of refinements are generated; axes are compared with explicit subdivision. Non-trivial: refined grid has more than one point.'


def expect(axis, i, density, span):
    lb, ub = max(0, i - span), min(len(axis) - 1, i + span)
    n = (ub - lb) * density
    a, b = axis[lb], axis[ub]
    return [a + (b - a) * q / n for q in range(n + 1)] if n else [a]


def check_refine(case):
    g = case['grid']
    gr = build_grid(g)
    axes = [list(map(float, a)) for a in gr.axes]
    orig = [np.array(a) for a in axes]
    cur = gr
    big = False
    if case['used']:
        gr.source_placement
    for step in case['steps']:
        d = len(axes)
        n = step['n'] if cur is gr else 1
        coords = [[(c[j] % len(axes[j])) for c in step['coords'][:n]] for j in range(d)]
        if step['edge']:
            coords[0][0] = 0 if step['edge'] == 1 else len(axes[0]) - 1
        de, sp = step['density'], step['span']
        if cur is not gr:
            de, sp = min(de, 4), min(sp, 2)
        kw = {}
        if de is not None:
            kw['density'] = de
        if sp is not None:
            kw['span'] = sp
        dd, ss = (10 if de is None else de), (1 if sp is None else sp)
        as_array = step['np']
        out = cur.create_refined_grids_at(*[np.array(c) if as_array else c for c in coords], **kw)
        require(len(out) == len(coords[0]), '{} refined grids instead of {}', len(out), len(coords[0]))
        for q, r in enumerate(out):
            co = tuple(c[q] for c in coords)
            single = cur.create_refined_grid_at(co, **kw)
            ra = cur.create_refined_axes_at(co, dd, ss)
            require(type(r) is type(gr) and type(single) is type(gr), 'refined grid has type {}', type(r))
            for rr in (r, single):
                require(tuple(rr.units) == tuple(gr.units) and tuple(rr.axis_names) == tuple(gr.axis_names), 'units of the refined grid {}', rr.units)
            for j in range(d):
                e = np.array(expect(axes[j], co[j], dd, ss))
                sc = 1e-12 * (1 + np.max(np.abs(orig[j])))
                for got in (r.axes[j], single.axes[j], ra[j]):
                    close(got, e, 'refined axis {} at {} (density {}, span {})'.format(j, co, dd, ss), 0, sc)
            require(type(r.source_placement) is src_class(g), 'source type of the refined grid')
            pts = np.stack([q.flatten() for q in np.meshgrid(*[np.asarray(x, dtype=float) for x in r.axes], indexing='ij')], axis=1)
            close(np.asarray(r.source_placement.locations).reshape(pts.shape), pts, 'sources of the refined grid', 0, 0)
            big = big or r.size > 1
        for j in range(len(orig)):
            same(gr.axes[j], orig[j], 'original axis after refinement')
        cur = out[step['pick'] % len(out)]
        axes = [list(map(float, a)) for a in cur.axes]
    raises(ValueError, lambda: gr.create_refined_grid_at((0,) * gr.ndim, density=0), 'zero density')
    raises(ValueError, lambda: gr.create_refined_grid_at((0,) * gr.ndim, span=0), 'zero span')
    raises(ValueError, lambda: gr.create_refined_grid_at((0,) * (gr.ndim + 1)), 'coordinate of the wrong dimension')
    return '%s/%d' % (g['t'], len(case['steps'])) if big else None


step = st.fixed_dictionaries({
    'n': st.integers(1, 3), 'coords': st.lists(st.tuples(st.integers(0, 30), st.integers(0, 30)).map(list), min_size=3, max_size=3),
    'edge': st.sampled_from([0, 0, 1, 2]), 'density': st.one_of(st.none(), st.integers(1, 12), rarely(st.integers(1, 12), st.integers(13, 90), 3)),
    'span': st.one_of(st.none(), st.integers(1, 4)), 'np': st.booleans(), 'pick': st.integers(0, 2)})


def fix(case):
    for i, s in enumerate(case['steps']):
        if i:
            s['density'] = s['density'] or 3
            s['span'] = s['span'] or 1
    return case


SUBS = [Sub('refine', st.fixed_dictionaries({'grid': grid_spec(10, dense=900), 'used': st.booleans(), 'steps': st.lists(step, min_size=1, max_size=3)}).map(fix), check_refine, 3000)]
