from hypothesis import strategies as st

from ..common import *
from ..core import Sub
from ..est import *

ID = 'P18'
TITLE = 'Estimators are reusable: results never depend on earlier calls'
PROP = {
    'statement': 'An estimator (Bartlett, MVDR, MUSIC, MinNorm, Root-MUSIC, ESPRIT, or the coarray builder) gives for every call the same result as a freshly created one, whatever calls, options, covariance matrices and source counts (including unresolved, refined and rejected calls) preceded it, with or without caching. Estimators may share arrays and search grids; estimates never modify the covariance matrix, the array or the grid, and results handed out earlier are neither changed by later calls nor influence them when the caller edits them.',
    'quantifier': {'over': ['histories', 'inputs'], 'text': 'all sequences of estimate calls over a set of estimators sharing an array and a grid'},
    'why_tests_cant': 'Tests call each estimator once; caching, in-place refinement and shared grids only matter across call histories.',
    'anchors': {'files': ['doatools/estimation/core.py', 'doatools/estimation/grid.py', 'doatools/estimation/coarray.py', 'doatools/estimation/music.py', 'doatools/estimation/esprit.py'],
                'state': [{'name': 'cached atom matrix', 'meaning': 'steering matrix of the search grid', 'where': 'SpectrumBasedEstimatorBase'},
                          {'name': 'cached source placement', 'meaning': 'sources of the grid', 'where': 'SearchGrid'}],
                'mechanism': [{'name': 'caching and in-place refinement', 'where': 'SpectrumBasedEstimatorBase'}],
                'observe_at': ['estimate', 'SearchGrid.source_placement', 'CoarrayACMBuilder1D.transform']},
}
RULE = ('Histories of up to 12 calls over a pool of estimators sharing one array and grid are generated; every call is compared exactly with a fresh '
        'estimator on fresh copies, after which all earlier results are re-examined. Non-trivial: at least three calls.')
TECHNIQUE = 'model-based (stateful) property testing: generated call histories against freshly created estimators'


def snapshot(r):
    """(flag, locations, units, spectrum) of a result."""
    if isinstance(r, np.ndarray):
        return ('array', r.copy())
    return tuple(x.locations.copy() if hasattr(x, 'locations') else (x.copy() if isinstance(x, np.ndarray) else x) for x in r)


def compare(a, b, what, exact=False):
    require(len(a) == len(b), '{}: {} outputs instead of {}', what, len(a), len(b))
    for x, y in zip(a, b):
        if isinstance(y, np.ndarray):
            require(isinstance(x, np.ndarray) and x.shape == y.shape, '{}: {} instead of {}', what, x, y)
            if not np.array_equal(x, y, equal_nan=True):
                require(not exact and np.all(np.abs(x - y) <= 1e-8 * np.abs(y) + 1e-9), '{}: {} instead of {}', what, x, y)
        else:
            require(x == y or x is y, '{}: {!r} instead of {!r}', what, x, y)


def create(kind, array, wl, grid, cache):
    from doatools import estimation as E
    if kind == 'rootmusic':
        return E.RootMUSIC1D(wl)
    if kind == 'esprit':
        return E.Esprit1D(wl)
    if kind == 'coarray':
        return E.CoarrayACMBuilder1D(array)
    kw = {} if cache is None else {'enable_caching': cache}
    return estimator(kind, array, wl, grid, **kw)


def call(kind, e, R, k, op):
    d0 = {} if op['d0'] is None else {'d0': op['d0']}
    if kind == 'rootmusic':
        return e.estimate(R, k, unit='sin', **d0)
    if kind == 'esprit':
        n = R.shape[0] - 1
        if op['iters'] == 3 and n > 1:
            d0['row_weights'] = np.linspace(0.5, 1.5, n)
        elif op['iters'] == 2 and n - 1 >= k:
            d0['displacement'] = 2
        else:
            d0['row_weights'] = 'none' if op['refine'] else 'default'
        return e.estimate(R, k, unit='sin', formulation='tls' if op['spectrum'] else 'ls', **d0)
    if kind == 'coarray':
        return e.transform(R, 'da' if op['refine'] else 'ss')
    kw = {}
    if op['spectrum']:
        kw['return_spectrum'] = True
    if op['refine']:
        kw.update(refine_estimates=True, refinement_density=op['density'], refinement_iters=op['iters'])
    return e.estimate(R, k, **kw)


def check_history(case):
    spec = case['array']
    a = build_array(spec, case['perts'])
    m = a.size
    g = build_grid(case['grid'])
    nom0, act0 = a.element_locations.copy(), np.array(a.actual_element_locations)
    axes0 = [np.array(q) for q in g.axes]
    loc0 = g.source_placement.locations.copy()
    wl = case['wl']
    pool = [(kd, create(kd, a, wl, g, c), c) for kd, c in case['pool']]
    handed = []
    buf = None
    n_ok = 0
    for op in case['ops']:
        kind, e, cache = pool[op['i'] % len(pool)]
        if op['bad']:
            R, k = np.eye(m + 1), 1
            if kind in ('rootmusic', 'esprit'):
                k = m + 5
            raises(ValueError, lambda: call(kind, e, R, k, op), kind + ' with a bad input')
            continue
        k = 1 + op['k'] % max(1, m - 1)
        if kind == 'esprit':
            k = min(k, m - 1)
        def given():
            R = present(eig_cov(op['seed'], m, min(k, m - 1), 15.0), op['seed'])[1]
            return R.real.copy() if op['real'] else R

        R = given()
        if op['reuse'] and buf is not None and buf.dtype == R.dtype and buf.strides == R.strides and R.flags.writeable and buf.flags.writeable:
            # The caller refills the matrix of an earlier call.
            buf[...] = R
            R = buf
        buf = R
        if kind in ('rootmusic', 'esprit') and k > m - 1:
            continue
        Rk = R.copy()
        try:
            res = call(kind, e, R, k, op)
            err = None
        except ValueError as x:
            res, err = None, x
        same(R, Rk, 'covariance matrix after the call')
        fa, fg = build_array(spec, case['perts']), build_grid(case['grid'])
        try:
            ref = call(kind, create(kind, fa, wl, fg, True), given(), k, op)
            ferr = None
        except ValueError as x:
            ref, ferr = None, x
        require((err is None) == (ferr is None), '{}: outcome depends on the history: {!r} vs {!r} when fresh', kind, err, ferr)
        if err is None:
            n_ok += 1
            s = snapshot(res)
            compare(s, snapshot(ref), kind + ' after a history vs. fresh')
            if op['edit']:
                # The caller edits what it got.
                for x in (res if isinstance(res, tuple) else (res,)):
                    if hasattr(x, 'locations'):
                        x.locations[...] = 0.123
                    elif isinstance(x, np.ndarray):
                        x[...] = -7.0
            else:
                handed.append((kind, res, s))
        for kd, r0, s0 in handed:
            compare(snapshot(r0), s0, kd + ': an earlier result changed', True)
        same(a.element_locations, nom0, 'array locations')
        same(a.actual_element_locations, act0, 'actual array locations')
        for q, q0 in zip(g.axes, axes0):
            same(q, q0, 'grid axes')
        same(g.source_placement.locations, loc0, 'grid sources')
    return 'calls%d' % min(n_ok, 6) if n_ok >= 3 else None


@st.composite
def hist(draw):
    arr = draw(st.one_of(ulas(7, 2), sparse1d(small=True).filter(lambda s: array_size(s) >= 2)))
    pool = draw(st.lists(st.tuples(st.sampled_from(METHODS + METHODS + ['rootmusic', 'esprit', 'coarray']), st.sampled_from([None, True, False])), min_size=1, max_size=4))
    op = st.fixed_dictionaries({'i': st.integers(0, 3), 'k': st.integers(0, 6), 'seed': seeds, 'spectrum': st.booleans(), 'refine': st.booleans(),
                                'density': st.integers(1, 5), 'd0': st.sampled_from([None, None, 0.3, 0.45]), 'iters': st.integers(0, 3), 'edit': st.booleans(), 'real': st.integers(0, 4).map(lambda v: v == 4),
                                'reuse': st.booleans(), 'bad': st.integers(0, 6).map(lambda v: v == 6)})
    return {'array': arr, 'perts': draw(st.one_of(st.just([]), pert_list(2))), 'grid': draw(grid_spec(10, dense=700)), 'wl': draw(wavelengths),
            'pool': [list(p) for p in pool], 'ops': draw(st.lists(op, min_size=1, max_size=12))}


SUBS = [Sub('history', hist(), check_history, 2400)]
