from ..core import Sub
from ..common import *

ID = 'P37'
TITLE = 'Malformed designs and estimator inputs are refused, limits are accepted'
PROP = {
    'statement': 'Constructing arrays, perturbations and weight functions and calling estimators refuses malformed input with the documented exception instead of computing garbage: arrays beyond three dimensions, spacings or bases that do not fit the indices, co-prime parameters with a common factor, unsupported sizes and modes, malformed errors or coupling matrices, non-grid or multidimensional arrays for coarray processing, covariance matrices of the wrong shape, more sources than resolvable, unknown perturbation filters. The corresponding limit cases (largest admissible dimension, size or number of sources) are accepted.',
    'quantifier': {'over': ['inputs', 'configurations'], 'text': 'all sizes around each limit, all constructors and estimators'},
    'why_tests_cant': 'Tests do not exercise rejection; an off-by-one in a limit silently yields wrong results or refuses valid input.',
    'anchors': {'files': ['doatools/model/arrays.py', 'doatools/model/perturbations.py', 'doatools/model/coarray.py', 'doatools/estimation/core.py', 'doatools/estimation/music.py', 'doatools/estimation/min_norm.py', 'doatools/estimation/beamforming.py', 'doatools/estimation/coarray.py', 'doatools/estimation/grid.py'],
                'mechanism': [{'name': 'validation', 'where': 'constructors, ensure_covariance_size, ensure_n_resolvable_sources'}],
                'observe_at': ['constructors', 'estimate', 'steering_matrix', 'transform']},
}
RULE = 'Sizes and parameters around every limit are generated; acceptance is compared with the documented rule on both sides. Every case is non-trivial.'


def accepts(fn, what):
    try:
        return fn()
    except Exception as e:
        fail('{}: refused with {}: {}', what, type(e).__name__, e)


def decide(ok, exc, fn, what):
    if ok:
        accepts(fn, what)
    else:
        raises(exc, fn, what)


def check_arrays(c):
    from doatools.model import arrays as A
    from doatools.model.coarray import WeightFunction1D
    from doatools.estimation import CoarrayACMBuilder1D
    t, a, b, d = c['t'], c['a'], c['b'], c['d']
    r = rs(c['seed'])
    if t == 'dim':
        x = r.randn(a, d)
        decide(d <= 3, ValueError, lambda: A.ArrayDesign(x, 'x'), '{}-dimensional array'.format(d))
        raises(ValueError, lambda: A.ArrayDesign(r.randn(a, 2, 1), 'x'), 'three-dimensional location array')
        accepts(lambda: A.ArrayDesign(r.randn(a), 'x'), 'vector of locations')
        accepts(lambda: A.ArrayDesign(x[:, :1].tolist(), 'x'), 'list of locations')
    elif t == 'grid':
        idx = r.randint(-3, 4, (a, d if d <= 3 else 3))
        q = idx.shape[1]
        decide(b == q, ValueError, lambda: A.GridBasedArrayDesign(idx, list(np.arange(1, b + 1) / 2), 'g'), 'd0 of length {} for {}D indices'.format(b, q))
        decide(b == q, ValueError, lambda: A.GridBasedArrayDesign(idx, np.arange(1, b + 1) / 2, 'g'), 'd0 vector of length {} for {}D indices'.format(b, q))
        decide(b == q, ValueError, lambda: A.GridBasedArrayDesign(idx, bases=np.eye(b, max(b, q) if b <= 3 else 3), name='g'), '{} basis vectors for {}D indices'.format(b, q))
        raises(ValueError, lambda: A.GridBasedArrayDesign(idx, np.ones((q, q)), 'g'), 'd0 matrix')
        accepts(lambda: A.GridBasedArrayDesign(idx, 0.5, 'g'), 'scalar d0')
    elif t == 'coprime':
        m, n = 1 + c['x'] % 9, 1 + c['y'] % 9
        decide(math.gcd(m, n) == 1, ValueError, lambda: A.CoPrimeArray(m, n, 0.5), 'co-prime pair ({}, {})'.format(m, n))
        raises(ValueError, lambda: A.CoPrimeArray(2, 3, 0.5, c['name']), 'mode ' + c['name'])
        for mode in ('2m', 'm', '2M', 'M'):
            accepts(lambda: A.CoPrimeArray(2, 3, 0.5, mode), 'mode ' + mode)
    elif t == 'mrla':
        n = c['x'] % 26 - 2
        decide(1 <= n <= 20, ValueError, lambda: A.MinimumRedundancyLinearArray(n, 0.5), 'MRLA with {} elements'.format(n))
    elif t == 'coarray':
        arrs = {'generic': A.ArrayDesign(np.arange(a + 1.0), 'g'), 'ura': A.UniformRectangularArray(a, b, 0.5), 'uca': A.UniformCircularArray(a + 1, 1.0),
                '2d': A.GridBasedArrayDesign(r.randint(-3, 4, (a, 2)), 0.5, 'g'), 'ula': A.UniformLinearArray(a, 0.5), 'nested': A.NestedArray(a, b, 0.5)}
        ok = c['arr'] in ('ula', 'nested')
        decide(ok, ValueError, lambda: WeightFunction1D(arrs[c['arr']]), 'weight function of ' + c['arr'])
        decide(ok, ValueError, lambda: CoarrayACMBuilder1D(arrs[c['arr']]), 'augmented covariance for ' + c['arr'])
    return t


def check_perts(c):
    from doatools.model import perturbations as P
    from doatools.model.arrays import UniformLinearArray
    r = rs(c['seed'])
    n, d, known = c['a'], c['d'], c['known']
    decide(1 <= d <= 3, ValueError, lambda: P.LocationErrors(r.randn(n, d), known), 'location errors with {} columns'.format(d))
    raises(ValueError, lambda: P.LocationErrors(r.randn(n, 0), known), 'location errors without columns')
    raises(ValueError, lambda: P.LocationErrors(r.randn(n), known), 'vector of location errors')
    for cls in (P.GainErrors, P.PhaseErrors):
        accepts(lambda: cls(r.randn(n), known), cls.__name__)
        accepts(lambda: cls(r.randn(n).tolist(), known), cls.__name__ + ' from a list')
        raises(ValueError, lambda: cls(r.randn(n, 1), known), cls.__name__ + ' from a matrix')
    decide(c['b'] == n, ValueError, lambda: P.MutualCoupling(randc(r, n, c['b']), known), 'coupling matrix {} x {}'.format(n, c['b']))
    raises(ValueError, lambda: P.MutualCoupling(r.randn(n), known), 'coupling vector')
    for p in (P.LocationErrors(r.randn(n, 1)), P.GainErrors(r.randn(n)), P.PhaseErrors(r.randn(n)), P.MutualCoupling(np.eye(n))):
        require(p.is_known is False, '{} are known by default', type(p).__name__)
    a = UniformLinearArray(c['x'] % 6 + 1, 0.5)
    m = a.size
    for p in (P.LocationErrors(r.randn(n, 2), known), P.GainErrors(r.randn(n), known), P.PhaseErrors(r.randn(n), known), P.MutualCoupling(r.randn(n, n), known)):
        ok = p.is_applicable_to(a)
        require(bool(ok[0]) == (n == m), '{} for {} elements on an array of {}: applicable = {}', type(p).__name__, n, m, ok)
        decide(n == m, RuntimeError, lambda: a.get_perturbed_copy([p]), '{} for {} elements on an array of {}'.format(type(p).__name__, n, m))
    from doatools.model.sources import FarField1DSourcePlacement
    s = FarField1DSourcePlacement([0.1, 0.2])
    for w in ('all', 'known', 'none'):
        accepts(lambda: a.steering_matrix(s, 1.0, perturbations=w), 'perturbations=' + w)
    raises(ValueError, lambda: a.steering_matrix(s, 1.0, perturbations=c['name']), 'perturbations=' + c['name'])
    return 'perturbations'


def check_estimators(c):
    from doatools import estimation as E
    from doatools.model.arrays import UniformLinearArray
    from doatools.estimation.sparse import SparseCovarianceMatching
    m = c['m']
    a = UniformLinearArray(m, 0.5)
    g = E.FarField1DSearchGrid(size=12)
    r = rs(c['seed'])
    R = herm_pd(r, m)
    name = c['est']
    k = max(1, m + c['dk'])
    if name in ('music', 'minnorm'):
        e = {'music': E.MUSIC, 'minnorm': E.MinNorm}[name](a, 1.0, g)
        decide(k <= m - 1, ValueError, lambda: e.estimate(R, k), '{} with {} sources and {} sensors'.format(name, k, m))
        call = lambda Q: e.estimate(Q, 1)
        min_m = 2
    elif name in ('bartlett', 'mvdr'):
        e = {'bartlett': E.BartlettBeamformer, 'mvdr': E.MVDRBeamformer}[name](a, 1.0, g)
        call = lambda Q: e.estimate(Q, k)
        accepts(lambda: call(R), '{} with {} sources and {} sensors'.format(name, k, m))
        min_m = 1
    elif name == 'rootmusic':
        e = E.RootMUSIC1D(1.0)
        decide(k <= m - 1, ValueError, lambda: e.estimate(R, k, 0.5), '{} with {} sources and {} sensors'.format(name, k, m))
        for bad in (R[:, :-1], R[:-1, :], R[:, 0], R[None]):
            raises(ValueError, lambda: e.estimate(bad, 1, 0.5), 'matrix of shape {}'.format(bad.shape))
        return name
    elif name == 'esprit':
        e = E.Esprit1D(1.0)
        q = c['disp']
        if m - q < 1:
            return None
        decide(k <= m - q, ValueError, lambda: e.estimate(R, k, 0.5, displacement=q), '{} with {} sources, {} sensors, displacement {}'.format(name, k, m, q))
        return name
    else:
        b = E.CoarrayACMBuilder1D(a)
        call = lambda Q: b.transform(Q)
        min_m = 1
    if m >= min_m and m > 1:
        accepts(lambda: call(R), name)
        for bad in (R[:, :-1], R[:-1, :], R[:-1, :-1], herm_pd(r, m + 1), R[:, 0], R[None]):
            raises(ValueError, lambda: call(bad), '{} with a matrix of shape {} for {} sensors'.format(name, bad.shape, m))
    return name


def check_grid(c):
    from doatools.estimation.grid import SearchGrid

    class Custom(SearchGrid):
        def _create_source_placement(self):
            raise NotImplementedError()

        def create_refined_grid_at(self, coord, density, span):
            raise NotImplementedError()

        def create_refined_axes_at(self, *args, **kwargs):
            raise NotImplementedError()

    v = (np.array([0.0, 1.0]),)
    accepts(lambda: Custom(v, ('x',), ('m',)), 'custom grid')
    raises(ValueError, lambda: Custom(v, ['x'], ('m',)), 'list of axis names')
    raises(ValueError, lambda: Custom(v, 'x', ('m',)), 'axis names as text')
    raises(ValueError, lambda: Custom(v, ('x',), ['m']), 'list of units')
    raises(ValueError, lambda: Custom(v, ('x',), 'm'), 'units as text')
    from doatools.estimation.grid import FarField1DSearchGrid, FarField2DSearchGrid, NearField2DSearchGrid
    r = rs(c['seed'])
    ax, ay = np.sort(r.uniform(-1, 1, 4)), np.sort(r.uniform(-1, 1, 3))
    for cls, axes, kw in ((FarField1DSearchGrid, (ax,), {'unit': 'rad'}), (FarField2DSearchGrid, (ax, ay), {'unit': 'rad'}), (NearField2DSearchGrid, (ax, ay), {})):
        accepts(lambda: cls(axes=axes, **kw), cls.__name__)
        raises(ValueError, lambda: cls(axes=list(axes), **kw), cls.__name__ + ' from a list of axes')
        raises(ValueError, lambda: cls(axes=ax, **kw), cls.__name__ + ' from an array')
    return 'grid'


small = st.integers(1, 4)
arr_cases = st.fixed_dictionaries(dict(t=st.sampled_from(['dim', 'grid', 'coprime', 'mrla', 'coarray']), a=small, b=small, d=st.integers(1, 5), x=st.integers(0, 80), y=st.integers(0, 80), seed=seeds,
                                       name=st.sampled_from(['3m', 'n', '', '2', 'mm']), arr=st.sampled_from(['generic', 'ura', 'uca', '2d', 'ula', 'nested'])))
pert_cases = st.fixed_dictionaries(dict(a=st.integers(1, 6), b=st.integers(1, 6), d=st.integers(1, 5), x=st.integers(0, 5), seed=seeds, known=st.booleans(), name=st.sampled_from(['unknown', '', 'ALL', 'some'])))
est_cases = st.fixed_dictionaries(dict(m=st.integers(2, 7), dk=st.sampled_from([-2, -1, 0, 1]), est=st.sampled_from(['music', 'minnorm', 'bartlett', 'mvdr', 'rootmusic', 'esprit', 'acm']), disp=st.integers(1, 3), seed=seeds))
SUBS = [Sub('arrays', arr_cases, check_arrays, 1500), Sub('perts', pert_cases, check_perts, 1000), Sub('estimators', est_cases, check_estimators, 1200), Sub('grid', st.fixed_dictionaries(dict(seed=seeds)), check_grid, 100)]
