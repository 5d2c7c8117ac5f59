from hypothesis import strategies as st

from ..common import *
from ..core import Sub
from ..est import eig_cov

ID = 'P40'
TITLE = 'Results depend only on the current values of the arguments'
PROP = {
    'statement': 'Over any sequence of calls to the modelling, estimation, preprocessing, performance-bound and simulation functions on shared objects, interleaved with in-place edits of source locations and covariance matrices and with derivation of perturbed arrays, every call returns exactly what it returns on freshly built objects holding the same current values. No call modifies its arguments (arrays, sources, matrices, power vectors, weight functions), the state of the global random generator (other than the documented random functions, which are reproducible from its seed) or numpy\'s error handling; repeating a call repeats the result, and earlier results never change.',
    'quantifier': {'over': ['histories', 'inputs', 'configurations'], 'text': 'all sequences of public calls and edits over a shared pool of objects'},
    'why_tests_cant': 'Tests use fresh objects for one call each; stale caches, aliasing, mutable defaults and hidden global state only show across histories.',
    'anchors': {'files': ['doatools/model/sources.py', 'doatools/model/arrays.py', 'doatools/model/coarray.py', 'doatools/performance/crb.py', 'doatools/performance/mse.py', 'doatools/estimation/ml.py', 'doatools/estimation/source_number.py', 'doatools/estimation/preprocessing.py', 'doatools/model/signals.py'],
                'state': [{'name': 'source locations', 'meaning': 'writable through the locations property', 'where': 'SourcePlacement'},
                          {'name': 'last estimates', 'meaning': 'estimates of the last ML optimization', 'where': 'CovarianceBasedMLEstimator'}],
                'mechanism': [{'name': 'every public function', 'where': 'doatools.*'}],
                'observe_at': ['return values', 'arguments after the call', 'numpy.random state']},
}
RULE = ('Histories of up to 14 calls and edits over two arrays, two sets of sources, two covariance matrices and long-lived helper objects are generated; every call is '
        'compared with the same call on freshly built objects, after which all arguments and earlier results are re-examined. Non-trivial: at least three successful calls.')
TECHNIQUE = 'model-based (stateful) property testing: generated call/edit histories against fresh objects'


class Env:
    """Long-lived objects (shared by a history) or fresh ones (for one call)."""

    def __init__(self, state):
        self.st = state
        self.arrays = [build_array(s, p) for s, p in state['arrays']]
        self.sources = [self._src(q) for q in state['sources']]
        self.R = [np.array(r) for r in state['R']]
        self.helpers = {}

    @staticmethod
    def _src(q):
        from doatools.model import sources as S
        loc = np.array(q['loc'], dtype=float)
        return S.FarField1DSourcePlacement(loc, q['unit']) if q['type'] == 'far1d' else (
            S.FarField2DSourcePlacement(loc.reshape((-1, 2)), q['unit']) if q['type'] == 'far2d' else S.NearField2DSourcePlacement(loc.reshape((-1, 2))))

    def helper(self, key, make):
        if key not in self.helpers:
            self.helpers[key] = make()
        return self.helpers[key]


def flat(r):
    """Numerical content of a result."""
    if r is None or isinstance(r, (bool, str, int, np.bool_)):
        return [np.array(r if r is not None else 'None')]
    if hasattr(r, 'locations') and hasattr(r, 'units'):
        return [np.array(r.locations), np.array(str(r.units))]
    if hasattr(r, 'element_locations'):
        return [np.array(r.element_locations), np.array(r.actual_element_locations), np.array(r.name)]
    if isinstance(r, (tuple, list)):
        return [q for x in r for q in flat(x)]
    return [np.array(r)]


def equal(a, b, what, tol=1e-7):
    require(len(a) == len(b), '{}: {} outputs instead of {}', what, len(a), len(b))
    for x, y in zip(a, b):
        require(x.shape == y.shape, '{}: shape {} instead of {}', what, x.shape, y.shape)
        if x.dtype.kind in 'US' or y.dtype.kind in 'US':
            require(x.dtype.kind == y.dtype.kind and bool(np.all(x == y)), '{}: {} instead of {}', what, x, y)
        elif not np.array_equal(x, y, equal_nan=True):
            fin = np.isfinite(y)
            require(np.array_equal(fin, np.isfinite(x)), '{}: {} instead of {}', what, x, y)
            s = float(np.max(np.abs(y[fin]))) if np.any(fin) else 0.0
            require(np.max(np.abs(x[fin] - y[fin])) <= tol * s, '{}: {} instead of {}', what, x, y)


def ops():
    from doatools import performance as PF, estimation as E
    from doatools.model.coarray import WeightFunction1D, compute_location_differences, compute_unique_location_differences
    from doatools.model.snapshots import get_narrowband_snapshots
    from doatools.model.signals import ComplexStochasticSignal, RandomPhaseSignal
    from doatools.estimation import preprocessing as PP, source_number as SN
    from doatools.estimation.ml import f_nll_stouc
    o = {}

    def op(f):
        o[f.__name__] = f
        return f

    A = lambda e, p: e.arrays[p['a']]
    S = lambda e, p: e.sources[p['s']]

    def F(e, p):  # far-field 1D sources
        q = e.sources[p['s']]
        if e.st['sources'][p['s']]['type'] != 'far1d':
            raise Skip()
        return q

    def M(e, p):
        return e.R[p['r']]

    def MA(e, p):
        return e.R[p['a']]

    @op
    def steering(e, p):
        d = p['x'] % 2 == 1 and e.st['sources'][p['s']]['type'] == 'far1d'
        return A(e, p).steering_matrix(S(e, p), p['wl'], d, ['all', 'known', 'none'][p['y'] % 3])

    @op
    def phases(e, p):
        return S(e, p).phase_delay_matrix(A(e, p).element_locations, p['wl'])

    @op
    def spherical(e, p):
        return S(e, p).calc_spherical_coords(A(e, p).actual_element_locations)

    @op
    def convert(e, p):
        return S(e, p).as_unit('m' if e.st['sources'][p['s']]['type'] == 'near2d' else ['rad', 'deg'][p['x'] % 2])

    @op
    def select(e, p):
        s = S(e, p)
        return [s[0], s[:], s[[0]], s[np.array([len(s) - 1, 0])], s.size, s.units]

    @op
    def locations(e, p):
        a = A(e, p)
        return [a.element_locations, a.actual_element_locations, a.size, a.output_size, a.ndim, a.actual_ndim, a.is_perturbed, a.name]

    @op
    def derive(e, p):
        a = A(e, p)
        b = a.get_perturbed_copy({'gain_errors': (np.linspace(-0.1, 0.1, a.size), p['x'] % 2 == 0)}, 'derived')
        return [b, b.steering_matrix(S(e, p), p['wl'], perturbations='known'), b.get_perturbation_free_copy()]

    @op
    def transfer(e, p):
        """The imperfections of one array given to another one."""
        from doatools.model.arrays import ArrayDesign
        a = A(e, p)
        b = ArrayDesign(a.element_locations[::-1] * (0.5 + p['x']), 'other').get_perturbed_copy(a.perturbations)
        return [b, b.steering_matrix(S(e, p), p['wl'])]

    @op
    def weights(e, p):
        a = A(e, p)
        w = e.helper(('w', p['a']), lambda: WeightFunction1D(a))
        q = p['x'] % 2 == 1
        d = w.differences()
        r = [d, w.weights(), w.get_central_ula_size(q), w.get_coarray_selection_matrix(q), len(w), [w(int(i)) for i in d], w.indices_of(p['y'])]
        return r

    @op
    def differences(e, p):
        return [compute_location_differences(A(e, p).element_locations), compute_unique_location_differences(A(e, p).element_locations)]

    @op
    def augment(e, p):
        a = A(e, p)
        b = e.helper(('acm', p['a']), lambda: E.CoarrayACMBuilder1D(a))
        R = MA(e, p)
        if R.shape[0] != a.size:
            raise Skip()
        return [b.transform(R, ['ss', 'da'][p['x'] % 2]), b.get_virtual_ula(), b.input_size, b.output_size]

    @op
    def crb_sto(e, p):
        s = F(e, p)
        return PF.crb_sto_farfield_1d(A(e, p), s, p['wl'], e.helper('p', lambda: np.linspace(1, 2, 3))[:s.size], 0.5, 7, ['full', 'diag', 'mean_diag'][p['x'] % 3])

    @op
    def crb_stouc(e, p):
        s = F(e, p)
        return PF.crb_stouc_farfield_1d(A(e, p), s, p['wl'], e.helper('p', lambda: np.linspace(1, 2, 3))[:s.size], 0.5, 7)

    @op
    def crb_det(e, p):
        s = F(e, p)
        return PF.crb_det_farfield_1d(A(e, p), s, p['wl'], e.helper('P', lambda: np.diag([1.0, 1.5, 2.0]) + 0.2)[:s.size, :s.size], 0.5, 7)

    @op
    def ecov(e, p):
        s = F(e, p)
        if s.size >= A(e, p).size:
            raise Skip()
        return PF.ecov_music_1d(A(e, p), s, p['wl'], 1.5, 0.5, 7, ['all', 'known', 'none'][p['y'] % 3])

    @op
    def ecov_coarray(e, p):
        return PF.ecov_coarray_music_1d(A(e, p), F(e, p), p['wl'], e.helper('p', lambda: np.linspace(1, 2, 3))[:F(e, p).size], 0.5, 7)

    @op
    def root_music(e, p):
        R = M(e, p)
        if R.shape[0] < 2:
            raise Skip()
        est = e.helper('rootmusic', lambda: E.RootMUSIC1D(1.0))
        return est.estimate(R, 1 + p['x'] % (R.shape[0] - 1), [None, 0.3, 0.5][p['y'] % 3], unit=['sin', 'rad', 'deg'][p['y'] // 4])

    @op
    def esprit(e, p):
        R = M(e, p)
        if R.shape[0] < 3:
            raise Skip()
        kw = {}
        if p['y'] % 3:
            kw['d0'] = [0.3, 0.5][p['y'] % 3 - 1]
        if p['y'] % 4 == 1:
            kw['displacement'] = 2
        elif p['y'] % 4 == 2:
            kw['row_weights'] = e.helper(('weights', R.shape[0]), lambda: np.linspace(1, 2, R.shape[0] - 1))
        return e.helper('esprit', lambda: E.Esprit1D(1.0)).estimate(R, 1, unit='sin', formulation=['ls', 'tls'][p['x'] % 2], **kw)

    @op
    def spectrum(e, p):
        a = A(e, p)
        if MA(e, p).shape[0] != a.size or a.size < 2:
            raise Skip()
        cls = [E.BartlettBeamformer, E.MVDRBeamformer, E.MUSIC, E.MinNorm][p['y'] % 4]
        g = e.helper('grid', lambda: E.FarField1DSearchGrid(size=40))
        est = e.helper(('est', p['a'], p['y'] % 4), lambda: cls(a, 1.0, g))
        return est.estimate(MA(e, p), 1 + p['x'] // 3 % (a.size - 1), return_spectrum=True, refine_estimates=p['x'] % 3 == 0)

    @op
    def ml(e, p):
        a, s = A(e, p), F(e, p)
        if MA(e, p).shape[0] != a.size or s.size >= a.size or a.size > 6:
            raise Skip()
        cls = [E.AMLEstimator, E.CMLEstimator, E.WSFEstimator][p['y'] % 3]
        est = e.helper(('ml', p['a'], p['y'] % 3), lambda: cls(a, 1.0))
        r = est.estimate(MA(e, p), s, options={'maxiter': 3})
        return [r, est.get_last_estimates()]

    @op
    def nll(e, p):
        a, s = A(e, p), S(e, p)
        if MA(e, p).shape[0] != a.size:
            raise Skip()
        return f_nll_stouc(MA(e, p), a, s, p['wl'], np.full(s.size, 1.2), 0.4)

    @op
    def smooth(e, p):
        return PP.spatial_smooth(M(e, p), 1 + p['x'] % M(e, p).shape[0], p['y'] % 2 == 1)

    @op
    def reduce(e, p):
        return np.abs(np.linalg.norm(PP.l1_svd(M(e, p), 1)))

    @op
    def order(e, p):
        x = M(e, p)
        v = e.helper(('eigenvalues', x.shape[0]), lambda: np.linspace(0.2, 1.0, x.shape[0]) ** 2)
        r = [f(q, 20) for f in (SN.aic, SN.mdl) for q in (x, v)]
        return r + [SN.sorte(q) for q in (x, v) if x.shape[0] > 3]

    @op
    def snapshots(e, p):
        a, s = A(e, p), S(e, p)
        c = e.helper('C', lambda: np.linspace(1, 2, 3))
        sig = e.helper(('sig', s.size, p['x'] % 2), lambda: (ComplexStochasticSignal if p['x'] % 2 else RandomPhaseSignal)(s.size, c[:s.size]))
        noise = e.helper(('noise', a.size), lambda: ComplexStochasticSignal(a.size, 0.1))
        np.random.seed(p['seed'] % 1000)
        return get_narrowband_snapshots(a, s, p['wl'], sig, noise, 1 + p['y'] // 3, True)

    def sparse(e, p, name, make, data, *args):
        """Spectrum of a sparse estimator on a grid of four directions."""
        a = A(e, p)
        if MA(e, p).shape[0] != a.size or a.size < 4:
            raise Skip()
        g = e.helper('coarse', lambda: E.FarField1DSearchGrid(size=4, unit='sin'))
        est = e.helper((name, p['a'], p['x'] % 2), lambda: make(a, g, p['x'] % 2))
        if np.linalg.cond(a.steering_matrix(g.source_placement, 1.0)) > 8:
            raise Skip()  # the solution is sensitive to the accuracy of the solver
        sp = est.estimate(data, 1, [0.1, 0.5, 0.0][p['y'] % 3], *args, solver_options={'solver': 'CLARABEL'}, return_spectrum=True)[-1]
        return np.append(sp, 0.1 * np.max(np.abs(data)))  # with the scale of the data

    @op
    def scm(e, p):
        return sparse(e, p, 'scm', lambda a, g, x: E.SparseCovarianceMatching(a, 1.0, g, noise_known=bool(x)), MA(e, p), *([0.3] if p['x'] % 2 else []))

    @op
    def gse(e, p):
        return sparse(e, p, 'gse', lambda a, g, x: E.GroupSparseEstimator(a, 1.0, g, a.size), MA(e, p))

    return o


NAMES = ['steering', 'phases', 'spherical', 'convert', 'select', 'locations', 'derive', 'transfer', 'weights', 'differences', 'augment', 'crb_sto', 'crb_stouc', 'crb_det', 'ecov',
         'ecov_coarray', 'root_music', 'esprit', 'spectrum', 'ml', 'nll', 'smooth', 'reduce', 'order', 'snapshots']


def variant(R, p):
    """Another covariance matrix; most share some summary (trace, norm, diagonal, eigenvalues) with the present one."""
    m = R.shape[0]
    if m == 1:
        return R * (2 if np.abs(R[0, 0]) < 1e3 else 0.01)
    how = p['x'] % 6
    if how == 0:
        return np.array(R.conj())
    if how == 1:
        d = np.exp(1j * rs(p['seed']).uniform(0, 6, m))
        return d[:, None] * R * d.conj()
    if how == 2:
        return np.array(R[::-1, ::-1])
    if how == 3:
        return R * (3.0 if np.max(np.abs(R)) < 1e3 else 1e-2)
    return eig_cov(p['seed'], m, min(1, m - 1), 8.0)


def examine(env, state, init):
    for a, keep, (spec, perts) in zip(env.arrays, init, state['arrays']):
        equal(flat(a), keep, 'array after the call')
        require(len(a.perturbations) == len(perts), 'perturbations of the array')
    for s, q in zip(env.sources, state['sources']):
        same(s.locations, np.array(q['loc'], dtype=float).reshape(s.locations.shape), 'source locations after the call')
        require(set(s.units) == {q['unit']}, 'source units after the call')
    for R, r in zip(env.R, state['R']):
        same(R, r, 'matrix after the call')
    if 'p' in env.helpers:
        same(env.helpers['p'], np.linspace(1, 2, 3), 'power vector after the call')
    if 'P' in env.helpers:
        same(env.helpers['P'], np.diag([1.0, 1.5, 2.0]) + 0.2, 'source covariance after the call')
    for key, x in env.helpers.items():
        if key[0] == 'eigenvalues':
            same(x, np.linspace(0.2, 1.0, key[1]) ** 2, 'eigenvalues after the call')
        if key[0] == 'weights':
            same(x, np.linspace(1, 2, key[1] - 1), 'row weights after the call')
    if 'C' in env.helpers:
        same(env.helpers['C'], np.linspace(1, 2, 3), 'amplitudes after the call')


def attempt(f, env, p):
    try:
        return flat(f(env, p)), None, None
    except Skip:
        raise
    except Exception as x:
        return None, type(x).__name__, x


def check_history(c):
    state = {'arrays': [[s, p] for s, p in c['arrays']], 'sources': [dict(q) for q in c['sources']], 'R': []}
    for i, m in enumerate((array_size(c['arrays'][0][0]), array_size(c['arrays'][1][0]))):
        state['R'].append(eig_cov(c['seed'] + i, m, min(1, m - 1), 15.0) if m > 1 else np.eye(1) * (1 + 0j))
    env = Env(state)
    init = [[q.copy() for q in flat(a)] for a in env.arrays]
    table = ops()
    handed = []
    good = 0
    err0 = np.geterr()
    for p in c['ops']:
        kind = p['op']
        if kind == 'reset':
            state['R'][p['r']] = variant(state['R'][p['r']], p)
            env.R[p['r']] = np.array(state['R'][p['r']])
            continue
        if kind == 'move':
            q = state['sources'][p['s']]
            loc = np.array(q['loc'], dtype=float)
            w = rs(p['seed']).uniform(0.3, 0.9, loc.shape) * np.where(np.abs(loc) > 1e-3, 1, 0) + 0.001 * np.arange(loc.shape[0]).reshape((-1,) + (1,) * (loc.ndim - 1))
            new = loc * w if p['x'] % 2 else [loc * 0.7, loc[::-1].copy(), -loc, loc * 0.9][p['x'] // 2 % 4]
            q['loc'] = new.tolist()
            env.sources[p['s']].locations[...] = new
            continue
        if kind == 'matrix':
            R = state['R'][p['r']]
            new = variant(R, p)
            state['R'][p['r']] = new
            env.R[p['r']][...] = new
            continue
        f = table[kind]
        rng = np.random.get_state()
        try:
            got, bad, x = attempt(f, env, p)
            after = np.random.get_state()
            ref, ferr, y = attempt(f, Env(state), p)
        except Skip:
            continue
        if kind != 'snapshots':
            require(rng[0] == after[0] and np.array_equal(rng[1], after[1]) and rng[2:] == after[2:], '{} used the global random generator', kind)
        require(np.geterr() == err0, '{} changed the error handling of numpy', kind)
        if kind.startswith(('crb', 'ecov')) and ('LinAlgError' in (bad, ferr) or (ref and not np.all(np.abs(ref[0]) < 1e6))):
            continue  # singular problem: the values are rounding noise
        require(bad == ferr, '{}: {!r} after a history, {!r} on fresh objects', kind, x or 'ok', y or 'ok')
        if bad is None:
            good += 1
            tol = 1e-3 if kind in ('scm', 'gse') else 1e-7
            equal(got, ref, kind + ' after a history vs. on fresh objects', tol)
            again, bad, x = attempt(f, env, p)
            require(bad is None, '{} repeated: {!r}', kind, x)
            equal(again, ref, kind + ' repeated', tol)
        examine(env, state, init)
    return 'calls%d' % min(good, 8) if good >= 3 else None


def handed_check(c):
    """Results handed out are not views of internal state and do not change later."""
    state = {'arrays': [[s, p] for s, p in c['arrays']], 'sources': [dict(q) for q in c['sources']], 'R': []}
    for i in range(2):
        m = array_size(c['arrays'][i][0])
        state['R'].append(eig_cov(c['seed'] + i, m, min(1, m - 1), 15.0) if m > 1 else np.eye(1) * (1 + 0j))
    env = Env(state)
    table = ops()
    kept = []
    for p in c['ops']:
        if p['op'] in ('move', 'matrix', 'select', 'locations', 'derive'):
            continue
        try:
            r = table[p['op']](env, p)
        except Exception:
            continue
        raw = arrays_of(r)
        kept.append((p['op'], raw, [q.copy() for q in raw]))
        for name, x, y in kept:
            for u, v in zip(x, y):
                require(np.array_equal(u, v, equal_nan=v.dtype.kind in "fc"), 'an earlier result of {} changed during {}', name, p['op'])
        if p['x'] % 3 == 0:
            for q in raw:
                if q.flags.writeable:
                    q[...] = 0 if q.dtype.kind != 'b' else False
            kept.pop()
            try:
                again = arrays_of(table[p['op']](env, p))
                ref = arrays_of(table[p['op']](Env(state), p))
            except Exception as e:
                fail('{} fails after its result was edited: {!r}', p['op'], e)
            if p['op'].startswith(('crb', 'ecov')) and not all(np.all(np.abs(v) < 1e6) for v in ref):
                continue
            for u, v in zip(again, ref):
                equal([u], [v], p['op'] + ' after the caller edited an earlier result')
    return 'kept%d' % min(6, len(kept)) if len(kept) >= 2 else None


def arrays_of(r):
    if isinstance(r, np.ndarray):
        return [r]
    if hasattr(r, 'locations') and hasattr(r, 'units'):
        return [r.locations]
    if isinstance(r, (tuple, list)):
        return [q for x in r for q in arrays_of(x)]
    return []


@st.composite
def hist(draw):
    arr = st.one_of(ulas(6, 2), ulas(6, 3), sparse1d(small=True), sparse1d(small=True), sparse1d(small=True), planar(2), generic_arrays(max_m=5))
    arrays = [[draw(arr), draw(st.one_of(st.just([]), st.just([]), pert_list(2)))] for _ in range(2)]
    srcs = [draw(st.one_of(far1d(max_k=3, margin=0.05), far1d(max_k=3, margin=0.05), any_sources(3))) for _ in range(2)]
    focus = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3))
    op = st.fixed_dictionaries({'op': st.one_of(st.sampled_from(NAMES + ['move', 'matrix']), st.sampled_from(focus + ['move', 'matrix'])), 'a': st.integers(0, 1), 's': st.integers(0, 1), 'r': st.integers(0, 1),
                                'x': st.integers(0, 11), 'y': st.integers(0, 11), 'seed': st.integers(0, 10 ** 6), 'wl': st.sampled_from([1.0, 1.0, 0.4, 2.5])})
    return {'arrays': arrays, 'sources': srcs, 'seed': draw(seeds), 'ops': draw(st.lists(op, min_size=2, max_size=14))}


@st.composite
def episodes(draw, names=None):
    """Histories in which one call is made again after single changes of its inputs or options."""
    c = draw(hist())
    if draw(st.booleans()) and c['sources'][0]['type'] == 'far1d':
        # The same directions in another unit.
        from_, loc = c['sources'][0]['unit'], np.array(c['sources'][0]['loc'])
        to = draw(st.sampled_from([u for u in ('rad', 'deg', 'sin') if u != from_]))
        ang = {'rad': loc, 'deg': np.deg2rad(loc), 'sin': np.arcsin(np.clip(loc, -1, 1))}[from_]
        new = {'rad': ang, 'deg': np.rad2deg(ang), 'sin': np.sin(ang)}[to]
        c['sources'][1] = dict(c['sources'][0], unit=to, loc=np.clip(new, *{'rad': (-1.57, 1.57), 'deg': (-90, 90), 'sin': (-1, 1)}[to]).tolist())
    if draw(st.booleans()):
        c['arrays'][1][0] = c['arrays'][0][0]
    i = st.integers(0, 11)
    ops = []
    for _ in range(draw(st.integers(1, 3))):
        a = draw(st.integers(0, 1))
        p = {'op': draw(st.sampled_from(names or NAMES + STATEFUL)), 'a': a, 's': draw(st.integers(0, 1)), 'r': a, 'x': draw(i), 'y': draw(i), 'seed': draw(st.integers(0, 10 ** 6)),
             'wl': draw(st.sampled_from([1.0, 1.0, 0.4, 2.5]))}
        ops.append(p)
        for _ in range(draw(st.integers(1, 3))):
            change = draw(st.sampled_from(['move', 'matrix', 'matrix', 'reset', 'a', 's', 'x', 'y', 'seed', 'wl', 'op']))
            if change in ('move', 'matrix', 'reset'):
                ops.append(dict(p, op=change, x=draw(i), seed=draw(st.integers(0, 10 ** 6))))
            elif change in ('a', 's'):
                p = dict(p, **{change: 1 - p[change]})
                p['r'] = p['a']
            elif change == 'seed':
                p = dict(p, seed=draw(st.integers(0, 10 ** 6)))
            elif change == 'wl':
                p = dict(p, wl=draw(st.sampled_from([1.0, 0.4, 2.5])))
            elif change == 'op':
                ops.append(dict(p, op=draw(st.sampled_from(NAMES))))
            else:
                p = dict(p, **{change: draw(i)})
            ops.append(p)
    return dict(c, ops=ops)


STATEFUL = ['spectrum', 'spectrum', 'spectrum', 'ml', 'ml', 'esprit', 'root_music', 'augment', 'weights', 'snapshots', 'transfer']

SUBS = [Sub('sparse', episodes(['scm', 'gse']).filter(lambda c: array_size(c['arrays'][0][0]) > 3), check_history, 150), Sub('episodes', episodes(), check_history, 2500), Sub('history', hist(), check_history, 2000), Sub('results', hist(), handed_check, 1200)]
