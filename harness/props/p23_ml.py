from hypothesis import strategies as st

from ..common import *
from ..core import Sub
from ..est import *

ID = 'P23'
TITLE = 'AML, CML and WSF minimize their documented criteria within valid bounds'
PROP = {
    'statement': 'Started from an initial guess, the AML, CML and WSF estimators return, when successful, source locations of the same type, unit and number inside the valid range of the unit that are a local minimizer of the documented criterion (log-determinant, projection residual, or weighted subspace residual) for the array with its known imperfections, never worse than the guess; for ideal covariances and a nearby guess these are the true locations, for 1D, 2D and near-field sources. Neither the guess, the covariance matrix nor earlier results are modified, integer-valued guesses behave like float ones, repeated use gives the results of a fresh estimator, and get_last_estimates returns an independent copy of the latest estimates. Too many sources and covariance matrices of the wrong size are rejected.',
    'quantifier': {'over': ['inputs', 'configurations', 'histories'], 'text': 'all estimators, arrays, known imperfections, source types/units, guesses, covariance matrices and call sequences'},
    'why_tests_cant': 'No test covers the ML estimators.',
    'anchors': {'files': ['doatools/estimation/ml.py', 'doatools/model/sources.py'],
                'state': [{'name': 'current estimates', 'meaning': 'updated in place by the optimizer', 'where': 'CovarianceBasedMLEstimator._estimates'}],
                'mechanism': [{'name': 'criteria', 'where': '_eval_nll of AMLEstimator, CMLEstimator, WSFEstimator'}],
                'observe_at': ['estimate', 'get_last_estimates', 'get_max_resolvable_sources']},
}
RULE = ('Arrays with known imperfections, source sets of all types, powers, noise, sample or ideal covariances and guesses near the truth are generated; criteria are '
        're-evaluated independently and re-minimized from the estimate. Non-trivial: successful optimization.')
ASSUMPTIONS = ['Local minimality is judged up to 10% of the achievable decrease plus 1e-3 (relative) (tolerances of the L-BFGS-B optimizer used by the library).']

CLS = {'aml': 'AMLEstimator', 'cml': 'CMLEstimator', 'wsf': 'WSFEstimator'}
HALF = {'rad': math.pi / 2, 'deg': 90.0, 'sin': 1.0}


def objective(method, A, R):
    m, k = A.shape
    P = A @ np.linalg.pinv(A)
    Q = np.eye(m) - P
    if method == 'cml':
        return float(np.trace(Q @ R).real)
    if method == 'aml':
        H = P @ R @ P + np.trace(Q @ R).real / (m - k) * Q
        w = np.linalg.eigvalsh(0.5 * (H + H.conj().T))
        return float(np.sum(np.log(w))) if w[0] > 0 else math.inf
    v, E = np.linalg.eigh(R)
    s2 = float(np.mean(v[:m - k]))
    W = np.diag((v[m - k:] - s2) ** 2 / v[m - k:])
    Es = E[:, m - k:]
    return float(np.trace(Q @ Es @ W @ Es.conj().T).real)


def locate(case):
    """Truth in the units of the scenario."""
    t, unit = case['type'], case['unit']
    if t == 'far1d':
        q = HALF[unit]
        s = np.array(case['s'])  # sines
        v = {'rad': np.arcsin(s), 'deg': np.degrees(np.arcsin(s)), 'sin': s}[unit]
        return v, np.full(len(s), 0.04 * q)
    if t == 'far2d':
        q = 180 / math.pi if unit == 'deg' else 1.0
        v = np.array([[a, 0.25 + 0.5 * b] for a, b in case['ae']]) * q
        return v, np.full(v.shape, 0.05 * q)
    return np.array([[x, 3 + 2 * y] for x, y in case['xy']]), np.full((len(case['xy']), 2), 0.1)


def curvature(f, n, h=0.02):
    """Smallest eigenvalue of the Hessian at zero (finite differences)."""
    H = np.zeros((n, n))
    e = np.eye(n) * h
    f0 = f(np.zeros(n))
    for i in range(n):
        for j in range(i + 1):
            if i == j:
                H[i, i] = (f(e[i]) + f(-e[i]) - 2 * f0) / h ** 2
            else:
                H[i, j] = H[j, i] = (f(e[i] + e[j]) - f(e[i] - e[j]) - f(e[j] - e[i]) + f(-e[i] - e[j])) / (4 * h ** 2)
    return float(np.linalg.eigvalsh(H)[0]) if np.all(np.isfinite(H)) else 0.0


def check_ml(case):
    from doatools import estimation as E
    from scipy.optimize import minimize
    method, t = case['method'], case['type']
    spec, perts = case['array'], case['perts']
    m = array_size(spec)
    truth, step = locate(case)
    k = len(truth)
    if k > m - 1:
        return None
    order = rs(case['seed'] + 3).permutation(k)
    truth, step = truth[order], step[order]
    a = build_array(spec, perts)
    nom = nominal(spec, a)
    wl = case['wl']
    unit = case['unit'] if t != 'near2d' else 'm'

    def atoms(loc, which='known'):
        return ref_atoms(spec, perts, m, nom, {'type': t, 'unit': unit, 'loc': np.asarray(loc).tolist()}, wl, which)

    At = atoms(truth)
    if np.linalg.cond(At) > 30:
        return None
    r = rs(case['seed'])
    Pm = herm_pd(r, k, 0.5) if case['corr'] else np.diag(r.uniform(0.5, 2, k)).astype(complex)
    sigma = case['sigma']
    if case['cov'] == 'ideal':
        R = At @ Pm @ At.conj().T + sigma * np.eye(m)
    else:
        n = [m + 1, 2 * m, 60][case['seed'] % 3]
        L = np.linalg.cholesky(Pm)
        y = At @ (L @ randc(r, k, n)) + math.sqrt(sigma) * randc(r, m, n)
        R = y @ y.conj().T / n
    R = 0.5 * (R + R.conj().T)
    guess = truth + step * r.uniform(-1, 1, truth.shape) * case['dist']
    if case['int']:
        guess = np.round(guess)
        if t == 'far1d' and unit != 'deg' or t == 'far2d' and unit != 'deg':
            return None
        if t == 'near2d' and np.any(np.abs(guess - truth) > 0.2):
            return None
        guess = guess.astype(int)
    sg = {'type': t, 'unit': unit, 'loc': guess.tolist()}
    if t == 'far1d':
        h = HALF[unit]
        guess = np.clip(guess, -h, h)
    from doatools.model import sources as S
    s0 = {'far1d': lambda: S.FarField1DSourcePlacement(guess, unit), 'far2d': lambda: S.FarField2DSourcePlacement(guess, unit),
          'near2d': lambda: S.NearField2DSourcePlacement(guess)}[t]()
    keep = np.array(s0.locations, dtype=float)
    form = ['plain', 'fortran', 'view', 'readonly'][case['seed'] // 7 % 4]
    R = store(R, form)
    R0 = R.copy()
    est = getattr(E, CLS[method])(a, wl)
    raises(RuntimeError, est.get_last_estimates, 'estimates before any estimation')
    require(est.get_max_resolvable_sources() == m - 1, 'get_max_resolvable_sources')
    if case['reuse']:
        # Unrelated calls first.
        for q in range([1, 1, 2, 3, 5][case['seed'] // 11 % 5]):
            j = max(1, k - 1 - q % 2)
            prior = s0[:j]
            if q % 2 == case['seed'] // 5 % 2 and t != 'near2d':
                prior = s0.as_unit('deg' if unit == 'rad' else 'rad')  # as many sources in another unit
            est.estimate(eig_cov(case['seed'] + 5 + q, m, prior.size), prior, options={'maxiter': 3} if q else {})
    trace, traced, sharp = [], '', ''
    twin = getattr(E, CLS[method])(a, wl)

    def watch(intermediate_result):
        trace.append((np.array(intermediate_result.x, dtype=float), float(intermediate_result.fun)))

    ok, e = est.estimate(R, s0, callback=watch)
    same(R, R0, 'covariance matrix')
    same(np.asarray(s0.locations, dtype=float), keep, 'initial guess after the estimation')
    fresh = getattr(E, CLS[method])(build_array(spec, perts), wl).estimate(store(R0, form), build_like(S, t, keep, unit))
    require(bool(fresh[0]) == bool(ok), 'outcome depends on earlier calls')
    if not ok:
        require(e is None, 'estimates of a failed optimization')
        return None
    close(e.locations, fresh[1].locations, 'estimates vs. a fresh estimator with a float guess', 0, 1e-5 * float(np.max(step)))
    require(type(e) is type(s0) and tuple(e.units) == tuple(s0.units) and e.size == k, 'type, unit or number of estimates')
    loc = np.array(e.locations, dtype=float)
    require(loc.shape == keep.shape, 'shape of estimates {}', loc.shape)
    ranges = s0.valid_ranges
    flat = loc.reshape((k, -1))
    for j, (lo, hi) in enumerate(ranges):
        require(np.all(flat[:, j] >= lo) and np.all(flat[:, j] <= hi), 'estimates {} outside of [{}, {}]', flat[:, j], lo, hi)
    f0, f1 = objective(method, atoms(keep), R), objective(method, atoms(loc), R)
    require(f1 <= f0 + 1e-9 * (1 + abs(f0)), 'criterion got worse: {} -> {}', f0, f1)
    if trace:
        close(loc.flatten(), trace[-1][0], 'estimates vs. the final iterate of the optimizer', 1e-12, 1e-12)
    # The values that the optimizer saw are the documented criterion (up to scaling and offset).
    if len(trace) >= 4:
        fs = np.array([q[1] for q in trace])
        gs = np.array([objective(method, atoms(q[0].reshape(keep.shape)), R) for q in trace])
        if np.all(np.isfinite(gs)) and np.ptp(gs) > 1e-6 * (1 + abs(gs[0])):
            X = np.vstack((gs - gs[-1], np.ones(len(gs)))).T
            c, _, rank, _ = np.linalg.lstsq(X, fs, rcond=None)
            require(c[0] > 0, 'the optimized criterion decreases with the documented one')
            close(X @ c, fs, 'optimized criterion at the iterates vs. the documented one', 0, 1e-6 * np.ptp(fs) + 1e-10 * (1 + np.max(np.abs(fs))))
            traced = '/traced'
    # Re-minimize from the estimate.
    sc = step.flatten()
    lo = np.tile([q[0] for q in ranges], k)
    hi = np.tile([q[1] for q in ranges], k)
    x1 = loc.flatten()
    fun = lambda z: objective(method, atoms(np.clip(x1 + z * sc, lo, hi).reshape(loc.shape)), R)
    best = min(f1, minimize(fun, np.zeros(x1.size), method='L-BFGS-B', options={'maxiter': 100}, bounds=[(-1, 1)] * x1.size).fun)
    stalled = np.max(np.abs(x1 - keep.flatten()) / sc) < 1e-6  # did the optimizer itself give up at the guess?
    if stalled:
        # Only excused when the same optimizer cannot improve the documented criterion either.
        raw = minimize(lambda x: objective(method, atoms(np.clip(x, lo, hi).reshape(loc.shape)), R), keep.flatten(), method='L-BFGS-B', bounds=list(zip(lo, hi)))
        require(not (raw.success and raw.fun < f0 - 1e-2 * (1 + abs(f0))), 'the estimates are the guess (criterion {}), although {} is reached from there', f0, raw.fun)
    require(stalled or f1 - best <= 0.1 * max(f0 - best, 0) + 1e-3 * (1 + abs(best)), 'not a local minimum of the criterion: {} but {} nearby (guess {})', f1, best, f0)
    if case['cov'] == 'ideal' and objective(method, atoms(keep), R) >= f1:
        fb = objective(method, At, R)
        tr = truth.flatten()
        gt = lambda z: objective(method, atoms(np.clip(tr + z * sc, lo, hi).reshape(loc.shape)), R)
        z0 = (keep.flatten() - tr) / sc
        basin = all(minimize(gt, z0 + d, method='L-BFGS-B', bounds=[(-3, 3)] * tr.size).fun <= fb + 0.1 * max(f0 - fb, 0) + 1e-3 * (1 + abs(fb))
                    for d in (0.0, 0.05, -0.05))
        # The first line search may leave the neighbourhood of the guess: the same optimizer on the documented criterion has to get there as well.
        basin = basin and not stalled and all(minimize(lambda x: objective(method, atoms(np.clip(x, lo, hi).reshape(loc.shape)), R), np.clip(keep.flatten() + d * sc, lo, hi),
                                                       method='L-BFGS-B', bounds=list(zip(lo, hi))).fun <= fb + 0.1 * max(f0 - fb, 0) + 1e-3 * (1 + abs(fb)) for d in (0.0, 0.03, -0.03))
        if basin:
            require(f1 <= fb + 0.1 * max(f0 - fb, 0) + 1e-3 * (1 + abs(fb)), 'ideal covariance: criterion {} instead of {} at the truth', f1, fb)
        if basin and m >= k + 2 and curvature(lambda z: objective(method, atoms((truth.flatten() + z * sc).reshape(loc.shape)), R), x1.size) > 0.1 * (1 + abs(fb)) + 8 * max(f0 - fb, 0):
            sharp = '/located'
            close(loc, truth, 'estimates from an ideal covariance', 0, 0.3 * float(np.max(step)))
    if len(trace) >= 4 and f0 - f1 > 0.05 * (1 + abs(f0)):
        # The optimization continues after its first iteration: stopped there, it was not successful.
        out = twin.estimate(R, s0, options={'maxiter': 1})
        require(not out[0] and out[1] is None, 'an optimization stopped after one of {} iterations is reported as {}', len(trace), out[0])
        traced += '/stop'
    last = est.get_last_estimates()
    same(last.locations, loc, 'get_last_estimates')
    last.locations[...] = 0.0
    same(est.get_last_estimates().locations, loc, 'get_last_estimates after editing a returned copy')
    e.locations[...] = 0.1
    same(est.get_last_estimates().locations, loc, 'get_last_estimates after editing the estimates')
    e2 = est.estimate(R, s0)[1]
    close(e2.locations, loc, 'repeated estimation', 0, 1e-5 * float(np.max(step)))
    return '%s/%s/%s%s%s' % (method, t, case['cov'], '/pert' if perts else '', sharp + traced)


def build_like(S, t, loc, unit):
    loc = np.array(loc, dtype=float)
    return S.NearField2DSourcePlacement(loc) if t == 'near2d' else \
        (S.FarField1DSourcePlacement if t == 'far1d' else S.FarField2DSourcePlacement)(loc, unit)


def wide():
    return st.one_of(st.builds(lambda n, r: {'kind': 'uca', 'n': n, 'r': r}, st.integers(4, 9), logfl(0.5, 1.2)),
                     st.builds(lambda m, n, d: {'kind': 'ura', 'm': m, 'n': n, 'd0': d}, st.integers(2, 4), st.integers(2, 3), fl(0.4, 0.6)))


@st.composite
def scen(draw):
    t = draw(st.sampled_from(['far1d', 'far1d', 'far2d', 'near2d']))
    planar = wide()
    arr = draw(st.one_of(ulas(8, 3, st.just(0.5)), sparse1d(st.just(0.5), small=True), planar) if t == 'far1d'
               else st.one_of(planar, generic_arrays(2, 5, 9, 1.5)))
    c = {'type': t, 'method': draw(st.sampled_from(['aml', 'cml', 'wsf'])), 'array': arr, 'perts': draw(st.one_of(st.just([]), st.just([]), pert_list(2, known=True), pert_list(2))),
         'wl': 1.0, 'unit': draw(st.sampled_from(['rad', 'deg', 'sin'] if t == 'far1d' else ['rad', 'deg'])),
         'corr': draw(st.booleans()), 'sigma': draw(st.sampled_from([0.01, 0.1, 1.0])), 'cov': draw(st.sampled_from(['ideal', 'sample'])), 'seed': draw(seeds),
         'dist': draw(st.sampled_from([0.0, 0.25, 0.5, 1.0])), 'int': draw(st.integers(0, 5)) == 5, 'reuse': draw(st.booleans())}
    k = draw(st.integers(1, 3))
    if t == 'far1d':
        c['s'] = separated(draw, k, -0.9, 0.9, 0.3)
    elif t == 'far2d':
        c['ae'] = [[x, draw(fl(0, 1))] for x in separated(draw, k, -2.9, 2.9, 0.8)]
    else:
        c['xy'] = [[x, draw(fl(0, 1))] for x in separated(draw, k, -4, 4, 1.5)]
    return c


def check_bounds(case):
    """Sources at the ends of the valid range: the optimizer must not leave it."""
    from doatools import estimation as E
    from doatools.model.sources import FarField1DSourcePlacement
    unit = case['unit']
    h = HALF[unit]
    m = case['m']
    spec = {'kind': 'ula', 'n': m, 'd0': 0.5}
    a = build_array(spec)
    r = rs(case['seed'])
    # Electrical angle beyond the end of the range in the mean (aliased), so that the criterion pulls outwards.
    u = np.array([0.5 - case['eps'], 0.1])[:case['k']]
    A = np.exp(2j * math.pi * np.outer(np.arange(m), u))
    y = A @ randc(r, len(u), 40) + 0.3 * randc(r, m, 40)
    R = y @ y.conj().T / 40
    g = np.array([h * 0.97, 0.2 * h])[:case['k']]
    s0 = FarField1DSourcePlacement(g, unit)
    ok, e = getattr(E, CLS[case['method']])(a, 1.0).estimate(R, s0)
    if not ok:
        return None
    require(np.all(np.abs(e.locations) <= h), 'estimates {} leave the valid range +-{}', e.locations, h)
    return 'edge' if np.max(np.abs(e.locations)) > 0.99 * h else 'inside'


def check_bounds_2d(case):
    """The true direction lies just beyond the zenith as seen from the guess: the way there leaves the valid elevations."""
    from doatools import estimation as E
    from doatools.model.sources import FarField2DSourcePlacement
    q = 180 / math.pi if case['unit'] == 'deg' else 1.0
    spec = {'kind': 'ura', 'm': 3, 'n': 3, 'd0': 0.5} if case['ura'] else {'kind': 'uca', 'n': 7, 'r': 0.6}
    m = array_size(spec)
    a = build_array(spec)
    r = rs(case['seed'])
    sgn = -1 if case['low'] else 1
    az = case['az'] * 0.9
    nom = nominal(spec, a)
    far = az + math.pi if az < 0 else az - math.pi
    truth = [[far, sgn * (math.pi / 2 - case['eps'])]]
    A = ref_steering(nom, {'type': 'far2d', 'unit': 'rad', 'loc': truth}, 1.0)
    y = A @ randc(r, 1, 60) + 0.1 * randc(r, m, 60)
    R = y @ y.conj().T / 60
    s0 = FarField2DSourcePlacement(np.array([[az, sgn * (math.pi / 2 - 0.1)]]) * q, case['unit'])
    ok, e = getattr(E, CLS[case['method']])(a, 1.0).estimate(R, s0)
    if not ok:
        return None
    x = e.locations[0] / q
    require(abs(x[0]) <= math.pi * (1 + 1e-12) and abs(x[1]) <= math.pi / 2 * (1 + 1e-12), 'estimate {} leaves the valid ranges', x)
    return 'edge' if abs(x[1]) > math.pi / 2 * 0.999 else 'inside'


def check_reject(case):
    from doatools import estimation as E
    from doatools.model.sources import FarField1DSourcePlacement
    m = case['m']
    a = build_array({'kind': 'ula', 'n': m, 'd0': 0.5})
    est = getattr(E, CLS[case['method']])(a, 1.0)
    src = FarField1DSourcePlacement(np.linspace(-1, 1, m + case['x']), 'rad')
    raises(ValueError, lambda: est.estimate(np.eye(m), src), 'too many sources')
    one = FarField1DSourcePlacement(np.array([0.1]), 'rad')
    raises(ValueError, lambda: est.estimate(np.eye(m + 1), one), 'covariance matrix of the wrong size')
    raises(ValueError, lambda: est.estimate(np.ones((m, m + 1)), one), 'non-square covariance matrix')
    raises(ValueError, lambda: est.estimate(np.ones(m), one), 'vector instead of a matrix')
    # Options reach the optimizer: no iterations means no success.
    R = eig_cov(case['seed'], m, 1)
    out = est.estimate(R, one, options={'maxfun': 1, 'maxiter': 1})
    require(len(out) == 2 and (out[0] or out[1] is None), 'outcome of a truncated optimization {}', out)
    return case['method']


def check_nll(case):
    """The stochastic (uncorrelated) negative log-likelihood."""
    from doatools.estimation.ml import f_nll_stouc
    m = array_size(case['array'])
    a = build_array(case['array'])
    s = case['src']
    k = len(s['loc'])
    r = rs(case['seed'])
    p = r.uniform(0.1, 2, k) * case['scale']
    sg = case['sigma'] * case['scale']
    R = herm_pd(r, m) * case['scale']
    A = ref_steering(nominal(case['array'], a), s, case['wl'])
    Sg = A @ np.diag(p) @ A.conj().T + sg * np.eye(m)
    w = np.linalg.eigvalsh(Sg)
    want = float(np.sum(np.log(w)) + np.trace(np.linalg.inv(Sg) @ R).real)
    got = f_nll_stouc(R, a, build_sources(s), case['wl'], p, sg)
    close(float(got), want, 'negative log-likelihood', 1e-6, 1e-6)
    return 'k%d' % min(k, 3)


def check_success(case):
    """Well-separated sources, an ideal covariance and nearby guesses: the optimization does not keep failing."""
    from doatools import estimation as E
    from doatools.model import sources as S
    m, k, u = case['m'], case['k'], case['unit']
    r = rs(case['seed'])
    if case['type'] == 'far1d':
        spec = {'kind': 'ula', 'n': m, 'd0': 0.5}
        s = np.linspace(-0.7, 0.7, k + 2)[1:-1] + r.uniform(-0.04, 0.04, k)
        q = {'rad': 1.0, 'deg': 180 / math.pi, 'sin': 1.0}[u]
        t = s if u == 'sin' else np.arcsin(s) * q
        step = 0.2 / m * q
    else:
        spec = {'kind': 'uca', 'n': m + 3, 'r': 1.0}
        q = 180 / math.pi if u == 'deg' else 1.0
        u = 'deg' if u == 'deg' else 'rad'
        t = np.stack((np.linspace(-2.5, 2.5, k + 2)[1:-1], r.uniform(0.5, 0.9, k)), axis=1) * q
        step = 0.04 * q
    A = ref_steering(ref_locations(spec), {'type': case['type'], 'unit': u, 'loc': t.tolist()}, 1.0)
    R = A @ np.diag(r.uniform(0.5, 2, k)) @ A.conj().T + 0.1 * np.eye(len(A))
    est = getattr(E, CLS[case['method']])(build_array(spec), 1.0)
    for attempt in range(5):
        g = t + step * r.uniform(-1, 1, t.shape)
        ok, e = est.estimate(R, S.FarField1DSourcePlacement(g, u) if case['type'] == 'far1d' else S.FarField2DSourcePlacement(g, u))
        if ok:
            require(e.locations.shape == t.shape, '{} estimates', e.size)
            return '%s/%s' % (case['method'], case['type'])
    fail('five failures in a row for {} well-separated sources', k)


SUBS = [Sub('success', st.fixed_dictionaries({'m': st.integers(6, 12), 'k': st.integers(1, 3), 'unit': st.sampled_from(['rad', 'deg', 'sin']), 'type': st.sampled_from(['far1d', 'far1d', 'far2d']),
                                              'seed': seeds, 'method': st.sampled_from(['aml', 'cml', 'wsf'])}), check_success, 200),
        Sub('ml', scen(), check_ml, 1500),
        Sub('bounds', st.fixed_dictionaries({'unit': st.sampled_from(['rad', 'deg', 'sin']), 'm': st.integers(3, 8), 'k': st.integers(1, 2), 'eps': fl(-0.04, 0.02),
                                             'seed': seeds, 'method': st.sampled_from(['aml', 'cml', 'wsf'])}), check_bounds, 600),
        Sub('bounds2d', st.fixed_dictionaries({'unit': st.sampled_from(['rad', 'deg']), 'ura': st.booleans(), 'low': st.booleans(), 'az': fl(-3, 3), 'eps': fl(0.02, 0.5),
                                               'seed': seeds, 'method': st.sampled_from(['aml', 'cml', 'wsf'])}), check_bounds_2d, 300),
        Sub('reject', st.fixed_dictionaries({'m': st.integers(2, 8), 'x': st.integers(0, 2), 'seed': seeds, 'method': st.sampled_from(['aml', 'cml', 'wsf'])}), check_reject, 60),
        Sub('nll', st.fixed_dictionaries({'array': any_array(), 'src': any_sources(4), 'seed': seeds, 'scale': logfl(1e-3, 1e3), 'sigma': logfl(0.05, 2), 'wl': wavelengths}), check_nll, 800)]
