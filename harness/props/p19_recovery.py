from hypothesis import strategies as st

from ..common import *
from ..core import Sub
from ..est import *

ID = 'P19'
TITLE = 'Spectrum estimators recover on-grid sources exactly from ideal covariances'
PROP = {
    'statement': 'When the sources lie on (interior, non-adjacent) points of the search grid and the covariance matrix is ideal, MUSIC and MinNorm return exactly the true locations for up to M-1 sources in identifiable geometries, Bartlett does for a single source, and MVDR does at vanishing noise. This holds for 1D far-field, 2D far-field and 2D near-field sources, any array and wavelength, correlated sources, and for arrays whose imperfections are known. Off-grid sources on a uniform linear array are found by refined MUSIC to within the resolution of the finest grid.',
    'quantifier': {'over': ['inputs', 'configurations'], 'text': 'all identifiable arrays, known imperfections, source sets, powers/correlations and grids'},
    'why_tests_cant': 'Tests use one or two fixed scenarios per estimator without imperfections; 2D and near-field recovery with imperfect arrays is untested.',
    'anchors': {'files': ['doatools/estimation/core.py', 'doatools/estimation/music.py', 'doatools/estimation/min_norm.py', 'doatools/estimation/beamforming.py', 'doatools/model/arrays.py', 'doatools/model/sources.py'],
                'mechanism': [{'name': 'end-to-end estimation', 'where': 'estimate'}],
                'observe_at': ['estimate']},
}
RULE = ('Arrays with known imperfections, source subsets of grids and source covariances are generated. A case counts when the scenario is identifiable on the grid '
        '(reference null spectrum at least 1e-6 off the sources); others are skipped as trivial.')


def check_ongrid(case):
    method = case['method']
    perts = case['perts']
    spec = case['array']
    m = array_size(spec)
    a = build_array(spec, perts)
    nom = nominal(spec, a)
    gs = simple(case)
    g = build_grid(gs)
    src = grid_sources(gs)
    shape = tuple(len(q) for q in ref_axes(gs))
    k = 1 if method == 'bartlett' else min(case['k'], m - 1)
    if k < 1:
        return None
    # Choose k interior points, pairwise non-adjacent.
    chosen = []
    for c in case['pts']:
        p = tuple(1 + c[j] % (n - 2) for j, n in enumerate(shape))
        if all(max(abs(x - y) for x, y in zip(p, q)) > 1 for q in chosen):
            chosen.append(p)
        if len(chosen) == k:
            break
    if len(chosen) < k:
        return None
    flat = sorted(int(np.ravel_multi_index(p, shape)) for p in chosen)
    wl = case['wl']
    A = ref_atoms(spec, perts, m, nom, src, wl)
    At = A[:, flat]
    r = rs(case['seed'])
    P = herm_pd(r, k, 0.3) if case['corr'] else np.diag(r.uniform(0.5, 2.0, k)).astype(complex)
    sigma = {'bartlett': case['sigma'], 'mvdr': 1e-5, 'music': case['sigma'], 'minnorm': case['sigma']}[method]
    if case['via'] == 'snapshots' and method in ('music', 'minnorm'):
        from doatools.model.signals import ComplexStochasticSignal
        from doatools.model.snapshots import get_narrowband_snapshots
        truth = build_sources(dict(src, loc=[src['loc'][i] for i in flat]))
        known = all(p['known'] for p in perts)
        if not known:
            return None
        np.random.seed(case['seed'] % 2 ** 31)
        _, R = get_narrowband_snapshots(a, truth, wl, ComplexStochasticSignal(k, P), None, 3 * k + 2, True)
        R = R + 0.01 * np.eye(m)
    else:
        R = At @ P @ At.conj().T + sigma * np.eye(m)
    R = 0.5 * (R + R.conj().T)
    # Identifiability on this grid, judged by the reference spectrum.
    null, tol = ref_null(method, A, R, k)
    off = np.ones(len(null), dtype=bool)
    off[flat] = False
    if method == 'bartlett':
        if not np.max(null[off], initial=0) < null[flat[0]] * (1 - 1e-6):
            return None
    elif method == 'mvdr':
        if not np.min(null[off], initial=np.inf) > 1.05 * np.max(null[flat]):
            return None
    else:
        if not np.min(null[off], initial=np.inf) > max(1e-6, 1e4 * tol):
            return None
    e = estimator(method, a, wl, g)
    for j in range(case['seed'] // 4 % 3):  # unrelated earlier calls
        e.estimate(eig_cov(case['seed'] + j, m, min(k, m - 1)), min(k, m - 1))
    out = e.estimate(store(R, ['plain', 'fortran', 'view', 'readonly'][case['seed'] % 4]), k)
    require(out[0], '{}: {} on-grid source(s) not resolved', method, k)
    want = np.array([src['loc'][i] for i in flat], dtype=float)
    close(out[1].locations, want, '{}: estimates'.format(method), 1e-10, 1e-10)
    return '%s/%s/k%d%s' % (method, src['type'], min(k, 3), '/pert' if perts else '')


def simple(case):
    """Regular grids that avoid repeated directions."""
    n = case['shape']
    t = case['gtype']
    if t == 'far1d':
        u = case['unit']
        q = {'rad': 1.4, 'deg': 80.0, 'sin': 0.95}[u]
        return {'t': 'far1d', 'unit': u, 'start': -q, 'stop': q, 'size': n[0] * 4}
    if t == 'far2d':
        q = 180 / math.pi if case['unit'] == 'deg' else 1.0
        return {'t': 'far2d', 'unit': 'deg' if case['unit'] == 'deg' else 'rad', 'start': [-3.0 * q, 0.1 * q], 'stop': [3.0 * q, 1.45 * q], 'size': [n[0], n[1]]}
    return {'t': 'near2d', 'unit': 'm', 'start': [-5.0, 2.0], 'stop': [5.0, 9.0], 'size': [n[0], n[1]]}


@st.composite
def scen(draw):
    t = draw(st.sampled_from(['far1d', 'far2d', 'near2d']))
    large = draw(st.integers(0, 11)) == 11
    arr = draw(st.one_of(ulas(40, 12, st.just(0.5)), st.builds(lambda n: {'kind': 'uca', 'n': n, 'r': n / 14}, st.integers(13, 40)), st.builds(lambda a, b: {'kind': 'ura', 'm': a, 'n': b, 'd0': 0.5}, st.integers(4, 7), st.integers(4, 8)),
                         sparse1d(st.just(0.5))) if large
               else st.one_of(ulas(9, 2, st.just(0.5)), sparse1d(st.just(0.5), small=True), generic_arrays(1, 3, 9), planar(2)) if t == 'far1d'
               else st.one_of(planar(3), generic_arrays(2, 4, 9), generic_arrays(3, 4, 9)))
    return {'method': draw(st.sampled_from(['bartlett', 'mvdr', 'music', 'music', 'minnorm'])), 'array': arr,
            'perts': draw(st.one_of(st.just([]), pert_list(3, known=True))), 'gtype': t, 'unit': draw(st.sampled_from(['rad', 'deg', 'sin'])),
            'shape': [draw(st.integers(6, 14)), draw(st.integers(6, 12))], 'wl': draw(st.sampled_from([1.0, 1.0, 1.5, 2.0])),
            'k': draw(st.integers(1, 8)), 'pts': draw(st.lists(st.tuples(st.integers(0, 60), st.integers(0, 60)).map(list), min_size=8, max_size=20)),
            'corr': draw(st.booleans()), 'sigma': draw(st.sampled_from([0.0, 1e-3, 0.1, 1.0])), 'seed': draw(seeds),
            'via': draw(st.sampled_from(['model', 'model', 'snapshots']))}


def check_offgrid(case):
    from doatools.estimation import MUSIC, FarField1DSearchGrid
    m, k, unit = case['m'], len(case['s']), 'sin'
    spec = {'kind': 'ula', 'n': m, 'd0': 0.5}
    a = build_array(spec)
    s = {'type': 'far1d', 'unit': unit, 'loc': case['s']}
    A = ref_steering(ref_locations(spec), s, 1.0)
    p = np.array(case['p'][:k])
    R = (A * p) @ A.conj().T + case['sigma'] * np.eye(m)
    n = 40 * m
    g = FarField1DSearchGrid(-1, 1, n, unit)
    d, it = case['density'], case['iters']
    ok, e = MUSIC(a, 1.0, g).estimate(R, k, refine_estimates=True, refinement_density=d, refinement_iters=it)
    require(ok and e.size == k, 'off-grid sources not resolved')
    res = 2.0 / n / d ** it
    err = np.max(np.abs(np.sort(e.locations) - np.array(case['s'])))
    require(err <= 0.75 * res + 1e-8, 'refined estimates off by {} with final resolution {}', err, res)
    return 'k%d' % k


@st.composite
def offg(draw):
    m = draw(st.integers(5, 10))
    k = draw(st.integers(1, 3 if m > 6 else 2))
    return {'m': m, 's': separated(draw, k, -0.85, 0.85, 1.6 / m), 'p': [draw(fl(0.5, 2)) for _ in range(k)], 'sigma': draw(st.sampled_from([0.0, 0.01, 0.5])),
            'density': draw(st.integers(2, 12)), 'iters': draw(st.integers(1, 3))}


SUBS = [Sub('on_grid', scen(), check_ongrid, 5000), Sub('off_grid', offg(), check_offgrid, 800)]
