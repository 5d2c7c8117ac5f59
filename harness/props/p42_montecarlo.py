from hypothesis import strategies as st

from ..common import *
from ..core import Sub
from ..est import *
from .p20_coarray_music import lines

ID = 'P42'
TITLE = 'Simulated estimation errors follow the predicted error covariances'
PROP = {
    'statement': 'The simulation, estimation and performance parts fit together: over repeated experiments (snapshots generated for an array, sources and noise; sample covariance; direction estimation) the errors of MUSIC and Root-MUSIC are unbiased and have the covariance predicted by ecov_music_1d, those of MUSIC applied to the augmented covariance matrix of a sparse array (both augmentation methods, also with more sources than sensors) have the covariance predicted by ecov_coarray_music_1d, and no estimator of uncorrelated or correlated sources (ESPRIT included) beats the stochastic Cramer-Rao bound, in every unit, for every spacing and number of snapshots large enough for the asymptotic theory to apply.',
    'quantifier': {'over': ['inputs', 'configurations'], 'text': 'arrays, source sets, source covariances, noise powers, units, large numbers of snapshots; 600 experiments per scenario'},
    'why_tests_cant': 'The tests check single evaluations of each part; that generated data, estimates and predicted covariances agree with each other is a statistical statement across modules.',
    'anchors': {'files': ['doatools/model/snapshots.py', 'doatools/model/signals.py', 'doatools/estimation/music.py', 'doatools/estimation/coarray.py', 'doatools/performance/mse.py', 'doatools/performance/crb.py'],
                'mechanism': [{'name': 'snapshot model', 'where': 'get_narrowband_snapshots'}, {'name': 'Root-MUSIC', 'where': 'RootMUSIC1D.estimate'}, {'name': 'asymptotic covariances', 'where': 'ecov_music_1d, ecov_coarray_music_1d'}],
                'observe_at': ['estimates', 'ecov_*_1d', 'crb_sto_farfield_1d']},
}
RULE = ('Each case runs 600 (refined grids: 150) experiments; the normalized mean squared error is compared with its expectation within 7 standard errors plus 10% for second-order effects. '
        'Non-trivial: the asymptotic regime applies (relative perturbation of the subspace and error-to-separation ratio below fixed limits).')
ASSUMPTIONS = ['Scenarios outside of the asymptotic regime are skipped by a rule that uses the reference model only.',
               'Sample covariances for very many snapshots are drawn from their exact (complex Wishart) distribution instead of summing snapshots.']
T = 600


def in_unit(y, unit):
    return {'sin': y, 'rad': np.arcsin(y), 'deg': np.degrees(np.arcsin(y))}[unit]


def source_cov(r, k):
    """Random, or strongly correlated with random phases."""
    if r.randint(2):
        return herm_pd(r, k, 0.4)
    u = np.exp(1j * r.uniform(0, 2 * math.pi, k)) * np.sqrt(r.uniform(0.5, 2, k))
    rho = r.choice([0.6, 0.9])
    return rho * np.outer(u, u.conj()) + (1 - rho) * np.diag(np.abs(u) ** 2)


def wishart(r, L, n):
    m = len(L)
    G = np.tril(randc(r, m, m), -1)
    G[np.diag_indices(m)] = np.sqrt(r.standard_gamma(n - np.arange(m)))
    X = L @ G
    return X @ X.conj().T / n


def judge(err, C, what, lower=None):
    t, k = err.shape
    d = np.sqrt(np.diag(C))
    Ci = np.linalg.inv(C / np.outer(d, d))
    z = err / d
    x = float(np.mean(np.einsum('ti,ij,tj->t', z, Ci, z))) / k
    slack = 7 * math.sqrt(2.0 / (t * k)) + 0.1
    if lower:
        require(x > 1 - slack, '{}: mean squared error is {} times the bound', what, x)
        return
    require(abs(x - 1) < slack, '{}: normalized squared error is {} times the predicted one', what, x)
    per = np.mean(z ** 2, axis=0)
    require(np.all(np.abs(per - 1) < 7 * math.sqrt(2.0 / t) + 0.1), '{}: squared errors are {} times the predicted ones', what, per)
    M, N = z.T @ z / t, C / np.outer(d, d)
    require(np.all(np.abs(M - N) < 7 * math.sqrt(2.0 / t) + 0.1), '{}: correlations of the errors are {} instead of {}', what, M, N)
    bias = np.mean(z, axis=0) * math.sqrt(t)
    require(np.all(np.abs(bias) < 9 + 0.03 * math.sqrt(t)), '{}: bias of {} standard errors', what, bias)


def check_ula(c):
    from doatools import estimation as E, performance as pf
    from doatools.model import arrays as A, sources as S, signals as G, snapshots as N
    m, k = c['m'], min(c['k'], c['m'] - 1)
    wl = c['wl']
    d0 = c['d0'] * wl
    r = rs(c['seed'])
    lim = min(1.0, 0.5 / c['d0']) * 0.9
    gap = c['gap'] / (m * c['d0'])
    if gap * (k - 1) > 2 * lim:
        k = 1 + int(2 * lim / gap)
    y = np.sort(r.uniform(0, 2 * lim - gap * (k - 1), k)) - lim + gap * np.arange(k)
    s = {'type': 'far1d', 'unit': 'sin', 'loc': y.tolist()}
    nom = np.arange(m)[:, None] * d0
    Am = ref_steering(nom, s, wl)
    p = r.uniform(0.5, 2, k)
    P = source_cov(r, k) if c['corr'] else np.diag(p).astype(complex)
    sigma = c['sigma']
    n = c['n']
    R = Am @ P @ Am.conj().T + sigma * np.eye(m)
    lam = np.linalg.eigvalsh(Am @ P @ Am.conj().T)[-k]
    if m > k and sigma / lam * math.sqrt(m * (1 + lam / sigma) / n) > 0.1:
        return None
    loc = in_unit(y, c['unit'])
    src = S.FarField1DSourcePlacement(loc, c['unit'])
    arr = A.UniformLinearArray(m, d0)
    arg = P if c['corr'] else p
    if not c['corr'] and c['seed'] % 2:
        arg = np.diag(p)
    C = pf.ecov_music_1d(arr, src, wl, arg, sigma, n)
    B = pf.crb_sto_farfield_1d(arr, src, wl, arg, sigma, n)
    if np.max(np.sqrt(np.diag(pf.ecov_music_1d(arr, S.FarField1DSourcePlacement(y, 'sin'), wl, arg, sigma, n)))) > 0.05 * gap:
        return None
    np.random.seed(c['seed'] % 2 ** 31)
    use_lib = n <= 400
    if use_lib:
        sig = G.ComplexStochasticSignal(k, P if c['corr'] else p)
        noi = G.ComplexStochasticSignal(m, sigma)
    L = np.linalg.cholesky(R)
    err = np.zeros((T, k))
    est = E.RootMUSIC1D(wl) if c['est'] == 'rootmusic' else E.Esprit1D(wl)
    for t in range(T):
        if use_lib:
            Y, Rh = N.get_narrowband_snapshots(arr, src, wl, sig, noi, n, True)
        else:
            Rh = wishart(r, L, n)
        ok, e = est.estimate(Rh, k, d0=d0, unit=c['unit'], **({} if c['est'] == 'rootmusic' else {'formulation': c['est']}))
        require(ok and e.size == k, 'no {} estimates', k)
        err[t] = np.sort(e.locations) - loc
    if not np.all(np.isfinite(err)):
        return None
    what = '{} ({} sensors, {} sources, {} snapshots)'.format(c['est'], m, k, n)
    if c['est'] == 'rootmusic':
        judge(err, C, what)
    judge(err, B, what, True)
    return '%s/%s/%s' % (c['est'], 'snapshots' if use_lib else 'wishart', 'corr' if c['corr'] else 'uncorr')


def check_coarray(c):
    from doatools import estimation as E, performance as pf
    from doatools.model import sources as S
    spec = c['array']
    arr = build_array(spec)
    nom = nominal(spec, arr)
    m = arr.size
    b = E.CoarrayACMBuilder1D(arr)
    mv = b.output_size
    if m < 2 or mv < 3:
        return None
    step = line_step(spec)
    d0 = abs(step)
    wl = c['wl'] * d0
    rel = 1 / c['wl']
    r = rs(c['seed'])
    lim = min(1.0, 0.5 / rel) * 0.9
    gap = 1.2 / (mv * rel)
    k = 1 + c['k'] % (mv - 1)
    if gap * (k - 1) > 2 * lim:
        k = 1 + int(2 * lim / gap)
    if 2 * k + 1 > m * m or k >= mv:
        return None
    y = np.sort(r.uniform(0, 2 * lim - gap * (k - 1), k)) - lim + gap * np.arange(k)
    s = {'type': 'far1d', 'unit': 'sin', 'loc': y.tolist()}
    Am = ref_steering(nom, s, wl)
    p = r.uniform(0.5, 2, k)
    sigma = c['sigma']
    n = c['n']
    R = (Am * p) @ Am.conj().T + sigma * np.eye(m)
    Av = ref_steering(np.arange(mv)[:, None] * step, s, wl)
    lam = np.linalg.eigvalsh((Av * p) @ Av.conj().T)[-k]
    if math.sqrt(mv / n) * np.trace(R).real / m / lam > 0.02:
        return None
    loc = in_unit(y, c['unit'])
    src = S.FarField1DSourcePlacement(loc, c['unit'])
    C = pf.ecov_coarray_music_1d(arr, src, wl, p, sigma, n)
    if np.max(np.sqrt(np.diag(pf.ecov_coarray_music_1d(arr, S.FarField1DSourcePlacement(y, 'sin'), wl, p, sigma, n)))) > 0.03 * gap:
        return None
    d = np.sqrt(np.diag(C))
    if not np.all(np.isfinite(C)) or np.linalg.cond(C / np.outer(d, d)) > 1e3:
        return None
    L = np.linalg.cholesky(R)
    err = np.zeros((T, k))
    est = E.RootMUSIC1D(wl)
    for t in range(T):
        ok, e = est.estimate(b.transform(wishart(r, L, n), c['method']), k, d0=d0, unit=c['unit'])
        require(ok and e.size == k, 'no {} estimates', k)
        err[t] = np.sort(np.sign(step) * e.locations) - loc
    if not np.all(np.isfinite(err)):
        return None
    judge(err, C, 'coarray MUSIC ({}, {} sensors, {} sources)'.format(c['method'], m, k))
    return '%s/%s' % (c['method'], 'k>=m' if k >= m else 'k<m')


def check_grid(c):
    """Refined grid MUSIC on arbitrary arrays with known imperfections."""
    from doatools import estimation as E, performance as pf
    from doatools.model import sources as S
    spec, perts = c['array'], [dict(q, known=True) for q in c['perts']]
    m = array_size(spec)
    arr = build_array(spec, perts)
    nom = nominal(spec, arr)
    wl = c['wl']
    r = rs(c['seed'])
    k = min(c['k'], m - 1)
    if k < 1:
        return None
    y = np.sort(r.uniform(-0.9, 0.9, k))
    if k > 1 and np.min(np.diff(y)) < 0.1:
        return None
    s = {'type': 'far1d', 'unit': 'sin', 'loc': y.tolist()}
    Am = ref_atoms(spec, perts, m, nom, s, wl)
    n2 = np.linalg.norm(Am, axis=0)
    if np.linalg.svd(Am / n2, compute_uv=False)[-1] < 0.2:
        return None
    P = source_cov(r, k) if c['corr'] else np.diag(r.uniform(0.5, 2, k)).astype(complex)
    sigma, n = c['sigma'] * float(np.mean(n2 ** 2)) / m, c['n']
    R = Am @ P @ Am.conj().T + sigma * np.eye(m)
    lam = np.linalg.eigvalsh(Am @ P @ Am.conj().T)[-k]
    if sigma / lam * math.sqrt(m * (1 + lam / sigma) / n) > 0.05:
        return None
    loc = in_unit(y, c['unit'])
    src = S.FarField1DSourcePlacement(loc, c['unit'])
    C = pf.ecov_music_1d(arr, src, wl, P, sigma, n)
    d = np.sqrt(np.diag(C))
    if not np.all(np.isfinite(d)):
        return None
    # The errors must be small compared with the width of the minima of the null spectrum.
    ap = float(np.max(np.linalg.norm(nom - nom.mean(axis=0), axis=1))) + 0.5
    dy = np.sqrt(np.diag(pf.ecov_music_1d(arr, S.FarField1DSourcePlacement(y, 'sin'), wl, P, sigma, n)))
    if np.max(dy) > 0.01 * min(0.1, wl / ap):
        return None
    win = np.linspace(-8, 8, 41)
    axis = np.concatenate([l + q * win for l, q in zip(loc, d)])
    lim = {'sin': 1.0, 'rad': math.pi / 2, 'deg': 90.0}[c['unit']]
    if np.any(np.diff(axis) <= 0) or np.max(np.abs(axis)) > lim:
        return None
    grid = E.FarField1DSearchGrid(axes=(axis,), unit=c['unit'])
    L = np.linalg.cholesky(R)
    est = E.MUSIC(arr, wl, grid)
    err = []
    for t in range(T // 4):
        ok, e = est.estimate(wishart(r, L, n), k, refine_estimates=True, refinement_density=5, refinement_iters=2)
        if not ok:
            return None
        err.append(e.locations - loc)
    err = np.array(err)
    if np.max(np.abs(err) / d) > 7.5:
        return None  # a window border was chosen
    judge(err, C, 'MUSIC ({} sensors, {} sources, {} snapshots)'.format(m, k, n))
    return 'grid/%s' % ('pert' if perts else 'plain')


units = st.sampled_from(['rad', 'deg', 'sin'])
SUBS = [
    Sub('ula', st.fixed_dictionaries({
        'est': st.sampled_from(['rootmusic', 'rootmusic', 'ls', 'tls']), 'm': st.integers(2, 10), 'k': st.integers(1, 5), 'd0': st.sampled_from([0.5, 0.5, 0.4, 0.8]),
        'wl': wavelengths, 'seed': seeds, 'corr': st.booleans(), 'gap': st.sampled_from([1.2, 1.2, 0.6]), 'sigma': st.sampled_from([1.0, 0.1, 0.01]), 'unit': units, 'n': st.sampled_from([100, 300, 10 ** 4, 10 ** 6, 10 ** 8])}),
        check_ula, 120),
    Sub('coarray', st.fixed_dictionaries({
        'array': st.one_of(sparse1d(small=True), lines()), 'wl': st.sampled_from([2.0, 2.0, 2.5, 1.25]), 'k': st.integers(0, 30), 'seed': seeds, 'sigma': st.sampled_from([1.0, 0.1, 0.01]),
        'unit': units, 'n': st.sampled_from([10 ** 5, 10 ** 6, 10 ** 8]), 'method': st.sampled_from(['ss', 'da'])}), check_coarray, 120),
    Sub('grid', st.fixed_dictionaries({
        'array': st.one_of(ulas(8, 3, fl(0.2, 0.7)), planar(3), generic_arrays(min_m=3, max_m=7)), 'perts': st.one_of(st.just([]), pert_list(3)), 'wl': st.sampled_from([1.0, 0.7, 2.0]), 'seed': seeds,
        'k': st.integers(1, 4), 'corr': st.booleans(), 'sigma': st.sampled_from([1.0, 0.1, 0.01]), 'unit': units, 'n': st.sampled_from([10 ** 4, 10 ** 6, 10 ** 8])}), check_grid, 120),
]
