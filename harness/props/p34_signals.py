from ..core import Sub
from ..common import *

ID = 'P34'
TITLE = 'Signal generators emit signals with exactly the documented distribution'
PROP = {
    'statement': 'ComplexStochasticSignal emits dim x n zero-mean circularly-symmetric complex Gaussian samples, independent over time and over calls, with the given covariance (scalar, vector of powers, or full complex covariance matrix, singular ones for coherent or absent sources included); RandomPhaseSignal emits signals of exactly the given amplitudes with independent uniform phases. Sizes that do not match the dimension are refused and the inputs are not modified.',
    'quantifier': {'over': ['inputs', 'configurations'], 'text': 'all dimensions, covariances in every form, amplitudes, sample counts and random states'},
    'why_tests_cant': 'Tests check the sample covariance of one diagonal case at low accuracy; correlated sources, circularity, Gaussianity and independence are unobserved.',
    'anchors': {'files': ['doatools/model/signals.py', 'doatools/utils/math.py'],
                'mechanism': [{'name': 'sampling', 'where': 'ComplexStochasticSignal.emit, RandomPhaseSignal.emit, randcn'}],
                'observe_at': ['emit', 'dim', 'randcn']},
}
RULE = ('Generators, covariances and random states are generated; moments and distributions of many samples are tested at 8 standard errors (false alarm below 1e-14 per comparison). '
        'Non-trivial: dimension at least two, or a random-phase signal.')
TECHNIQUE = 'property-based testing (Hypothesis): generated configurations, statistical oracles with negligible false-alarm probability and exact algebraic oracles'


def ks_normal(x):
    """sqrt(n) times the Kolmogorov distance from the standard normal distribution."""
    from scipy.stats import norm
    x = np.sort(np.asarray(x).ravel())
    n = x.size
    F = norm.cdf(x)
    i = np.arange(n)
    return math.sqrt(n) * max(float(np.max(F - i / n)), float(np.max((i + 1) / n - F)))


def ks_uniform(x):
    x = np.sort(np.asarray(x).ravel())
    n = x.size
    i = np.arange(n)
    return math.sqrt(n) * max(float(np.max(x - i / n)), float(np.max((i + 1) / n - x)))


def emit3(g, n):
    parts, keep = [], []
    for q in (n, 1, n):
        parts.append(g.emit(q))
        keep.append(np.array(parts[-1]))
    parts[0][...] = 7.0  # the caller may edit what was emitted
    again = g.emit(n)
    require(not np.any(again == 7.0), 'emitted signals share memory')
    again[...] = 7.0
    parts[0] = keep[0]
    for x, y in zip(parts, keep):
        same(x, y, 'signal emitted earlier, after later calls')
    return parts


def all_lags(X):
    """White rows are uncorrelated with each other and themselves at every lag."""
    d, N = X.shape
    q = 1 << (2 * N - 1).bit_length()
    F, G = np.fft.fft(X, q), np.fft.fft(X.conj(), q)
    for i in range(d):
        j = (i + 1) % d
        for a, b, what in ((F[i], F[i], 'correlation'), (F[i], F[j], 'correlation of different sources'), (F[i], G[i], 'pseudo correlation')):
            q = np.abs(np.fft.ifft(a * b.conj()))[1:N // 2] / N
            l = int(np.argmax(q))
            require(q[l] < 9 / math.sqrt(N), '{} of {} at lag {}', what, q[l], l + 1)


def check_gauss(c):
    from doatools.model.signals import ComplexStochasticSignal
    d, form = c['dim'], c['form']
    r = rs(c['seed'])
    p = r.uniform(0.2, 3.0, d) * c['scale']
    wide = c['seed'] // 8 % 3 == 0  # very different powers
    if wide:
        p = p * 10.0 ** (-8 * r.rand(d))
    if form == 'default':
        C, g = np.eye(d), ComplexStochasticSignal(d)
    elif form == 'scalar':
        v = {0: float(p[0]), 1: 3, 2: np.float64(p[0])}[c['seed'] % 3]
        C, g = np.eye(d) * v, ComplexStochasticSignal(d, v)
    elif form == 'vector':
        v = np.array([1, 2, 3, 4, 5, 6][:d]) if c['seed'] % 4 == 0 else p.copy()
        keep = v.copy()
        C, g = np.diag(v).astype(float), ComplexStochasticSignal(d, v)
        same(v, keep, 'vector of powers')
    else:
        C = herm_pd(r, d, 0.1) * c['scale']
        if form == 'real':
            C = C.real.copy()
        if wide:
            U = np.linalg.eigh(C)[1]
            C = (U * p) @ U.conj().T
            C = 0.5 * (C + C.conj().T)
        keep = C.copy()
        g = ComplexStochasticSignal(d, C)
        same(C, keep, 'covariance matrix')
    require(g.dim == d, 'dim {}', g.dim)
    np.random.seed(c['seed'])
    n = 4000 if c['seed'] % 8 else 60000
    parts = emit3(g, n)
    for x, q in zip(parts, (n, 1, n)):
        require(isinstance(x, np.ndarray) and x.shape == (d, q) and np.iscomplexobj(x), 'emit({}) returned shape {}', q, np.shape(x))
    L = np.linalg.cholesky(C)
    W = [np.linalg.solve(L, x) for x in parts]  # white CN(0, I)
    X = np.hstack(W)
    N = X.shape[1]
    z = 8 / math.sqrt(N)
    close(X @ X.conj().T / N, np.eye(d), 'whitened covariance ({})'.format(form), 0, z * 1.5)
    close(X @ X.T / N, np.zeros((d, d)), 'pseudo covariance ({})'.format(form), 0, z * 1.5)
    close(np.mean(X, axis=1), np.zeros(d), 'mean ({})'.format(form), 0, z)
    for lag in (1, 2, d):
        Y = X[:, lag:]
        close(Y @ X[:, :-lag].conj().T / Y.shape[1], np.zeros((d, d)), 'correlation at lag {}'.format(lag), 0, z * 1.2)
        close(Y @ X[:, :-lag].T / Y.shape[1], np.zeros((d, d)), 'pseudo correlation at lag {}'.format(lag), 0, z * 1.2)
    if c['seed'] % 5 == 0:
        all_lags(X[:3])
    close(W[2] @ W[0].conj().T / n, np.zeros((d, d)), 'correlation of two calls', 0, 1.2 * 8 / math.sqrt(n))
    for i in range(d):
        for q in (X[i].real, X[i].imag):
            require(ks_normal(q * math.sqrt(2)) < 4.5, 'not Gaussian: Kolmogorov statistic {}', ks_normal(q * math.sqrt(2)))
    return '%s/%d' % (form, d) if d > 1 else None


def check_singular(c):
    """Coherent sources and absent sources: the covariance is singular."""
    from doatools.model.signals import ComplexStochasticSignal
    d, form = c['dim'], c['form']
    r = rs(c['seed'])
    if form == 'vector':
        C = r.uniform(0.2, 3.0, d) * (r.rand(d) < 0.6)
        F = np.diag(np.sqrt(C))
    else:
        q = min(c['rank'], d)
        F = {'real': lambda: r.randn(d, q), 'complex': lambda: randc(r, d, q), 'int': lambda: r.randint(-2, 3, (d, q)).astype(float), 'ones': lambda: np.ones((d, 1)),
             'unit': lambda: 1j ** r.randint(0, 4, (d, q))}[form]()
        F = F * (1.0 if form in ('int', 'ones', 'unit') else math.sqrt(c['scale']))
        C = F @ F.conj().T
    keep = C.copy()
    g = ComplexStochasticSignal(d, C)
    np.random.seed(c['seed'])
    n = 2000
    X = np.hstack((g.emit(n), g.emit(1), g.emit(n)))
    same(C, keep, 'covariance')
    require(X.shape == (d, 2 * n + 1) and np.all(np.isfinite(X)), 'emitted signals of shape {}, finite: {}', X.shape, np.all(np.isfinite(X)))
    U, s, _ = np.linalg.svd(F)
    q = int(np.sum(s > 1e-9 * max(s[0], 1e-9)))
    if q and s[q - 1] < 1e-2 * s[0]:
        return None
    top = max(float(s[0]), 1e-6)
    close(U[:, q:].conj().T @ X / top, np.zeros((d - q, X.shape[1])), 'part of the signals outside of the range of the covariance ({})'.format(form), 0, 1e-5)
    if not q:
        return None
    W = (U[:, :q] / s[:q]).conj().T @ X
    z = 8 / math.sqrt(X.shape[1])
    close(W @ W.conj().T / X.shape[1], np.eye(q), 'whitened covariance ({}, rank {} of {})'.format(form, q, d), 0, z * 1.5)
    close(W @ W.T / X.shape[1], np.zeros((q, q)), 'whitened pseudo covariance', 0, z * 1.5)
    require(ks_normal(np.concatenate((W.real.ravel(), W.imag.ravel())) * math.sqrt(2)) < 4.5, 'not Gaussian')
    return '%s/%d' % (form, q) if q < d else None


def check_single(c):
    """Many calls for few samples are as good as one call for many."""
    from doatools.model.signals import ComplexStochasticSignal, RandomPhaseSignal
    d, q = c['dim'], c['n']
    p = rs(c['seed']).uniform(0.2, 3.0, d)
    np.random.seed(c['seed'])
    calls = 600
    g = ComplexStochasticSignal(d, p)
    X = np.hstack([g.emit(q) for _ in range(calls)]) / np.sqrt(p)[:, None]
    N = X.shape[1]
    z = 8 / math.sqrt(N)
    close(X @ X.conj().T / N, np.eye(d), 'whitened covariance of {} calls for {} sample(s)'.format(calls, q), 0, z * 1.5)
    close(X @ X.T / N, np.zeros((d, d)), 'pseudo covariance of {} calls for {} sample(s)'.format(calls, q), 0, z * 1.5)
    close(X[:, 1:] @ X[:, :-1].conj().T / N, np.zeros((d, d)), 'correlation of {} calls for {} sample(s)'.format(calls, q), 0, z * 1.5)
    require(ks_normal(np.concatenate((X.real.ravel(), X.imag.ravel())) * math.sqrt(2)) < 4.5, 'not Gaussian')
    g = RandomPhaseSignal(d, p)
    X = np.hstack([g.emit(q) for _ in range(calls)]) / p[:, None]
    close(np.abs(X), np.ones((d, N)), 'amplitudes', 1e-12, 0)
    for i in range(d):
        require(ks_uniform(np.angle(X[i]) / (2 * math.pi) + 0.5) < 4.5, 'phases of {} calls for {} sample(s) are not uniform'.format(calls, q))
    close(X @ X.conj().T / N, np.eye(d), 'correlation of the sources', 0, z)
    close(X[:, 1:] @ X[:, :-1].conj().T / N, np.zeros((d, d)), 'correlation of {} calls for {} sample(s)'.format(calls, q), 0, z * 1.1)
    return 'd%d/n%d' % (d, q)


def check_phase(c):
    from doatools.model.signals import RandomPhaseSignal
    d, form = c['dim'], c['form']
    r = rs(c['seed'])
    a = r.uniform(0.1, 4, d)
    if form == 'default':
        a, g = np.ones(d), RandomPhaseSignal(d)
    elif form == 'scalar':
        v = {0: 2, 1: float(a[0]), 2: np.float64(a[0])}[c['seed'] % 3]
        a, g = np.full(d, float(v)), RandomPhaseSignal(d, v)
    else:
        v = a.copy() if c['seed'] % 3 else np.arange(1, d + 1)
        a = v.astype(float)
        g = RandomPhaseSignal(d, v)
        same(v, a, 'amplitudes')
    require(g.dim == d, 'dim {}', g.dim)
    np.random.seed(c['seed'])
    n = 300000 if c['seed'] % 50 == 0 else 3000
    parts = emit3(g, n)
    for x, q in zip(parts, (n, 1, n)):
        require(x.shape == (d, q) and np.iscomplexobj(x), 'emit({}) returned shape {}', q, x.shape)
        close(np.abs(x), np.repeat(a[:, None], q, axis=1), 'amplitudes ({})'.format(form), 1e-12, 0)
    X = np.hstack(parts) / a[:, None]
    N = X.shape[1]
    z = 8 / math.sqrt(N)
    for i in range(d):
        k = ks_uniform(np.angle(X[i]) / (2 * math.pi) + 0.5)
        require(k < 4.5, 'phases are not uniform: Kolmogorov statistic {}', k)
    close(X @ X.conj().T / N, np.eye(d), 'correlation of the sources', 0, z)
    close(X @ X.T / N, np.zeros((d, d)), 'pseudo correlation of the sources', 0, z)
    for lag in (1, 2, d):
        close(X[:, lag:] @ X[:, :-lag].conj().T / (N - lag), np.zeros((d, d)), 'correlation at lag {}'.format(lag), 0, z * 1.1)
        close(X[:, lag:] @ X[:, :-lag].T / (N - lag), np.zeros((d, d)), 'pseudo correlation at lag {}'.format(lag), 0, z * 1.1)
    if c['seed'] % 5 == 0:
        all_lags(X[:2])
    return 'phase/' + form


def check_randcn(c):
    from doatools.utils.math import randcn
    np.random.seed(c['seed'])
    shape = tuple(c['shape'])
    x = randcn(shape)
    require(x.shape == shape and np.iscomplexobj(x), 'shape {}', x.shape)
    big = randcn(shape + (2000,)).ravel()
    n = big.size
    close(np.mean(np.abs(big) ** 2), 1.0, 'power', 0, 8 / math.sqrt(n))
    close(np.mean(big ** 2), 0.0, 'circularity', 0, 12 / math.sqrt(n))
    for q in (big.real, big.imag):
        require(ks_normal(q * math.sqrt(2)) < 4.5, 'not Gaussian')
    require(abs(np.mean(big.real * big.imag)) < 4 / math.sqrt(n), 'real and imaginary parts are correlated')
    return 'randcn'


def check_reject(c):
    from doatools.model.signals import ComplexStochasticSignal, RandomPhaseSignal
    d = c['dim']
    for s in ((d + 1,), (max(d - 1, 0),), (d, d + 1), (d + 1, d), (d + 1, d + 1), (d, d, 1), (1, d, d)):
        raises(ValueError, lambda: ComplexStochasticSignal(d, np.ones(s)), 'covariance of shape {} for dimension {}'.format(s, d))
    for s in ((d + 1,), (max(d - 1, 0),)):
        raises(ValueError, lambda: RandomPhaseSignal(d, np.ones(s)), 'amplitudes of shape {} for dimension {}'.format(s, d))
    return 'reject'


gauss = st.fixed_dictionaries(dict(dim=st.integers(1, 6), form=st.sampled_from(['default', 'scalar', 'vector', 'matrix', 'matrix', 'real']), scale=st.sampled_from([1.0, 1e-4, 1e4]), seed=seeds))
phase = st.fixed_dictionaries(dict(dim=st.integers(1, 6), form=st.sampled_from(['default', 'scalar', 'vector']), seed=seeds))
rn = st.fixed_dictionaries(dict(shape=st.lists(st.integers(1, 4), min_size=1, max_size=3), seed=seeds))
SUBS = [Sub('gauss', gauss, check_gauss, 700), Sub('singular', st.fixed_dictionaries(dict(dim=st.integers(1, 8), rank=st.integers(1, 4), form=st.sampled_from(['vector', 'real', 'complex', 'int', 'ones', 'unit']), scale=st.sampled_from([1.0, 1e-4, 1e4]), seed=seeds)), check_singular, 800),
        Sub('single', st.fixed_dictionaries(dict(dim=st.integers(1, 4), n=st.integers(1, 3), seed=seeds)), check_single, 200), Sub('phase', phase, check_phase, 500), Sub('randcn', rn, check_randcn, 200), Sub('reject', st.fixed_dictionaries(dict(dim=st.integers(1, 6))), check_reject, 30)]
