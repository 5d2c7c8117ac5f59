from ..core import Sub
from ..crbcase import *

ID = 'P31'
TITLE = 'Coarray MUSIC asymptotic covariance is that of the estimation errors'
PROP = {
    'statement': 'ecov_coarray_music_1d equals the covariance of the first-order estimation errors of MUSIC run on the augmented (lag-averaged) covariance matrix of an unperturbed grid-based linear array with uncorrelated sources, for every spacing, unit and number of sources below the virtual array size (also more than sensors), and scales with 1/N. Perturbed arrays, too many sources, non-1D sources, wrong powers and unknown modes raise ValueError.',
    'quantifier': {'over': ['inputs', 'configurations'], 'text': 'all 1D grid-based arrays and spacings, source sets, units, powers, SNRs, snapshot counts and return modes'},
    'why_tests_cant': 'Tests compare one half-wavelength co-prime array; lag averaging, spacing and cross terms need other geometries.',
    'anchors': {'files': ['doatools/performance/mse.py', 'doatools/model/coarray.py', 'doatools/performance/utils.py'],
                'mechanism': [{'name': 'closed-form covariance', 'where': 'ecov_coarray_music_1d'}, {'name': 'selection matrix', 'where': 'WeightFunction1D.get_coarray_selection_matrix'}],
                'observe_at': ['ecov_coarray_music_1d']},
}
RULE = ('1D grid arrays (standard and arbitrary), sources, powers and SNRs are generated; the result is compared with the covariance of the linearized error functional of the '
        'lag-averaged covariance, built by brute force from sensor pairs. Non-trivial: at least two sources.')
ASSUMPTIONS = ['Scenarios in which virtual steering vectors are nearly dependent are skipped.']


@st.composite
def cc(draw):
    d0 = fl(0.2, 0.9)
    kind = draw(st.integers(0, 4))
    if kind == 0:
        arr = draw(ulas(7, 2, d0))
    elif kind < 4:
        arr = draw(sparse1d(d0, small=True))
    else:
        idx = draw(st.lists(st.integers(-5, 9), min_size=2, max_size=6))
        idx = idx + [idx[0] + 1]
        arr = draw(line_grid(idx, d0))
    unit = draw(st.sampled_from(['rad', 'deg', 'sin']))
    k = draw(st.integers(1, 9))
    s = separated(draw, k, -0.93, 0.93, 0.12) if draw(st.integers(0, 3)) else [v * 0.4 for v in separated(draw, k, -0.9, 0.9, 0.1)]
    loc = {'rad': [math.asin(v) for v in s], 'deg': [math.degrees(math.asin(v)) for v in s], 'sin': s}[unit]
    order = draw(st.permutations(range(k)))
    return {'array': arr, 'unit': unit, 'loc': [loc[i] for i in order], 'wl': draw(st.sampled_from([1.0, 1.0, 0.7, 2.0])), 'seed': draw(seeds),
            'snr': draw(logfl(0.1, 1e3)), 'scale': draw(st.sampled_from([1.0, 1e-3, 1e3])), 'n': draw(st.sampled_from([1, 2, 10, 1000])),
            'mode': draw(st.sampled_from([None, 'full', 'diag', 'mean_diag'])), 'form': draw(st.sampled_from(['vector', 'list', 'matrix', 'scalar'])), 'perts': [], 'corr': False}


def check_cov(c):
    from doatools.performance import ecov_coarray_music_1d
    from doatools.model import sources as S
    s = Setup(c)
    m = s.m
    idx = [int(i) for i in s.array.element_indices[:, 0]]
    pairs = {}
    for i in range(m):
        for j in range(m):
            pairs.setdefault(idx[i] - idx[j], []).append((i, j))
    mv = 0
    while mv in pairs:
        mv += 1
    call = lambda src, p, **kw: ecov_coarray_music_1d(s.array, src, c['wl'], p, s.sigma, **kw)
    if s.k >= mv:
        raises(ValueError, lambda: call(s.src, s.p), '{} sources with a virtual array of {}'.format(s.k, mv))
        return None
    vs = {'kind': 'generic', 'locs': (line_step(c['array']) * np.arange(mv, dtype=float)[:, None]).tolist()}
    vnom = np.array(vs['locs'])
    a = (vs, [], mv, vnom, c['unit'], c['loc'], c['wl'])
    A, D = atoms_at(*a), datoms(*a)
    wp = well_posed(A, D)
    if wp < 5e-3 or np.linalg.svd(A / np.linalg.norm(A, axis=0), compute_uv=False)[-1] < 1e-3:
        return None
    form, p = c['form'], s.p
    if form == 'scalar':
        p = np.full(s.k, p[0])
    arg = {'vector': lambda: p.copy(), 'list': lambda: [float(v) for v in p], 'matrix': lambda: p_matrix(p, c), 'scalar': lambda: float(p[0])}[form]()
    R = (s.A * p) @ s.A.conj().T + s.sigma * np.eye(m)
    Q, _ = np.linalg.qr(A)
    Pn = np.eye(mv) - Q @ Q.conj().T
    Ai = np.linalg.pinv(A)
    Sp = (Ai.conj().T / p) @ Ai
    # The noise subspace is as accurate as the eigenvalue gap allows.
    w = np.linalg.eigvalsh((A * p) @ A.conj().T)
    tol = 1e-6 + 1e-13 * (w[-1] + s.sigma) / max(w[-s.k], 1e-300) / wp ** 2
    if tol > 1e-4:
        return None
    GR = []
    for i in range(s.k):
        b = Pn @ D[:, i]
        T = -np.outer(Sp @ A[:, i], b.conj()) / np.vdot(b, b).real  # error = Re tr(T dRv), dRv Toeplitz of averaged lags
        H = np.zeros((m, m), dtype=complex)
        for lag in range(-mv + 1, mv):
            w = sum(T[y, y + lag] for y in range(mv) if 0 <= y + lag < mv) / len(pairs[lag])
            for r_, q_ in pairs[lag]:  # dR[r, q] has lag r - q
                H[q_, r_] += w
        H = (H + H.conj().T) / 2
        GR.append(H @ R)
    ref = np.array([[np.trace(x @ y).real for y in GR] for x in GR]) / c['n']
    kw = {} if c['mode'] is None else {'return_mode': c['mode']}
    keep = np.array(arg, copy=True)
    if c['n'] > 1:
        kw['n_snapshots'] = c['n']
    got = call(s.src, arg, **kw)
    same(np.array(arg), keep, 'source powers')
    if np.min(np.diag(ref)) <= 0:
        raise Skip()
    d = np.sqrt(np.diag(ref))
    if c['mode'] in (None, 'full'):
        require(np.shape(got) == ref.shape, 'shape {}', np.shape(got))
        close(got / np.outer(d, d), ref / np.outer(d, d), 'coarray MUSIC covariance', 0, tol)
    else:
        e = reduced(ref, c['mode'])
        require(np.shape(got) == np.shape(e), 'shape {}', np.shape(got))
        close(got / e, np.ones(np.shape(e)), 'coarray MUSIC covariance ({})'.format(c['mode']), 0, tol)
    pert = build_array(c['array'], [{'type': 'gain_errors', 'seed': 1, 'dim': 1, 'known': c['seed'] % 2 == 0}])
    raises(ValueError, lambda: ecov_coarray_music_1d(pert, s.src, c['wl'], arg, s.sigma), 'perturbed array')
    raises(ValueError, lambda: call(s.src, np.ones(s.k + 1)), 'wrong powers')
    raises(ValueError, lambda: call(s.src, arg, return_mode='x'), 'unknown mode')
    raises(ValueError, lambda: call(S.NearField2DSourcePlacement(np.ones((s.k, 2))), arg), '2D sources')
    return '%s/%s%s' % (form, c['unit'], '/k>=m' if s.k >= m else '') if s.k > 1 else None


SUBS = [Sub('cov', cc(), check_cov, 2500)]
