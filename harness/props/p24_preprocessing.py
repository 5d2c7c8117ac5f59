from hypothesis import strategies as st

from ..common import *
from ..core import Sub
from ..est import *

ID = 'P24'
TITLE = 'Spatial smoothing averages subarrays exactly and decorrelates sources'
PROP = {
    'statement': 'Spatial smoothing with l subarrays returns the mean of the l leading-to-trailing (M-l+1)-sized diagonal blocks of the covariance matrix; forward-backward smoothing averages this with its flipped complex conjugate. This holds for integer, real and complex matrices, keeps Hermitian positive semidefinite matrices so, leaves the input unmodified, and rejects l outside 1..M. Coherent sources on a uniform linear array become resolvable by MUSIC, Root-MUSIC and ESPRIT after smoothing over at least as many subarrays as sources. l1_svd returns the first k left singular vectors scaled by their singular values, so that the reduced snapshots keep the dominant part of Y Y^H and the column space of noiseless snapshots.',
    'quantifier': {'over': ['inputs', 'configurations'], 'text': 'all sizes, subarray counts, dtypes, matrices and coherent source scenarios'},
    'why_tests_cant': 'Tests check one small matrix and one coherent scenario; other sizes, dtypes, purity and forward-backward decorrelation are unobserved.',
    'anchors': {'files': ['doatools/estimation/preprocessing.py'],
                'mechanism': [{'name': 'subarray averaging', 'where': 'spatial_smooth'}, {'name': 'dimension reduction', 'where': 'l1_svd'}],
                'observe_at': ['spatial_smooth', 'l1_svd']},
}
RULE = ('Matrices of all dtypes, subarray counts and coherent scenarios are generated; smoothing is compared entry by entry with explicit sums. '
        'Non-trivial: at least two subarrays (smoothing) or two coherent sources (recovery).')


def ref_smooth(R, l, fb):
    m = R.shape[0]
    q = m - l + 1
    out = np.zeros((q, q), dtype=complex)
    for i in range(q):
        for j in range(q):
            for s in range(l):
                out[i, j] += R[s + i, s + j]
    out /= l
    if fb:
        b = np.zeros_like(out)
        for i in range(q):
            for j in range(q):
                b[i, j] = np.conj(out[q - 1 - i, q - 1 - j])
        out = 0.5 * (out + b)
    return out


def check_smooth(case):
    from doatools.estimation import spatial_smooth
    m, l = case['m'], 1 + case['l'] % case['m']
    r = rs(case['seed'])
    kd = case['kind']
    if kd == 'int':
        R = r.randint(-20, 20, (m, m))
    elif kd == 'real':
        R = r.randn(m, m)
    elif kd == 'complex':
        R = randc(r, m, m)
    elif kd == 'fortran':
        R = np.asfortranarray(randc(r, m, m))
    elif kd == 'view':
        R = randc(r, 2 * m, 2 * m)[::2, ::2]
    elif kd == 'float32':
        R = r.randn(m, m).astype(np.float32)
    elif kd == 'psdreal':
        R = herm_pd(r, m).real
    else:
        R = herm_pd(r, m, 0.0)
    R0 = R.copy()
    kw = {} if case['fb'] is None else {'fb': case['fb']}
    S = spatial_smooth(R, l, **kw)
    same(R, R0, 'input covariance matrix')
    tol = 1e-5 if kd == 'float32' else 1e-12
    close(S, ref_smooth(R0, l, bool(case['fb'])), 'smoothed covariance matrix (l={}, fb={})'.format(l, case['fb']), tol, tol)
    require(np.iscomplexobj(S) == np.iscomplexobj(R), 'dtype {} for an input of type {}', S.dtype, R.dtype)
    S[...] = 0
    same(R, R0, 'input after editing the result')
    if kd in ('psd', 'psdreal'):
        S = spatial_smooth(R, l, **kw)
        close(S, S.conj().T, 'Hermitian symmetry', 1e-12, 1e-12)
        require(np.linalg.eigvalsh(S)[0] > -1e-10, 'smoothing lost positive semidefiniteness')
    for bad in (0, -1, m + 1):
        raises(ValueError, lambda: spatial_smooth(R, bad), '{} subarrays of {}'.format(bad, m))
    return '%s/%s' % (kd, case['fb']) if l > 1 else None


def check_coherent(case):
    from doatools import estimation as E
    m, k, l = case['m'], len(case['u']), case['l']
    q = m - l + 1
    if q < k + 1 or l < (k if not case['fb'] else (k + 1) // 2):
        return None
    u = np.array(case['u']) * 0.5
    A = np.exp(2j * math.pi * np.outer(np.arange(m), u))
    r = rs(case['seed'])
    s = np.exp(1j * r.uniform(-3, 3, k)) * r.uniform(0.6, 1.5, k)  # fully coherent
    R = np.outer(A @ s, (A @ s).conj()) + case['sigma'] * np.eye(m)
    S = E.spatial_smooth(R, l, case['fb'])
    # Is the smoothed source covariance well-conditioned? (reference)
    ref = ref_smooth(R, l, case['fb']) - case['sigma'] * np.eye(q)
    w = np.linalg.eigvalsh(0.5 * (ref + ref.conj().T))[::-1]
    if w[k - 1] < 1e-4 * w[0]:
        return None
    method = case['method']
    if method == 'music':
        n = 40 * m
        g = E.FarField1DSearchGrid(-1, 1, n, 'sin')
        ok, e = E.MUSIC(build_array({'kind': 'ula', 'n': q, 'd0': 0.5}), 1.0, g).estimate(S, k, refine_estimates=True)
        tol = 1e-3
    elif method == 'root':
        ok, e = E.RootMUSIC1D(1.0).estimate(S, k, unit='sin')
        tol = 2e-3
    else:
        ok, e = E.Esprit1D(1.0).estimate(S, k, unit='sin')
        tol = 1e-5
    require(ok, 'coherent sources not resolved after smoothing with {} subarrays', l)
    close(np.sort(e.locations), np.array(case['u']), 'estimates of {} coherent sources ({} subarrays, fb={})'.format(k, l, case['fb']), 0, tol)
    return '%s/fb=%s/k%d' % (method, case['fb'], k) if k > 1 else None


@st.composite
def coh(draw):
    m = draw(st.integers(6, 12))
    k = draw(st.integers(1, 3))
    gap = 2.4 / m
    while gap * (k - 1) > 1.7:
        k -= 1
    fb = draw(st.booleans())
    return {'m': m, 'u': separated(draw, k, -0.85, 0.85, gap), 'l': draw(st.integers((k + 1) // 2 if fb else k, m - k)), 'fb': fb, 'seed': draw(seeds),
            'sigma': draw(st.sampled_from([0.0, 0.1])), 'method': draw(st.sampled_from(['music', 'root', 'esprit']))}


def check_svd(case):
    from doatools.estimation import l1_svd
    m, n = case['m'], case['n']
    r = rs(case['seed'])
    Y = randc(r, m, n)
    k = 1 + case['k'] % min(m, n)
    if case['lowrank']:
        Y = r.randn(m, k) @ r.randn(k, n) if case['real'] else randc(r, m, k) @ randc(r, k, n)
    elif case['real']:
        Y = Y.real.copy()
    Y0 = Y.copy()
    Z = l1_svd(Y, k)
    same(Y, Y0, 'snapshots')
    require(Z.shape == (m, k), 'reduced snapshots have shape {} instead of {}', Z.shape, (m, k))
    w, E = np.linalg.eigh(Y @ Y.conj().T)
    w, E = np.maximum(w[::-1], 0), E[:, ::-1]
    G = Z.conj().T @ Z
    close(G, np.diag(w[:k]), 'Gram matrix of the reduced snapshots', 1e-9, 1e-12)
    if k < m and w[k - 1] - w[k] < 1e-6 * w[0]:
        return None
    T = (E[:, :k] * w[:k]) @ E[:, :k].conj().T
    close(Z @ Z.conj().T, T, 'dominant part of Y Y^H', 1e-8, 1e-10)
    # Every reduced snapshot is a unit-norm combination of snapshots: Z = Y V.
    V = np.linalg.pinv(Y) @ Z
    close(V.conj().T @ V, np.eye(k), 'combination of snapshots', 0, 1e-6)
    if case['lowrank']:
        close(Z @ Z.conj().T, Y @ Y.conj().T, 'Y Y^H of noiseless snapshots', 1e-9, 1e-10)
    return 'lowrank' if case['lowrank'] else 'full'


SUBS = [Sub('smooth', st.fixed_dictionaries({'m': st.integers(1, 10), 'l': st.integers(0, 9), 'seed': seeds, 'fb': st.sampled_from([None, False, True]),
                                             'kind': st.sampled_from(['int', 'real', 'complex', 'fortran', 'view', 'float32', 'psd', 'psdreal'])}), check_smooth, 4000),
        Sub('coherent', coh(), check_coherent, 1600),
        Sub('l1_svd', st.fixed_dictionaries({'m': st.integers(1, 8), 'n': st.one_of(st.integers(1, 20), st.integers(21, 150)), 'k': st.integers(0, 7), 'seed': seeds, 'lowrank': st.booleans(), 'real': st.booleans()}), check_svd, 1600)]
