from hypothesis import strategies as st

from ..common import *
from ..core import Sub
from ..est import present

ID = 'P12'
TITLE = 'Augmented covariances equal the virtual uniform array covariance'
PROP = {
    'statement': 'For every 1D grid-based array, the direct-augmentation matrix is the Toeplitz-structured arrangement of the per-lag averages of the input covariance (entry (i, j) is the average over all sensor pairs with index difference i-j), and the spatially smoothed matrix is its product with its own conjugate transpose divided by the virtual size, hence Hermitian positive semidefinite. For an ideal covariance of uncorrelated sources plus white noise, direct augmentation yields exactly the covariance of the virtual uniform array. Transforming is a pure function: input and builder are unchanged and repeated calls agree.',
    'quantifier': {'over': ['inputs', 'configurations', 'histories'], 'text': 'all 1D grid arrays (holes, unsorted), all Hermitian inputs, sources, powers, noise levels'},
    'why_tests_cant': 'Tests check one ideal covariance and one design; the averaging identity must hold for every geometry and matrix.',
    'anchors': {'files': ['doatools/estimation/coarray.py', 'doatools/model/coarray.py'],
                'mechanism': [{'name': 'redundancy averaging and augmentation', 'where': 'CoarrayACMBuilder1D.transform'}],
                'observe_at': ['CoarrayACMBuilder1D.transform', 'get_virtual_ula', 'input_size', 'output_size']},
}
RULE = ('1D grid arrays and covariances (random Hermitian or model-based) are generated; compared with per-lag averages computed by '
        'enumeration. Non-trivial: at least three sensors and two contiguous lags.')


def lag_mean(idx, R, d):
    v = [R[r, c] for r in range(len(idx)) for c in range(len(idx)) if idx[r] - idx[c] == d]
    return sum(v) / len(v)


def mid():
    """Larger designs, with virtual arrays of up to about 60 elements."""
    return st.one_of(st.builds(lambda a, b, d: {'kind': 'nested', 'n1': a, 'n2': b, 'd0': d}, st.integers(4, 6), st.integers(5, 8), logfl(0.1, 3)),
                     st.builds(lambda n, d: {'kind': 'mrla', 'n': n, 'd0': d}, st.integers(9, 13), logfl(0.1, 3)))


@st.composite
def arr(draw):
    k = draw(st.integers(0, 3))
    if k == 0:
        return draw(rarely(ulas(8), ulas(24, 9)))
    if k == 1:
        return draw(rarely(sparse1d(small=True), mid(), 12))
    n = draw(rarely(st.integers(2, 8), st.integers(9, 14)))
    idx = draw(st.lists(st.integers(-4, 9 if n < 9 else 22), min_size=n, max_size=n, unique=True))
    return draw(line_grid(idx, logfl(0.1, 3)))


def check_transform(case):
    from doatools.estimation.coarray import CoarrayACMBuilder1D
    a = build_array(case['array'])
    idx = [int(i) for i in a.element_indices[:, 0]]
    m = len(idx)
    b = CoarrayACMBuilder1D(a)
    diffs = {x - y for x in idx for y in idx}
    mv = 0
    while mv in diffs:
        mv += 1
    require(b.input_size == m and b.output_size == mv, 'sizes {} -> {} instead of {} -> {}', b.input_size, b.output_size, m, mv)
    r = rs(case['seed'])
    first = None
    for step in case['steps']:
        ref, R, loose, form = present(herm_pd(r, m) * step['scale'], step['form'])
        keep = R.copy()
        z = {d: lag_mean(idx, ref, d) for d in range(1 - mv, mv)}
        T = np.array([[z[i - j] for j in range(mv)] for i in range(mv)])
        da = b.transform(R, 'da')
        close(da, T, 'direct augmentation', 3e-12 * loose, 0)
        S = T @ T.conj().T / mv
        out = {'ss': b.transform(R, 'ss'), 'default': b.transform(R), 'call': b(R), 'callss': b(R, 'ss')}
        for k, ss in out.items():
            close(ss, S, 'spatially smoothed matrix ({})'.format(k), 1e-11 * loose, 0)
        close(b(R, method='da'), T, 'direct augmentation by call', 3e-12 * loose, 0)
        close(out['ss'], out['ss'].conj().T, 'Hermitian symmetry', 1e-12 * loose, 0)
        w = np.linalg.eigvalsh(out['ss'])
        require(w[0] >= -1e-10 * loose * max(w[-1], 1e-300), 'smallest eigenvalue {} of the smoothed matrix', w[0])
        same(R, keep, 'input covariance after transform')
        if first is None:
            first = (R, T, S, loose)
    close(b.transform(first[0], 'da'), first[1], 'repeated direct augmentation', 3e-12 * first[3], 0)
    close(b.transform(first[0], 'ss'), first[2], 'repeated smoothing', 1e-11 * first[3], 0)
    raises(ValueError, lambda: b.transform(first[0], 'xx'), 'unknown method')
    raises(ValueError, lambda: b.transform(np.eye(m + 1)), 'covariance of the wrong size')
    return case['array']['kind'] if m >= 3 and mv >= 2 else None


def check_ideal(case):
    from doatools.estimation.coarray import CoarrayACMBuilder1D
    a = build_array(case['array'], case['perts'])
    wl = case['wl']
    s = case['src']
    K = len(s['loc'])
    p = np.resize(case['p'], K)
    src = build_sources(s)
    x = np.array(ref_locations(case['array']) if case['array']['kind'] != 'mrla' else a.element_locations)
    A = ref_steering(x, s, wl)
    R = (A * p) @ A.conj().T + case['sigma'] * np.eye(a.size)
    b = CoarrayACMBuilder1D(a)
    v = b.get_virtual_ula(case['name']) if case['name'] else b.get_virtual_ula()
    mv = b.output_size
    require(v.size == mv, 'virtual array size {}', v.size)
    if case['name']:
        require(v.name == case['name'], 'virtual array name {!r}', v.name)
    require(not v.is_perturbed, 'the virtual array is perturbed')
    d0 = line_step(case['array'])
    close(v.element_locations, np.arange(mv)[:, None] * d0, 'virtual array locations', 1e-12)
    close(np.abs(np.ravel(v.d0)), [abs(d0)], 'virtual array spacing', 1e-12)
    V = ref_steering(np.arange(mv)[:, None] * d0, s, wl)
    Rv = (V * p) @ V.conj().T + case['sigma'] * np.eye(mv)
    t = 1e-9 * (1 + 40 * abs(d0) / wl)
    close(b.transform(R, 'da'), Rv, 'augmented ideal covariance', t)
    close(b.transform(R, 'ss'), Rv @ Rv / mv, 'smoothed ideal covariance', t * 3)
    AV = v.steering_matrix(src, wl)
    close(b.transform(R, 'da'), (AV * p) @ AV.conj().T + case['sigma'] * np.eye(mv), 'augmented covariance against get_virtual_ula()', t)
    return case['array']['kind'] if a.size >= 3 and mv >= 2 else None


SUBS = [
    Sub('transform', st.fixed_dictionaries({'array': arr(), 'seed': seeds, 'steps': st.lists(st.fixed_dictionaries(
        {'scale': logfl(1e-3, 1e3), 'form': seeds}), min_size=1, max_size=3)}), check_transform, 2500),
    Sub('ideal', st.fixed_dictionaries({'array': arr(), 'src': far1d(max_k=7), 'perts': rarely(st.just([]), pert_list(), 2), 'wl': wavelengths, 'sigma': logfl(1e-3, 10),
                                        'p': st.lists(logfl(0.05, 20), min_size=7, max_size=7),
                                        'name': st.sampled_from([None, 'v'])}), check_ideal, 2500),
]
