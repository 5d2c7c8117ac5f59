from hypothesis import strategies as st

from ..common import *
from ..core import Sub
from ..est import *

ID = 'P16'
TITLE = 'Estimates are exactly the k largest spectrum peaks, in grid order'
PROP = {
    'statement': 'A spectrum-based estimator reports "resolved" exactly when the spectrum has at least k peaks, and then returns the grid points of the k largest peaks, ordered as in the search grid, with the type and unit of the grid. Peaks are interior local maxima in 1D (the middle point of a flat top), and points that are maximal but not constant over their 3x3 neighbourhood (clipped at the border) in 2D, or whatever a custom peak finder reports. The spectrum is appended exactly when requested, and when unresolved the estimates are None.',
    'quantifier': {'over': ['inputs', 'configurations'], 'text': 'all spectra (ties, plateaus, borders, constants) on 1D and 2D grids, all k, custom peak finders'},
    'why_tests_cant': 'Tests use spectra with k clean interior peaks; selection among more or fewer peaks, ordering, plateaus and borders are unobserved.',
    'anchors': {'files': ['doatools/estimation/core.py'],
                'mechanism': [{'name': 'peak finding', 'where': 'find_peaks_simple'},
                              {'name': 'selection of peaks', 'where': 'SpectrumBasedEstimatorBase._estimate'}],
                'observe_at': ['estimate', 'return_spectrum', 'peak_finder']},
}
RULE = ('Arbitrary spectra are realized through a single directional sensor whose response is tabulated per grid point (Bartlett), and through '
        'random covariance matrices on real arrays; peaks are recomputed by explicit neighbour comparison. Non-trivial: at least one peak.')


def peaks_1d(x):
    out, i, n = [], 1, len(x)
    while i < n - 1:
        if x[i - 1] < x[i]:
            j = i
            while j + 1 < n and x[j + 1] == x[i]:
                j += 1
            if j < n - 1 and x[j + 1] < x[i]:
                out.append(((i + j) // 2,))
            i = j + 1
        else:
            i += 1
    return out


def peaks_2d(x):
    out = []
    n, m = x.shape
    for i in range(n):
        for j in range(m):
            w = x[max(0, i - 1):i + 2, max(0, j - 1):j + 2]
            if x[i, j] >= w.max() and x[i, j] > w.min():
                out.append((i, j))
    return out


def check_selection(sp, peaks, k, resolved, est, g, src, what):
    """est must be a valid choice of the k largest peaks, in grid order."""
    require(isinstance(resolved, (bool, np.bool_)), 'resolved is {!r}', resolved)
    require(bool(resolved) == (len(peaks) >= k), '{}: resolved = {} with {} peaks and k = {}', what, resolved, len(peaks), k)
    if not resolved:
        require(est is None, 'estimates of an unresolved case')
        return
    pl = build_sources(dict(src, loc=src['loc'][:1]))
    require(type(est) is type(pl), 'estimates are of type {}', type(est))
    require(tuple(est.units) == tuple(pl.units), 'unit of the estimates {}', est.units)
    require(est.size == k, '{} estimates instead of {}', est.size, k)
    L = np.array(src['loc'], dtype=float).reshape((sp.size, -1))
    E = np.asarray(est.locations).reshape((k, -1))
    idx = []
    for e in E:
        d = np.max(np.abs(L - e), axis=1)
        i = int(np.argmin(d))
        require(d[i] <= 1e-9 * (1 + np.max(np.abs(L))), 'estimate {} is not a grid point', e)
        idx.append(i)
    require(idx == sorted(idx) and len(set(idx)) == k, 'estimates are not in grid order: grid indices {}', idx)
    flat = [int(np.ravel_multi_index(p, sp.shape)) for p in peaks]
    require(all(i in flat for i in idx), '{}: grid indices {} are not all peaks {}', what, idx, flat)
    v = sp.flatten()
    got = sorted(float(v[i]) for i in idx)
    want = sorted(float(v[i]) for i in flat)[-k:]
    require(got == want, '{}: selected peak values {} instead of the largest ones {}', what, got, want)


def simple_grid(case):
    t = case['grid']
    n = case['shape']
    if t == 'far1d':
        return {'t': 'axes1', 'unit': case['unit'], 'axes': [[(-0.9 + 1.8 * i / n[0]) * (50 if case['unit'] == 'deg' else 1) for i in range(n[0])]]}
    if t == 'far2d':
        q = 180 / math.pi if case['unit'] == 'deg' else 1.0
        return {'t': 'axes2f', 'unit': 'deg' if case['unit'] == 'deg' else 'rad',
                'axes': [[(-3 + 6 * i / n[0]) * q for i in range(n[0])], [(0.1 + 1.3 * i / n[1]) * q for i in range(n[1])]]}
    return {'t': 'axes2n', 'unit': 'm', 'axes': [[-4 + 8 * i / n[0] + 0.013 for i in range(n[0])], [1 + 5 * i / n[1] for i in range(n[1])]]}


def check_tabulated(case):
    from doatools.model.array_elements import CustomNonisotropicSensor
    from doatools.model.arrays import ArrayDesign
    from doatools.estimation import BartlettBeamformer, MVDRBeamformer
    gs = simple_grid(case)
    g = build_grid(gs)
    src = grid_sources(gs)
    N = len(src['loc'])
    vals = np.array([case['vals'][i % len(case['vals'])] for i in range(N)], dtype=float)
    if src['type'] == 'near2d':
        P = np.array(src['loc'])
        key = np.hstack((P, np.zeros((N, 1))))
    else:
        key = direction_vectors(src).T

    def f(r, az, el, pol):
        rr = np.where(np.isinf(r), 1.0, r)
        v = np.stack((rr * np.cos(el) * np.cos(az), rr * np.cos(el) * np.sin(az), rr * np.sin(el)), axis=-1)
        d = np.linalg.norm(v[..., None, :] - key, axis=-1)
        return vals[np.argmin(d, axis=-1)]

    arr = ArrayDesign(np.zeros((1, 1 if src['type'] == 'far1d' else 2)), 'single', element=CustomNonisotropicSensor(f))
    kw = {}
    inv = case['inverse'] and not case['neg']  # peaks of infinite height where the response is zero
    lim = -3 if case['neg'] else 0.3 if inv else 1
    if case['finder'] == 'all':
        kw['peak_finder'] = lambda x: np.where(x > lim)
    elif case['finder'] == 'none':
        kw['peak_finder'] = lambda x: tuple(np.zeros((0,), dtype=int) for _ in range(x.ndim))
    elif case['finder'] == 'reversed':
        kw['peak_finder'] = lambda x: tuple(q[::-1] for q in np.where(x >= np.median(x)))
    e = (MVDRBeamformer if inv else BartlettBeamformer)(arr, 1.0, g, **kw)
    k = case['k']
    # An indefinite matrix (direct augmentation produces such) has negative spectrum values.
    sgn = -1.0 if case['neg'] else 1.0
    with np.errstate(all='ignore'):
        out = e.estimate(np.array([[sgn]]), k, return_spectrum=True)
    require(isinstance(out, tuple) and len(out) == 3, 'estimate(return_spectrum=True) returned {!r}', out)
    sp = out[2]
    if inv:
        with np.errstate(divide='ignore'):
            v = 1.0 / (vals ** 2).reshape(tuple(g.shape))
        require(np.array_equal(np.isinf(sp), np.isinf(v)) and np.allclose(sp, v, 1e-9, 0), 'spectrum {} instead of {}', sp, v)
    else:
        close(sp, sgn * (vals ** 2).reshape(tuple(g.shape)), 'spectrum', 0, 1e-9)
    if case['finder'] == 'default':
        peaks = peaks_1d(sp) if sp.ndim == 1 else peaks_2d(sp)
    elif case['finder'] == 'none':
        peaks = []
    else:
        w = np.where(sp > lim) if case['finder'] == 'all' else np.where(sp >= np.median(sp))
        peaks = list(zip(*[q.tolist() for q in w]))
    check_selection(sp, peaks, k, out[0], out[1], g, src, case['grid'])
    with np.errstate(all='ignore'):
        out2 = e.estimate(np.array([[sgn]]), k, **({} if case['explicit'] else {'return_spectrum': False}))
    require(isinstance(out2, tuple) and len(out2) == 2, 'estimate without spectrum returned {} values', len(out2))
    require(bool(out2[0]) == bool(out[0]), 'resolved depends on return_spectrum')
    if out[0]:
        same(out2[1].locations, out[1].locations, 'estimates without spectrum')
    n = len(peaks)
    return '%s/%s/%s' % (case['grid'], case['finder'], 'fewer' if n < k else 'equal' if n == k else 'more') if n or case['finder'] == 'none' else 'nopeak'


@st.composite
def tab(draw):
    t = draw(st.sampled_from(['far1d', 'far1d', 'far2d', 'near2d']))
    shape = [draw(st.integers(1, 40))] if t == 'far1d' else [draw(st.integers(1, 9)), draw(st.integers(1, 9))]
    hi = draw(st.sampled_from([1, 2, 5, 100]))
    n = 1
    for s in shape:
        n *= s
    return {'grid': t, 'shape': shape, 'unit': draw(st.sampled_from(['rad', 'deg', 'sin'])),
            'vals': draw(st.lists(st.integers(0, hi), min_size=1, max_size=n)),
            'finder': draw(st.sampled_from(['default', 'default', 'default', 'default', 'all', 'none', 'reversed'])),
            'k': draw(rarely(st.integers(1, 5), st.integers(6, 14), 4)), 'neg': draw(rarely(st.just(0), st.just(1), 5)), 'inverse': draw(rarely(st.just(0), st.just(1), 4)), 'explicit': draw(st.booleans())}


def check_methods(case):
    """Every method on real arrays: the selection is consistent with the returned spectrum."""
    method = case['method']
    m = array_size(case['array'])
    if m < 2:
        return None
    a = build_array(case['array'])
    g = build_grid(case['grid'])
    src = grid_sources(case['grid'])
    if len(set(map(str, src['loc']))) < len(src['loc']):
        return None  # repeated grid points
    k = min(case['k'], m - 1)
    R, Rin, _, form = present(indefinite(eig_cov(case['seed'], m, k), case), case['seed'])
    out = estimator(method, a, case['wl'], g).estimate(Rin, as_k(k, form), return_spectrum=True)
    sp = out[2]
    if not np.all(np.isfinite(sp)):
        return None
    peaks = peaks_1d(sp) if sp.ndim == 1 else peaks_2d(sp)
    check_selection(sp, peaks, k, out[0], out[1], g, src, method)
    return '%s/%s/%s' % (method, src['type'], 'resolved' if out[0] else 'unresolved')


SUBS = [Sub('tabulated', tab(), check_tabulated, 4000),
        Sub('methods', st.fixed_dictionaries({'method': st.sampled_from(METHODS), 'array': st.one_of(ulas(10, 2), planar(), generic_arrays(max_m=7)),
                                              'grid': grid_spec(25, dense=1600), 'wl': wavelengths, 'k': st.integers(1, 4), 'seed': seeds}), check_methods, 2000)]
