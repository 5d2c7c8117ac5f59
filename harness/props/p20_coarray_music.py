from hypothesis import strategies as st

from ..common import *
from ..core import Sub
from ..est import *

ID = 'P20'
TITLE = 'Coarray MUSIC finds more uncorrelated sources than sensors'
PROP = {
    'statement': 'For a sparse linear array and an ideal covariance matrix of uncorrelated sources, running MUSIC, MinNorm, Root-MUSIC or ESPRIT on the augmented covariance matrix (spatially smoothed or directly augmented) with the virtual uniform array recovers every source, for any number of sources below the virtual array size, including more sources than sensors. The virtual array has the base spacing of the physical array, is unperturbed, and its size is that of the augmented matrix.',
    'quantifier': {'over': ['inputs', 'configurations'], 'text': 'all sparse linear arrays and spacings, source counts up to the coarray limit, powers, noise levels'},
    'why_tests_cant': 'One test checks one co-prime array; identifiability beyond the number of sensors depends on every lag being averaged correctly for every geometry.',
    'anchors': {'files': ['doatools/estimation/coarray.py', 'doatools/model/coarray.py', 'doatools/estimation/music.py', 'doatools/model/arrays.py'],
                'mechanism': [{'name': 'augmented covariance', 'where': 'CoarrayACMBuilder1D.transform'}, {'name': 'virtual array', 'where': 'get_virtual_ula'}],
                'observe_at': ['transform', 'get_virtual_ula', 'MUSIC.estimate']},
}
RULE = ('Sparse arrays, spacings, source sets (up to the coarray limit) and powers are generated; on-grid recovery is exact and gridless recovery within 1e-3 of a beamwidth. '
        'Non-trivial: at least two sources.')
ASSUMPTIONS = ['Sources are separated by at least 0.8/mv in electrical angle (normalized), powers within a factor of 4, so that double precision suffices.']


def check_recovery(case):
    from doatools import estimation as E
    spec = case['array']
    m = array_size(spec)
    a = build_array(spec)
    nom = nominal(spec, a)
    step = line_step(spec)
    d0 = abs(step)
    wl = case['wl'] * d0  # d0 / wl = 1 / case['wl']
    b = E.CoarrayACMBuilder1D(a)
    mv = b.output_size
    if mv < 2:
        return None
    v = b.get_virtual_ula()
    require(v.size == mv and not v.is_perturbed, 'virtual array has {} sensors instead of {}', v.size, mv)
    close(np.diff(v.element_locations[:, 0]), np.full(mv - 1, step), 'spacing of the virtual array', 1e-12, 1e-12)
    k = 1 + case['k'] % (mv - 1)
    n = 20 * mv
    # electrical angles u = d0 / wl * sin(theta) in (-1/2, 1/2), separated on a grid of n points.
    lim = min(0.5, d0 / wl)
    gap = max(2, int(0.8 * 20 / (2 * lim) / 1.0))
    span = n - 4
    while k > 1 and gap * (k - 1) > span:
        k -= 1
    w = sorted(case['w'][:k])
    w += [w[-1]] * (k - len(w))
    room = span - gap * (k - 1)
    idx = [2 + int(room * c / 1000) + gap * i for i, c in enumerate(w)]
    hi = lim * wl / d0  # sin range
    u = -hi + 2 * hi * np.arange(n) / n
    s = {'type': 'far1d', 'unit': 'sin', 'loc': [float(u[i]) for i in idx]}
    A = ref_steering(nom, s, wl)
    p = np.array([case['p'][i % len(case['p'])] for i in range(k)])
    sigma = case['sigma']
    R = (A * p) @ A.conj().T + sigma * np.eye(m)
    R = store(R, case['form'])
    R0 = R.copy()
    Rv = b.transform(R, case['method'])
    same(R, R0, 'covariance matrix')
    require(Rv.shape == (mv, mv), 'augmented matrix {}', Rv.shape)
    true = np.array(s['loc'])
    est = case['est']
    if est in ('music', 'minnorm'):
        g = E.FarField1DSearchGrid(-hi, hi, n, 'sin')
        if k + 1 > mv:
            return None
        # Identifiability in double precision, judged by the reference on the virtual array.
        An = ref_steering(np.arange(mv)[:, None] * step, {'type': 'far1d', 'unit': 'sin', 'loc': list(g.axes[0])}, wl)
        Av = An[:, idx]
        T = (Av * p) @ Av.conj().T + sigma * np.eye(mv)
        ideal = T @ T / mv if case['method'] == 'ss' else T
        null, tol = ref_null(est, An, 0.5 * (ideal + ideal.conj().T), k)
        off = np.ones(n, dtype=bool)
        off[idx] = False
        if not np.min(null[off]) > max(1e-6, 1e3 * tol):
            return None
        ok, e = (E.MUSIC if est == 'music' else E.MinNorm)(v, wl, g).estimate(Rv, k)
        require(ok, '{} sources not resolved by {}', k, est)
        close(e.locations, true, '{} estimates of {} sources with {} sensors'.format(est, k, m), 1e-9, 1e-9)
    else:
        if k > 12:
            return None
        if hi * d0 / wl > 0.5 + 1e-9 or np.max(np.abs(true)) * d0 / wl > 0.49:
            return None
        if est == 'esprit':
            ok, e = E.Esprit1D(wl).estimate(Rv, k, d0=d0, unit='sin')
            tol = 1e-5
        else:
            ok, e = E.RootMUSIC1D(wl).estimate(Rv, k, d0=d0, unit='sin')
            tol = 1e-3
        require(ok and e.size == k, '{} sources not resolved by {}', k, est)
        # A mirrored virtual array sees mirrored directions.
        close(np.sort(np.sign(step) * e.locations), true, '{} estimates of {} sources with {} sensors'.format(est, k, m), 0, tol * hi)
    return '%s/%s/%s' % (est, case['method'], 'k>=m' if k >= m else 'k<m') if k > 1 else None


@st.composite
def lines(draw):
    if draw(st.booleans()):
        idx = draw(st.permutations(draw(st.sampled_from([[0, 1, 4, 6], [0, 1, 2, 5, 8], [0, 2, 3, 4, 6, 9], [0, 1, 4, 7, 9], [0, 1, 3], [0, 1, 2, 3, 4], [0, 2, 5, 6, 7, 11]]))))
        off = draw(st.integers(-9, 9))
        idx = [i + off for i in idx]
    else:
        idx = draw(st.lists(st.integers(-4, 9), min_size=2, max_size=8, unique=True))
    return draw(line_grid(idx, logfl(0.1, 3)))


SUBS = [Sub('recovery', st.fixed_dictionaries({
    'array': st.one_of(sparse1d().filter(lambda s: 2 <= array_size(s) <= 12), lines()), 'wl': st.sampled_from([2.0, 2.0, 2.5, 4.0, 1.5, 1.0]), 'k': st.integers(0, 40),
    'w': st.lists(st.integers(0, 1000), min_size=1, max_size=12), 'p': st.lists(fl(0.5, 2.0), min_size=1, max_size=5),
    'sigma': st.sampled_from([0.0, 0.1, 1.0]), 'form': st.sampled_from(['plain', 'fortran', 'view', 'readonly']), 'method': st.sampled_from(['ss', 'da']), 'est': st.sampled_from(['music', 'music', 'minnorm', 'rootmusic', 'esprit'])}),
    check_recovery, 1600)]
