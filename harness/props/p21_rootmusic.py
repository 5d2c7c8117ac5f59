from hypothesis import strategies as st

from ..common import *
from ..core import Sub
from ..est import present, as_k, store

ID = 'P21'
TITLE = 'Root-MUSIC returns the k polynomial roots closest to the unit circle'
PROP = {
    'statement': 'For ideal covariances of up to M-1 sources on a uniform linear array (any spacing at which they are unambiguous, any unit, correlated or not, with or without noise) Root-MUSIC returns exactly k estimates equal to the true directions, without a search grid. For arbitrary covariance matrices the k estimates are the angles of the k roots of the Root-MUSIC polynomial inside the unit circle that are closest to it. Estimates are invariant to scaling the covariance and to adding a multiple of the identity, and follow a modulation of the array.',
    'quantifier': {'over': ['inputs', 'configurations'], 'text': 'all array sizes, source counts, directions, units, spacings, wavelengths and (noisy) covariance matrices'},
    'why_tests_cant': 'One test with one scenario; root pairing on the unit circle is sensitive to rounding and depends on the configuration.',
    'anchors': {'files': ['doatools/estimation/music.py', 'doatools/model/sources.py'],
                'mechanism': [{'name': 'polynomial rooting and selection', 'where': 'RootMUSIC1D.estimate'},
                              {'name': 'root to direction', 'where': 'FarField1DSourcePlacement.from_z'}],
                'observe_at': ['RootMUSIC1D.estimate']},
}
RULE = ('Scenarios (sizes, directions, powers/correlations, spacings, units) and random covariance matrices are generated; estimates are compared with the truth '
        'or with independently selected roots. Non-trivial: at least two sources or noise.')
ASSUMPTIONS = ['Ideal scenarios: electrical separation at least 0.8/M, so that double roots are resolvable to 1e-3 of the range in double precision.']

UNIT = {'rad': lambda s: np.arcsin(s), 'deg': lambda s: np.degrees(np.arcsin(s)), 'sin': lambda s: np.asarray(s)}
BACK = {'rad': np.sin, 'deg': lambda x: np.sin(np.radians(x)), 'sin': np.asarray}


def run(R, k, wl, ratio, unit, default_d0, kin=None, earlier=0):
    from doatools.estimation import RootMUSIC1D
    from doatools.model.sources import FarField1DSourcePlacement
    kw = {} if default_d0 else {'d0': ratio * wl}
    if unit is not None:
        kw['unit'] = unit
    est = RootMUSIC1D(wl)
    if earlier:
        # Calls with other settings, before.
        try:
            est.estimate(R if earlier % 2 else R[::-1, ::-1].conj(), 1 if earlier % 3 else k, **([{'d0': (0.3 + earlier % 7 / 10) * wl}, {}][earlier % 5 > 3]), unit=['rad', 'deg', 'sin'][earlier // 7 % 3])
        except ValueError:
            pass  # directions outside of the visible region
    R0 = R.copy()
    ok, e = est.estimate(R, kin or k, **kw)
    same(R, R0, 'covariance matrix')
    require(ok, 'Root-MUSIC did not resolve {} source(s)', k)
    require(isinstance(e, FarField1DSourcePlacement) and e.size == k, 'Root-MUSIC returned {} estimates instead of {}', getattr(e, 'size', e), k)
    require(tuple(e.units) == (unit or 'rad',), 'unit {}', e.units)
    require(np.all(np.diff(e.locations.ravel()) >= 0), 'estimates are not in ascending order: {}', e.locations.ravel())
    return BACK[unit or 'rad'](e.locations)


def elec_cov(m, u, P, sigma):
    A = np.exp(2j * math.pi * np.outer(np.arange(m), u))
    R = A @ P @ A.conj().T + sigma * np.eye(m)
    return 0.5 * (R + R.conj().T)


def check_ideal(case):
    m = case['m']
    k = len(case['u'])
    ratio, default = (0.5, True) if case['ratio'] is None else (case['ratio'], False)
    # Electrical angles within the unambiguous and visible region.
    u = np.array(case['u']) * min(0.5, ratio)
    r = rs(case['seed'])
    P = herm_pd(r, k, 0.5) if case['corr'] else np.diag(r.uniform(0.5, 2, k))
    R = elec_cov(m, u, P, case['sigma'])
    if case['real'] and k == 1:
        R = elec_cov(m, [0.0], P, case['sigma']).real.copy()
        u = np.zeros(1)
    form = ['plain', 'plain', 'fortran', 'view', 'readonly', 'tiny', 'huge', 'c64', 'npk'][case['seed'] // 3 % 9]
    if form in ('tiny', 'huge'):
        R = R * (1e-9 if form == 'tiny' else 1e9)
    Rin = store(R, form) if form != 'c64' else R.astype(np.complex64)
    s = run(Rin, k, case['wl'], ratio, case['unit'], default, as_k(k, form), case['seed'] // 31 % 4 and case['seed'] // 124)
    if form == 'c64':
        e = np.linalg.eigvalsh(R)
        if (e[m - k] - e[m - k - 1]) / e[-1] < 0.03 or k > m // 2:
            return None
        close(np.sort(s) * ratio, np.sort(u), 'electrical angles of {} sources, {} sensors (single precision)'.format(k, m), 0, 0.05 / m)
        return 'c64'
    z, _ = ref_roots(R, k)
    lead = np.max(np.abs(z)) < 1e6  # vanishing leading coefficients degrade the accuracy of the roots
    close(np.sort(s) * ratio, np.sort(u), 'electrical angles of {} sources, {} sensors'.format(k, m), 0, (1e-3 if lead else 1e-2) / m)
    return 'k%d%s' % (min(k, 5), '/max' if k == m - 1 else '') if k > 1 or case['sigma'] else None


def check_pairs(case):
    # Evenly spread sources: the polynomial has few distinct (double) roots, which rounding moves along or across the unit circle.
    m, k = case['m'], case['k']
    u = (case['num'] / case['den'] + np.arange(k) / k + 0.5) % 1.0 - 0.5
    s = run(elec_cov(m, u, np.eye(k), case['sigma']), k, 1.0, 0.5, 'sin', case['default'])
    d = np.abs(np.exp(2j * math.pi * u)[:, None] - np.exp(1j * math.pi * s.ravel())[None, :])
    require(max(d.min(0).max(), d.min(1).max()) < 0.02, '{} evenly spread sources at {} ({} sensors): estimated at {}', k, u, m, s.ravel() / 2)
    return 'm%d/k%d' % (m, k)


@st.composite
def ideal(draw):
    m = draw(st.one_of(st.integers(2, 12), st.integers(2, 12), st.integers(2, 12), st.integers(13, 20)))
    k = draw(st.integers(1, m - 1))
    ratio = draw(st.one_of(st.none(), st.just(0.5), fl(0.1, 1.5)))
    gap = 0.8 / m / min(0.5, ratio or 0.5)
    while k > 1 and gap * (k - 1) > 1.85:
        k -= 1
    return {'m': m, 'u': separated(draw, k, -0.94, 0.94, gap), 'ratio': ratio, 'wl': draw(wavelengths),
            'unit': draw(st.sampled_from(['rad', 'deg', 'sin', None])), 'corr': draw(st.booleans()), 'sigma': draw(st.sampled_from([0.0, 1e-3, 0.1, 1.0])),
            'seed': draw(seeds), 'real': draw(st.booleans())}


def ref_roots(R, k):
    v, E = np.linalg.eigh(R)
    m = len(v)
    S = E[:, m - k:]
    P = np.eye(m) - S @ S.conj().T
    c = [np.trace(P, offset=q) for q in range(m - 1, -m, -1)]
    z = np.roots(c)
    return z, (v[m - k] - v[m - k - 1]) / v[-1]


def check_noisy(case):
    m, k = case['m'], min(case['k'], case['m'] - 1)
    r = rs(case['seed'])
    x = randc(r, m, case['n'] * m)
    u = r.uniform(-0.5, 0.5, k)
    A = np.exp(2j * math.pi * np.outer(np.arange(m), u))
    y = A @ randc(r, k, case['n'] * m) * case['snr'] + x
    R = y @ y.conj().T / (case['n'] * m)
    R = 0.5 * (R + R.conj().T)
    R, _, _, form = present(R, case['seed'], ['plain', 'plain', 'plain', 'real', 'fortran', 'view', 'readonly', 'realview', 'npk'])
    z, gap = ref_roots(R, k)
    a = np.abs(z)
    if gap < 1e-3 or np.min(np.abs(1 - a)) < 1e-4:
        return None
    ins = sorted(z[a < 1], key=lambda q: -abs(q))
    if len(ins) != m - 1 or (len(ins) > k and abs(ins[k - 1]) - abs(ins[k]) < 1e-6):
        return None
    ratio = case['ratio']
    want = np.angle(np.array(ins[:k])) / (2 * math.pi)
    if np.min(np.abs(np.abs(want) - 0.5)) < 1e-6:
        return None
    Rin = store(R, form)
    s = run(Rin, k, case['wl'], ratio, case['unit'], False, as_k(k, form), case['seed'] // 31 % 4 and case['seed'] // 124)
    close(np.sort(s) * ratio, np.sort(want), 'electrical angles', 0, 1e-6)
    # Metamorphic: scaling, loading and modulation.
    s2 = run(R * case['scale'], k, case['wl'], ratio, 'sin', False)
    close(np.sort(s2) * ratio, np.sort(want), 'electrical angles of a scaled covariance matrix', 0, 1e-6)
    s3 = run(R + np.eye(m) * case['load'], k, case['wl'], ratio, 'sin', False)
    close(np.sort(s3) * ratio, np.sort(want), 'electrical angles of a loaded covariance matrix', 0, 1e-6)
    d = case['shift']
    D = np.exp(2j * math.pi * d * np.arange(m))
    s4 = run(D[:, None] * R * D.conj()[None, :], k, case['wl'], ratio, 'sin', False)
    w = (want + d + 0.5) % 1.0 - 0.5
    if np.min(np.abs(np.abs(w) - 0.5)) > 1e-5:
        close(np.sort(s4) * ratio, np.sort(w), 'electrical angles after a modulation', 0, 1e-6)
    return 'm%d/k%d' % (m // 3 * 3, min(k, 4))


def check_reject(case):
    from doatools.estimation import RootMUSIC1D
    m = case['m']
    e = RootMUSIC1D(1.0)
    R = np.eye(m) * 1.0
    raises(ValueError, lambda: e.estimate(R, m + case['x']), 'too many sources')
    raises(ValueError, lambda: e.estimate(np.ones((m, m + 1)), 1), 'non-square covariance matrix')
    raises(ValueError, lambda: e.estimate(np.ones((m,)), 1), 'vector instead of a covariance matrix')
    return 'reject'


def check_endfire(case):
    # A source along the array axis: both signs are the same direction at half-wavelength spacing.
    m = case['m']
    a = (-1.0) ** np.arange(m)
    R = case['power'] * np.outer(a, a) + case['sigma'] * np.eye(m)
    if case['complex']:
        R = R.astype(complex)
    s = run(R, 1, case['wl'], 0.5, case['unit'], case['default'])
    close(np.abs(s), np.ones(1), 'sine of the direction of an end-fire source', 0, 1e-3 / m)
    # Close to the array axis.
    x = case['sign'] * (1 - case['near'])
    s = run(elec_cov(m, [x * case['ratio']], np.eye(1) * case['power'], case['sigma']), 1, case['wl'], case['ratio'], case['unit'], False)
    close(s, [x], 'sine of the direction of a source close to end-fire', 0, 0.2 * case['near'])
    return 'endfire'


SUBS = [Sub('ideal', ideal(), check_ideal, 3000),
        Sub('noisy', st.fixed_dictionaries({'m': st.one_of(st.integers(2, 10), st.integers(2, 10), st.integers(2, 10), st.integers(11, 16)), 'k': st.integers(1, 9), 'n': st.integers(2, 8), 'seed': seeds, 'snr': logfl(0.3, 30), 'ratio': fl(0.5, 2.0),
                                            'wl': wavelengths, 'unit': st.sampled_from(['rad', 'deg', 'sin', None]), 'scale': logfl(1e-6, 1e6), 'load': logfl(0.1, 10), 'shift': fl(-0.5, 0.5)}), check_noisy, 2500),
        Sub('pairs', st.integers(2, 13).flatmap(lambda m: st.fixed_dictionaries({
            'm': st.just(m), 'k': st.one_of(st.sampled_from([q for q in (1, 2, 3, 4) if q < m]), st.integers(1, m - 1)), 'den': st.integers(1, 40), 'num': st.integers(0, 40), 'sigma': st.sampled_from([0.0, 0.1, 1.0]), 'default': st.booleans()})), check_pairs, 4000),
        Sub('endfire', st.fixed_dictionaries({'m': st.integers(2, 10), 'power': logfl(0.1, 10), 'sigma': st.sampled_from([0.0, 0.1, 1.0]), 'complex': st.booleans(),
                                              'wl': wavelengths, 'unit': st.sampled_from(['rad', 'deg', 'sin', None]), 'default': st.booleans(),
                                              'sign': st.sampled_from([-1, 1]), 'near': logfl(1e-5, 1e-2), 'ratio': fl(0.2, 0.5)}), check_endfire, 400),
        Sub('reject', st.fixed_dictionaries({'m': st.integers(2, 8), 'x': st.integers(0, 3)}), check_reject, 40)]
