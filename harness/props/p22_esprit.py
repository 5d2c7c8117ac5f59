from hypothesis import strategies as st

from ..common import *
from ..core import Sub
from ..est import as_k, present, store
from .p21_rootmusic import BACK, elec_cov

ID = 'P22'
TITLE = 'ESPRIT solves the weighted (total) least squares invariance equations'
PROP = {
    'statement': 'For ideal covariances of a uniform linear array ESPRIT returns exactly k estimates equal to the true directions for LS and TLS, any admissible displacement, spacing, unit and row weights (default, none, or a vector without zeros). For arbitrary covariances the estimates are the phases of the eigenvalues of the (total) least squares solution of W Es1 Phi = W Es2, where Es1/Es2 are the signal subspace without the last/first `displacement` rows and W the diagonal row weights (default: the square roots of 1,2,...,2,1). Inadmissible displacements, source counts, weights and formulations are rejected, and inputs are not modified.',
    'quantifier': {'over': ['inputs', 'configurations'], 'text': 'all array sizes, source counts, displacements, weights, formulations, units, spacings and covariance matrices'},
    'why_tests_cant': 'Tests are noiseless, where any weighting gives the same answer; the weighting, TLS and displacement only matter for general covariances.',
    'anchors': {'files': ['doatools/estimation/esprit.py', 'doatools/model/sources.py'],
                'mechanism': [{'name': 'invariance equations', 'where': 'Esprit1D.estimate'}, {'name': 'default weights', 'where': 'get_default_row_weights'}],
                'observe_at': ['Esprit1D.estimate']},
}
RULE = ('Scenarios and random covariance matrices, displacements, weights (integer and float) and formulations are generated; compared with the truth and with independently '
        'solved invariance equations. Non-trivial: at least two sources or noise.')


def weights(case, mr):
    w = case['weights']
    if w in ('default', 'none'):
        return w
    r = rs(case['wseed'])
    if w == 'signed':
        return r.uniform(0.1, 3.0, mr) * r.choice([-1, 1], mr)
    return r.randint(1, 9, mr) if w == 'int' else r.uniform(0.1, 3.0, mr)


def run(R, k, case, mr):
    from doatools.estimation import Esprit1D
    from doatools.model.sources import FarField1DSourcePlacement
    kw = {}
    ratio = 0.5
    if case['ratio'] is not None:
        kw['d0'] = case['ratio'] * case['wl']
        ratio = case['ratio']
    if case['disp'] != 1 or case['explicit']:
        kw['displacement'] = case['disp']
    if case['formulation']:
        kw['formulation'] = case['formulation']
    w = weights(case, mr)
    if w is not None and not (isinstance(w, str) and w == 'default' and not case['explicit']):
        kw['row_weights'] = w
    w0 = w.copy() if isinstance(w, np.ndarray) else w
    if case['unit']:
        kw['unit'] = case['unit']
    form = ['plain', 'fortran', 'view', 'readonly', 'npk', 'plain'][case['seed'] // 3 % 6]
    R = store(R, form)
    est = Esprit1D(case['wl'])
    q = case['seed'] // 31
    if q % 2:
        # A call with other settings, before.
        try:
            est.estimate(R, 1 if q % 4 > 1 else k, d0=(0.3 + q % 7 / 10) * case['wl'], displacement=1, formulation=['ls', 'tls'][q // 5 % 2],
                         row_weights=['default', 'none', np.arange(1.0, len(R))][q // 7 % 3], unit=['rad', 'deg', 'sin'][q // 11 % 3])
        except (ValueError, np.linalg.LinAlgError):
            pass  # directions outside of the visible region
    R0 = R.copy()
    ok, e = est.estimate(R, as_k(k, form), **kw)
    same(R, R0, 'covariance matrix')
    if isinstance(w, np.ndarray):
        same(w, w0, 'row weights')
    require(ok, 'ESPRIT did not resolve')
    require(isinstance(e, FarField1DSourcePlacement) and e.size == k, 'ESPRIT returned {} estimates instead of {}', e.size, k)
    require(tuple(e.units) == (case['unit'] or 'rad',), 'unit {}', e.units)
    require(np.all(np.diff(e.locations.ravel()) >= 0), 'estimates are not in ascending order: {}', e.locations.ravel())
    return BACK[case['unit'] or 'rad'](e.locations), ratio


def check_ideal(case):
    m, disp = case['m'], case['disp']
    if disp >= m:
        return None
    k = len(case['u'])
    ratio = case['ratio'] or 0.5
    lim = min(ratio, 0.5 / disp)
    u = np.array(case['u']) * lim
    r = rs(case['seed'])
    P = herm_pd(r, k, 0.5) if case['corr'] else np.diag(r.uniform(0.5, 2, k))
    if k > m - disp:
        return None
    if k > 1 and np.min(np.diff(u)) < 0.6 / m:
        return None
    s, ratio = run(elec_cov(m, u, P, case['sigma']), k, case, m - disp)
    # Rounding is amplified by the conditioning of the reduced (weighted) steering matrix.
    A = np.exp(2j * math.pi * np.outer(np.arange(m - disp), u))
    w = weights(case, m - disp)
    if isinstance(w, np.ndarray):
        A = A * w[:, None]
    c = np.linalg.cond(A)
    if c > 1e4:
        return None
    close(np.sort(s) * ratio, np.sort(u), 'electrical angles of {} sources'.format(k), 0, 1e-12 * c ** 2 * 100 + 1e-9)
    return '%s/%s/disp%d' % (case['formulation'] or 'default', case['weights'], min(disp, 3)) if k > 1 or case['sigma'] else None


def common(draw, m):
    return {'wl': draw(wavelengths), 'unit': draw(st.sampled_from(['rad', 'deg', 'sin', None])), 'formulation': draw(st.sampled_from(['ls', 'tls', 'tls', None])),
            'weights': draw(st.sampled_from(['default', 'none', 'int', 'float', 'signed'])), 'wseed': draw(seeds), 'explicit': draw(st.booleans()), 'seed': draw(seeds)}


@st.composite
def ideal(draw):
    m = draw(st.one_of(st.integers(2, 12), st.integers(2, 12), st.integers(13, 25)))
    disp = draw(st.integers(1, max(1, min(4, m - 1))))
    ratio = draw(st.one_of(st.none(), fl(0.1, 1.2)))
    k = draw(st.integers(1, m - 1))
    gap = 0.8 / m / min(ratio or 0.5, 0.5 / disp)
    while k > 1 and gap * (k - 1) > 1.85:
        k -= 1
    return dict(common(draw, m), m=m, disp=disp, ratio=ratio, u=separated(draw, k, -0.94, 0.94, gap), corr=draw(st.booleans()), sigma=draw(st.sampled_from([0.0, 0.1, 1.0])))


def check_noisy(case):
    m, disp = case['m'], case['disp']
    if disp >= m:
        return None
    mr = m - disp
    k = 1 + case['k'] % mr
    r = rs(case['seed'])
    n = case['n'] * m
    A = np.exp(2j * math.pi * np.outer(np.arange(m), r.uniform(-0.5 / disp, 0.5 / disp, k)))
    y = A @ randc(r, k, n) * case['snr'] + randc(r, m, n)
    R = y @ y.conj().T / n
    R = 0.5 * (R + R.conj().T)
    R = present(R, case['seed'], ['plain', 'plain', 'plain', 'plain', 'real', 'tiny', 'huge'])[0]
    v, E = np.linalg.eigh(R)
    if k == m or (v[m - k] - v[m - k - 1]) / v[-1] < 1e-3:
        return None
    Es = E[:, m - k:]
    w = weights(case, mr)
    if isinstance(w, str):
        w = np.ones(mr) if w == 'none' else np.sqrt([min(i + 1, mr - i) for i in range(mr)])
    S1, S2 = w[:, None] * Es[:mr], w[:, None] * Es[disp:]
    if np.linalg.cond(S1) > 1e3:
        return None
    if case['formulation'] == 'tls':
        _, s, Vh = np.linalg.svd(np.hstack((S1, S2)))
        s = np.concatenate((s, np.zeros(2 * k - len(s))))
        if (s[k - 1] - s[k]) < 1e-2 * s[0]:
            return None
        V = Vh.conj().T
        if np.linalg.cond(V[k:, k:]) > 1e3:
            return None
        Phi = -V[:k, k:] @ np.linalg.inv(V[k:, k:])
    else:
        Phi = np.linalg.pinv(S1) @ S2
    z = np.linalg.eigvals(Phi)
    want = np.angle(z) / (2 * math.pi)
    if np.min(np.abs(z)) < 1e-3 or np.min(0.5 - np.abs(want)) < 1e-5:
        return None
    s, ratio = run(R, k, case, mr)
    close(np.sort(s) * ratio * disp, np.sort(want), 'phases of the invariance eigenvalues', 0, 1e-7)
    c2 = dict(case, unit='sin')
    s2, _ = run(R * case['scale'], k, c2, mr)
    close(np.sort(s2) * ratio * disp, np.sort(want), 'phases for a scaled covariance matrix', 0, 1e-7)
    s3, _ = run(R + case['load'] * np.trace(R).real / m * np.eye(m), k, c2, mr)
    close(np.sort(s3) * ratio * disp, np.sort(want), 'phases for a loaded covariance matrix', 0, 1e-7)
    return '%s/%s/disp%d' % (case['formulation'] or 'default', case['weights'], min(disp, 3))


@st.composite
def noisy(draw):
    m = draw(st.one_of(st.integers(2, 11), st.integers(2, 11), st.integers(12, 25)))
    disp = draw(st.integers(1, max(1, min(5, m - 1))))
    return dict(common(draw, m), m=m, disp=disp, ratio=draw(fl(0.5, 2.0)), k=draw(st.integers(0, 9)), n=draw(st.integers(2, 8)), snr=draw(logfl(0.3, 30)),
                scale=draw(logfl(1e-6, 1e6)), load=draw(logfl(0.1, 10)))


def check_reject(case):
    from doatools.estimation import Esprit1D
    m, disp = case['m'], case['disp']
    e = Esprit1D(1.0)
    R = herm_pd(rs(case['seed']), m)
    raises(ValueError, lambda: e.estimate(R, m - disp + 1 + case['x'], displacement=disp), 'too many sources')
    raises(ValueError, lambda: e.estimate(R, 1, displacement=-case['x']), 'non-positive displacement')
    raises(ValueError, lambda: e.estimate(R, 1, displacement=disp, row_weights=np.ones(m - disp + 1)), 'row weights of the wrong size')
    raises(ValueError, lambda: e.estimate(R, 1, displacement=disp, row_weights=np.ones((m - disp, 1))), 'row weights of the wrong shape')
    raises(ValueError, lambda: e.estimate(R, 1, displacement=disp, row_weights='something'), 'unknown row weights')
    raises(ValueError, lambda: e.estimate(R, 1, displacement=disp, row_weights=3.0), 'scalar row weights')
    raises(ValueError, lambda: e.estimate(R, 1, displacement=disp, formulation='xls'), 'unknown formulation')
    return 'reject'


def check_endfire(case):
    # A source along the array axis: both signs are the same direction at half-wavelength spacing.
    m = case['m']
    a = (-1.0) ** np.arange(m)
    R = case['power'] * np.outer(a, a) + case['sigma'] * np.eye(m)
    if case['complex']:
        R = R.astype(complex)
    s, _ = run(R, 1, dict(case, ratio=None if case['default'] else 0.5, disp=1), m - 1)
    close(np.abs(s), np.ones(1), 'sine of the direction of an end-fire source', 0, 1e-6)
    # Close to the array axis.
    x = case['sign'] * (1 - case['near'])
    s, _ = run(elec_cov(m, [x * case['ratio']], np.eye(1) * case['power'], case['sigma']), 1, dict(case, disp=1), m - 1)
    close(s, [x], 'sine of the direction of a source close to end-fire', 0, 0.2 * case['near'])
    return 'endfire'


@st.composite
def endfire(draw):
    m = draw(st.integers(2, 10))
    return dict(common(draw, m), m=m, power=draw(logfl(0.1, 10)), sigma=draw(st.sampled_from([0.0, 0.1, 1.0])), complex=draw(st.booleans()), default=draw(st.booleans()), sign=draw(st.sampled_from([-1, 1])), near=draw(logfl(1e-7, 1e-2)), ratio=draw(fl(0.2, 0.5)))


SUBS = [Sub('ideal', ideal(), check_ideal, 3000), Sub('noisy', noisy(), check_noisy, 4000),
        Sub('endfire', endfire(), check_endfire, 400),
        Sub('reject', st.integers(3, 8).flatmap(lambda m: st.fixed_dictionaries({'m': st.just(m), 'disp': st.integers(1, m - 1), 'x': st.integers(0, 3), 'seed': seeds})), check_reject, 80)]
