from ..core import Sub
from ..crbcase import *

ID = 'P27'
TITLE = 'Deterministic CRB is the inverse of the Fisher information of the model'
PROP = {
    'statement': 'crb_det_farfield_1d equals the location block of the inverse Fisher information of snapshots A s_t plus white Gaussian noise with unknown locations and unknown deterministic signals s_1..s_N, where P is their sample covariance, in the unit of the sources and for every array including all its imperfections. P must be a K x K matrix.',
    'quantifier': {'over': ['inputs', 'configurations'], 'text': 'all arrays, imperfections, source sets, units, signals, noise powers, snapshot counts and return modes'},
    'why_tests_cant': 'Tests compare a few numbers of one uniform array; correlated signals, units and imperfect arrays are not covered.',
    'anchors': {'files': ['doatools/performance/crb.py', 'doatools/performance/utils.py', 'doatools/model/arrays.py'],
                'mechanism': [{'name': 'closed-form bound', 'where': 'crb_det_farfield_1d'}],
                'observe_at': ['crb_det_farfield_1d']},
}
RULE = ('Arrays, imperfections, sources and explicit signal realizations are generated; the bound is compared with the numerically inverted Fisher information over '
        'locations and all signal values. Non-trivial: at least two sources.')
ASSUMPTIONS = ['Scenarios with a scaled Fisher information condition number above 1e6, or whose steering vector derivatives almost lie in the span of the steering vectors, are skipped.']


def check_det(c):
    from doatools.performance import crb_det_farfield_1d
    s = Setup(c)
    if s.k >= s.m or well_posed(s.A, s.D) < 1e-3:
        return None
    r = rs(c['seed'] + 1)
    n = max(1, c['k_extra'] + s.k - 2)
    X = np.linalg.cholesky(s.P) @ randc(r, s.k, n)
    P = X @ X.conj().T / n
    F = fim_det(s.A, s.D, X, s.sigma)
    ref, cond = block_inverse(F, s.k)
    if cond > 1e6:
        return None
    kw = {} if c['mode'] is None else {'return_mode': c['mode']}
    keep = P.copy()
    got = crb_det_farfield_1d(s.array, s.src, c['wl'], P, s.sigma, n, **kw)
    same(P, keep, 'signal covariance')
    compare(got, ref, cond, c['mode'], 'deterministic CRB')
    if n > 1:
        got1 = crb_det_farfield_1d(s.array, s.src, c['wl'], P, s.sigma)
        compare(got1, ref * n, cond, None, 'deterministic CRB of one snapshot')
    bad = np.zeros((s.k + 1, s.k + 1))
    for b in (bad, np.ones(s.k), np.ones((s.k, s.k + 1))):
        raises(ValueError, lambda: crb_det_farfield_1d(s.array, s.src, c['wl'], b, s.sigma), 'signal covariance of shape {}'.format(b.shape))
    return '%s/%s' % (c['unit'], 'pert' if c['perts'] else 'plain') if s.k > 1 else None


SUBS = [Sub('det', st.tuples(scen(), st.integers(0, 6)).map(lambda t: dict(t[0], k_extra=t[1])), check_det, 2000)]
