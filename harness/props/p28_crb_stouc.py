from ..core import Sub
from ..crbcase import *

ID = 'P28'
TITLE = 'Uncorrelated stochastic CRB is the inverse of the model Fisher information'
PROP = {
    'statement': 'crb_stouc_farfield_1d equals the location block of the inverse Fisher information of zero-mean Gaussian snapshots with covariance A diag(p) A^H + sigma I for unknown locations, source powers and noise power, divided by the number of snapshots, in the unit of the sources. This holds for every array including all its imperfections, for powers given as scalar, list, vector or the diagonal of a matrix, and also with more sources than sensors whenever the model is identifiable.',
    'quantifier': {'over': ['inputs', 'configurations'], 'text': 'all arrays, imperfections, source sets (also more than sensors), units, powers, SNRs, snapshot counts and return modes'},
    'why_tests_cant': 'Tests compare one scenario with a loose reference; cross terms between powers, noise and locations only show in other scenarios.',
    'anchors': {'files': ['doatools/performance/crb.py', 'doatools/performance/utils.py', 'doatools/model/arrays.py'],
                'mechanism': [{'name': 'block Fisher information', 'where': 'crb_stouc_farfield_1d'}],
                'observe_at': ['crb_stouc_farfield_1d']},
}
RULE = ('Arrays, imperfections, sources, powers and SNRs are generated; the bound is compared with the numerically inverted Fisher information (Slepian-Bangs). '
        'Non-trivial: at least two sources.')
ASSUMPTIONS = ['Scenarios with a scaled Fisher information condition number above 1e6, or where moving a source hardly changes the covariance, are skipped.']


def check_uc(c):
    from doatools.performance import crb_stouc_farfield_1d
    s = Setup(c)
    if s.k * 2 + 1 > s.m ** 2 or movement(s.A, s.D) < 1e-3:
        return None
    form = c['form']
    p = s.p
    arg = {'vector': lambda: p.copy(), 'list': lambda: [float(v) for v in p], 'matrix': lambda: p_matrix(p, c), 'scalar': lambda: float(p[0])}[form]()
    if form == 'scalar':
        p = np.full(s.k, p[0])
    ref, cond = block_inverse(fim_stouc(s.A, s.D, p, s.sigma) * c['n'], s.k)
    if cond > 1e6:
        return None
    kw = {} if c['mode'] is None else {'return_mode': c['mode']}
    keep = np.array(arg, copy=True)
    got = crb_stouc_farfield_1d(s.array, s.src, c['wl'], arg, s.sigma, *([c['n']] if c['n'] > 1 else []), **kw)
    same(np.array(arg), keep, 'source powers')
    compare(got, ref, cond, c['mode'], 'uncorrelated stochastic CRB')
    return '%s/%s/%s%s' % (form, c['unit'], 'pert' if c['perts'] else 'plain', '/k>=m' if s.k >= s.m else '') if s.k > 1 else None


SUBS = [Sub('stouc', st.tuples(scen(7), st.sampled_from(['vector', 'vector', 'list', 'matrix', 'scalar'])).map(lambda t: dict(t[0], form=t[1])), check_uc, 2500)]
