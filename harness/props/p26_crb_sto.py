from ..core import Sub
from ..crbcase import *

ID = 'P26'
TITLE = 'Stochastic CRB is the inverse of the Fisher information of the model'
PROP = {
    'statement': 'crb_sto_farfield_1d equals the location block of the inverse Fisher information of zero-mean Gaussian snapshots with covariance A P A^H + sigma I, for unknown locations, unknown (arbitrary Hermitian) source covariance P and unknown noise power, divided by the number of snapshots, in the unit of the sources. This holds for every array including all its imperfections, and for P given as scalar, list, vector (uncorrelated) or matrix.',
    'quantifier': {'over': ['inputs', 'configurations'], 'text': 'all arrays, imperfections, source sets, units, source covariances, SNRs, snapshot counts and return modes'},
    'why_tests_cant': 'Tests compare a few numbers of one uniform array; correlated sources, units and imperfect arrays are not covered.',
    'anchors': {'files': ['doatools/performance/crb.py', 'doatools/performance/utils.py', 'doatools/model/arrays.py'],
                'mechanism': [{'name': 'closed-form bound', 'where': 'crb_sto_farfield_1d'}],
                'observe_at': ['crb_sto_farfield_1d']},
}
RULE = ('Arrays, imperfections, sources, covariances and SNRs are generated; the bound is compared with the numerically inverted full Fisher information matrix '
        '(Slepian-Bangs) built from reference steering vectors. Non-trivial: at least two sources.')
ASSUMPTIONS = ['Scenarios with a scaled Fisher information condition number above 1e6, or whose steering vector derivatives almost lie in the span of the steering vectors, are skipped.']


def check_sto(c):
    from doatools.performance import crb_sto_farfield_1d
    s = Setup(c)
    if s.k >= s.m or well_posed(s.A, s.D) < 1e-3:
        return None
    form = c['form']
    P, arg = s.P, s.P
    if form == 'scalar':
        arg = float(s.p[0])
        P = np.eye(s.k) * arg
    elif form in ('list', 'vector'):
        P = np.diag(s.p)
        arg = [float(v) for v in s.p] if form == 'list' else s.p.copy()
    elif form == 'real':
        P = s.P.real.copy()
        arg = P.copy()
    elif form == 'coherent':
        f = randc(rs(c['seed'] + 5), s.k, 1) * math.sqrt(c['scale'])
        P = arg = f @ f.conj().T
    F = fim_sto(s.A, s.D, P.astype(complex), s.sigma)
    ref, cond = block_inverse(F * c['n'], s.k)
    if cond > 1e6:
        return None
    kw = {} if c['mode'] is None else {'return_mode': c['mode']}
    keep = np.array(arg, copy=True)
    loc = s.src.locations.copy()
    got = crb_sto_farfield_1d(s.array, s.src, c['wl'], arg, s.sigma, *([c['n']] if c['n'] > 1 else []), **kw)
    same(np.array(arg), keep, 'source covariance')
    same(s.src.locations, loc, 'source locations')
    compare(got, ref, cond, c['mode'], 'stochastic CRB')
    return '%s/%s/%s' % (form, c['unit'], 'pert' if c['perts'] else 'plain') if s.k > 1 else None


SUBS = [Sub('sto', st.tuples(scen(), st.sampled_from(['matrix', 'matrix', 'real', 'coherent', 'scalar', 'list', 'vector'])).map(lambda t: dict(t[0], form=t[1])), check_sto, 2500)]
