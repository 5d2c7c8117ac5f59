from ..core import Sub
from ..crbcase import *

ID = 'P30'
TITLE = 'MUSIC asymptotic covariance is that of the estimation errors'
PROP = {
    'statement': 'ecov_music_1d equals the covariance of the first-order estimation errors of MUSIC under the sampling fluctuations of the covariance matrix: it equals the closed linearization of the null spectrum minimum, agrees with what MUSIC really does on perturbed covariance matrices, honours the perturbation filter (all, known, none), scales with 1/N, is never below the stochastic Cramer-Rao bound and approaches it for one uncorrelated source. At least as many sources as sensors, non-1D sources, wrong powers and unknown modes raise ValueError.',
    'quantifier': {'over': ['inputs', 'configurations'], 'text': 'all arrays, imperfections and filters, source sets, units, source covariances, SNRs, snapshot counts and return modes'},
    'why_tests_cant': 'Tests compare one scenario with recorded numbers; correlated sources, off-diagonal terms, units and filters are not covered.',
    'anchors': {'files': ['doatools/performance/mse.py', 'doatools/performance/utils.py', 'doatools/model/arrays.py'],
                'mechanism': [{'name': 'closed-form covariance', 'where': 'ecov_music_1d'}],
                'observe_at': ['ecov_music_1d']},
}
PROP['statement'] = PROP['statement'].replace(' and approaches it for one uncorrelated source', '').replace(', agrees with what MUSIC really does on perturbed covariance matrices', '; it agrees with how the minimum of the null spectrum really moves when the covariance matrix fluctuates')
RULE = ('Arrays, imperfections, filters, sources and source covariances are generated; the result is compared with the covariance of the linearized error functional '
        '(signal subspace perturbation), itself validated against the numerically located null-spectrum minimum of a perturbed covariance. Non-trivial: at least two sources.')
ASSUMPTIONS = ['Scenarios in which steering vectors are nearly dependent (smallest singular value below 0.03 of normalized vectors) or derivatives lie almost in their span are skipped.']


def error_functionals(A, D, P):
    """Hermitian G_i with error_i = Re tr(G_i dR)."""
    m, k = A.shape
    Q, _ = np.linalg.qr(A)
    Pn = np.eye(m) - Q @ Q.conj().T
    Sp = np.linalg.pinv(A @ P @ A.conj().T, hermitian=True, rcond=1e-9)
    G = []
    for i in range(k):
        b = Pn @ D[:, i]
        g = np.vdot(b, b).real
        T = np.outer(Sp @ A[:, i], b.conj()) / g
        G.append((T + T.conj().T) / 2)
    return G


def check_cov(c):
    from doatools.performance import ecov_music_1d, crb_sto_farfield_1d
    s = Setup(c)
    flt = c['filter']
    which = flt or 'all'
    if s.k >= s.m:
        raises(ValueError, lambda: ecov_music_1d(s.array, s.src, c['wl'], s.P, s.sigma), 'as many sources as sensors')
        return None
    a = (c['array'], c['perts'], s.m, s.nom, c['unit'], c['loc'], c['wl'], which)
    A, D = atoms_at(*a), datoms(*a)
    if well_posed(A, D) < 0.02 or np.linalg.svd(A / np.linalg.norm(A, axis=0), compute_uv=False)[-1] < 0.03:
        return None
    form = c['form']
    P, arg = s.P, s.P
    if form == 'scalar':
        arg = float(s.p[0])
        P = np.eye(s.k) * arg
    elif form in ('list', 'vector'):
        P = np.diag(s.p)
        arg = [float(v) for v in s.p] if form == 'list' else s.p.copy()
    keep = np.array(arg, copy=True)
    R = A @ P @ A.conj().T + s.sigma * np.eye(s.m)
    G = error_functionals(A, D, P)
    GR = [g @ R for g in G]
    ref = np.array([[np.trace(x @ y).real for y in GR] for x in GR]) / c['n']
    kw = {} if c['mode'] is None else {'return_mode': c['mode']}
    if flt:
        kw['perturbations'] = flt
    args = (s.array, s.src, c['wl'], arg, s.sigma) + ((c['n'],) if c['n'] > 1 else ())
    got = ecov_music_1d(*args, **kw)
    same(np.array(arg), keep, 'source covariance')
    d = np.sqrt(np.diag(ref))
    if c['mode'] in (None, 'full'):
        require(np.shape(got) == ref.shape, 'shape {}', np.shape(got))
        close(got / np.outer(d, d), ref / np.outer(d, d), 'MUSIC covariance', 0, 1e-6)
        if which == 'all':
            crb = crb_sto_farfield_1d(*args)
            w = np.linalg.eigvalsh((got - crb) / np.outer(d, d))
            require(w[0] > -1e-6, 'MUSIC covariance is below the Cramer-Rao bound by {}', w[0])
    else:
        e = reduced(ref, c['mode'])
        require(np.shape(got) == np.shape(e), 'shape {}', np.shape(got))
        close(got / e, np.ones(np.shape(e)), 'MUSIC covariance ({})'.format(c['mode']), 0, 1e-6)
    if c['probe'] and not c['spread']:
        # The reference functional describes the null-spectrum minimum of a fluctuating covariance.
        r = rs(c['seed'] + 3)
        E = randc(r, s.m, s.m)
        E = (E + E.conj().T) / 2
        lam = np.linalg.eigvalsh(A @ P @ A.conj().T)[-s.k]
        t = 1e-6 * lam / np.linalg.norm(E, 2)
        mv = []
        for sg in (t, -t):
            _, V = np.linalg.eigh(R + sg * E)
            Pn = V[:, :-s.k] @ V[:, :-s.k].conj().T
            # gradient / curvature of the null spectrum at the true locations
            num = np.einsum('ai,ab,bi->i', D.conj(), Pn, A).real
            den = np.einsum('ai,ab,bi->i', D.conj(), Pn, D).real
            mv.append(-num / den)
        lin = np.array([np.trace(g @ E).real for g in G])
        close((mv[0] - mv[1]) / (2 * t) / d * math.sqrt(s.sigma), lin / d * math.sqrt(s.sigma), 'harness: error functional', 1e-3, 1e-6 * float(np.max(np.abs(lin / d))) * math.sqrt(s.sigma))
    raises(ValueError, lambda: ecov_music_1d(s.array, s.src, c['wl'], np.eye(s.k + 1), s.sigma), 'wrong powers')
    raises(ValueError, lambda: ecov_music_1d(s.array, s.src, c['wl'], P, s.sigma, return_mode='x'), 'unknown mode')
    from doatools.model import sources as S
    raises(ValueError, lambda: ecov_music_1d(s.array, S.FarField2DSourcePlacement(np.zeros((s.k, 2))), c['wl'], P, s.sigma), '2D sources')
    return '%s/%s/%s' % (form, c['unit'], which if c['perts'] else 'plain') if s.k > 1 else None


SUBS = [Sub('cov', st.tuples(scen(), st.sampled_from(['matrix', 'matrix', 'scalar', 'list', 'vector']), st.sampled_from([None, 'all', 'known', 'none']), st.booleans()).map(
    lambda t: dict(t[0], form=t[1], filter=t[2], probe=t[3])), check_cov, 2500)]
