from ..core import Sub
from ..crbcase import *

ID = 'P29'
TITLE = 'Cramer-Rao bounds obey their invariance, scaling and ordering laws'
PROP = {
    'statement': 'Every Cramer-Rao bound (stochastic, deterministic, uncorrelated stochastic) is divided by N with N snapshots; changes with the Jacobian of the unit conversion when the same sources are given in another unit; is permuted with the sources; is unchanged when the array is translated (uncorrelated sources), rotated about no axis, relabelled or when powers and noise are scaled together; shrinks (in the positive semidefinite order) when the noise power drops or elements are added; and satisfies uncorrelated <= stochastic and deterministic <= stochastic for the same uncorrelated sources. Output modes full, diag and mean_diag agree, other modes, mismatched source powers and sources that are not 1D far-field raise ValueError.',
    'quantifier': {'over': ['inputs', 'configurations'], 'text': 'all bounds, arrays, imperfections, source sets, units, covariances, SNRs and snapshot counts'},
    'why_tests_cant': 'Each law relates two calls with different inputs; tests evaluate one scenario at a time.',
    'anchors': {'files': ['doatools/performance/crb.py', 'doatools/performance/utils.py', 'doatools/model/sources.py'],
                'mechanism': [{'name': 'bounds', 'where': 'crb_sto_farfield_1d, crb_det_farfield_1d, crb_stouc_farfield_1d'}, {'name': 'source powers and output modes', 'where': 'unify_p_to_matrix, unify_p_to_vector, reduce_output_matrix'}],
                'observe_at': ['crb_*_farfield_1d return values']},
}
PROP['statement'] = PROP['statement'].replace(', rotated about no axis, relabelled', ', when its elements are relabelled')
RULE = ('Scenarios are generated together with a transformation; two evaluations are related by the law. Non-trivial: at least two sources.')
ASSUMPTIONS = ['Scenarios with a scaled Fisher information condition number above 1e6 are skipped.']

LAWS = ['snapshots', 'unit', 'permute', 'translate', 'relabel', 'scale', 'noise', 'element', 'order', 'modes', 'reject', 'wavelength']


def fn(kind):
    from doatools import performance as pf
    return {'sto': pf.crb_sto_farfield_1d, 'det': pf.crb_det_farfield_1d, 'stouc': pf.crb_stouc_farfield_1d}[kind]


def psd(X, ref, what):
    d = 1 / np.sqrt(np.diag(ref))
    w = np.linalg.eigvalsh((X + X.T) / 2 * np.outer(d, d))
    require(w[0] >= -1e-6, '{}: smallest relative eigenvalue of the difference is {}', what, w[0])


def check_law(c):
    from doatools.model import arrays as A, sources as S
    s = Setup(c)
    kind, law = c['kind'], c['law']
    if kind != 'stouc' and (s.k >= s.m or well_posed(s.A, s.D) < 1e-3):
        return None
    if kind == 'stouc' and (2 * s.k + 1 > s.m ** 2 or movement(s.A, s.D) < 1e-3):
        return None
    P = np.diag(s.p).astype(complex) if kind == 'stouc' or law == 'translate' else s.P
    if kind == 'stouc':
        F = fim_stouc(s.A, s.D, s.p, s.sigma)
    elif kind == 'sto' or c['law'] == 'order':
        F = fim_sto(s.A, s.D, P, s.sigma)
    else:
        F = np.eye(s.k)
        if np.linalg.cond(P) > 1e4:
            return None
    ref, cond = block_inverse(F, s.k)
    if cond > 1e6:
        return None
    if kind == 'det' and well_posed(s.A, s.D) < 0.02:
        return None
    f = fn(kind)
    tol = 1e-7 + 1e-12 * cond
    arg = (lambda Q: np.diag(Q).real.copy()) if kind == 'stouc' else (lambda Q: Q)
    base = f(s.array, s.src, c['wl'], arg(P), s.sigma)
    d = np.sqrt(np.diag(base))
    dd = np.outer(d, d)

    def rel(got, expect, what):
        require(np.shape(got) == np.shape(expect), '{}: shape {}', what, np.shape(got))
        close(np.asarray(got) / dd, np.asarray(expect) / dd, what, 0, tol)

    if law == 'snapshots':
        rel(f(s.array, s.src, c['wl'], arg(P), s.sigma, c['n']), base / c['n'], 'bound with {} snapshots'.format(c['n']))
    elif law == 'unit':
        to = {'rad': 'deg', 'deg': 'sin', 'sin': 'rad'}[c['unit']]
        loc = np.array(c['loc'])
        th = {'rad': loc, 'deg': loc * math.pi / 180, 'sin': np.arcsin(loc)}[c['unit']]
        new = {'rad': th, 'deg': th * 180 / math.pi, 'sin': np.sin(th)}[to]
        g = {'deg': np.full(s.k, 180 / math.pi), 'sin': np.cos(th) * math.pi / 180, 'rad': 1 / np.cos(th)}[to]
        got = f(s.array, S.FarField1DSourcePlacement(new, to), c['wl'], arg(P), s.sigma)
        rel(got / np.outer(g, g), base, 'bound in {} instead of {}'.format(to, c['unit']))
    elif law == 'permute':
        o = rs(c['seed'] + 5).permutation(s.k)
        got = f(s.array, S.FarField1DSourcePlacement(np.array(c['loc'])[o], c['unit']), c['wl'], arg(P[np.ix_(o, o)]), s.sigma)
        back = np.zeros((s.k, s.k))
        back[np.ix_(o, o)] = got
        rel(back, base, 'bound of permuted sources')
    elif law in ('translate', 'relabel', 'element'):
        loc = apply_ref_perts(c['perts'], s.m, s.nom, 'all')
        r = rs(c['seed'] + 9)
        plain = f(A.ArrayDesign(loc, 'a'), s.src, c['wl'], arg(P), s.sigma)
        if law == 'element':
            if loc.shape[0] > 8:
                return None
            big = np.vstack((loc, r.uniform(-2, 2, (1, loc.shape[1]))))
            got = f(A.ArrayDesign(big, 'a'), s.src, c['wl'], arg(P), s.sigma)
            psd(plain - got, plain, 'bound with an additional element')
        else:
            new = loc + r.uniform(-2, 2, loc.shape[1]) if law == 'translate' else loc[r.permutation(s.m)]
            dd = np.outer(np.sqrt(np.diag(plain)), np.sqrt(np.diag(plain)))
            a2, d2 = [fn_(*(({'kind': 'generic', 'locs': loc.tolist()}), [], s.m, loc, c['unit'], c['loc'], c['wl'])) for fn_ in (atoms_at, datoms)]
            if kind != 'stouc':
                if well_posed(a2, d2) < 0.02:
                    return None
            F2 = fim_stouc(a2, d2, s.p, s.sigma) if kind == 'stouc' else fim_sto(a2, d2, P, s.sigma)
            tol = 1e-7 + 1e-12 * block_inverse(F2, s.k)[1]
            if tol > 2e-6:
                return None
            rel(f(A.ArrayDesign(new, 'a'), s.src, c['wl'], arg(P), s.sigma), plain, 'bound of the array after ' + law)
    elif law == 'scale':
        t = c['factor']
        rel(f(s.array, s.src, c['wl'], arg(P * t), s.sigma * t), base, 'bound with powers and noise scaled by {}'.format(t))
    elif law == 'wavelength':
        t = c['factor']
        pert = [p for p in c['perts'] if p['type'] != 'location_errors']
        loc = apply_ref_perts(c['perts'], s.m, s.nom, 'all')
        arr = A.ArrayDesign(loc * t, 'a', perturbations=make_perts(pert, s.m))
        rel(f(arr, s.src, c['wl'] * t, arg(P), s.sigma), base, 'bound with array and wavelength scaled by {}'.format(t))
    elif law == 'noise':
        psd(base - f(s.array, s.src, c['wl'], arg(P), s.sigma * 0.7), base, 'bound with less noise')
    elif law == 'order':
        Q = np.diag(s.p).astype(complex)
        if s.k >= s.m or well_posed(s.A, s.D) < 0.02:
            return None
        r2, c2 = block_inverse(fim_sto(s.A, s.D, Q, s.sigma), s.k)
        r3, c3 = block_inverse(fim_stouc(s.A, s.D, s.p, s.sigma), s.k)
        if max(c2, c3) > 1e6:
            return None
        x = {q: fn(q)(s.array, s.src, c['wl'], s.p if q == 'stouc' else Q, s.sigma) for q in KINDS}
        psd(x['sto'] - x['det'], x['sto'], 'stochastic minus deterministic bound')
        psd(x['sto'] - x['stouc'], x['sto'], 'stochastic minus uncorrelated bound')
    elif law == 'modes':
        same(f(s.array, s.src, c['wl'], arg(P), s.sigma, c['n'], 'full'), f(s.array, s.src, c['wl'], arg(P), s.sigma, c['n']), 'default mode')
        full = f(s.array, s.src, c['wl'], arg(P), s.sigma, c['n'])
        close(f(s.array, s.src, c['wl'], arg(P), s.sigma, c['n'], 'diag') / np.diag(full), np.ones(s.k), 'diag mode', 0, 1e-12)
        v = f(s.array, s.src, c['wl'], arg(P), s.sigma, c['n'], return_mode='mean_diag')
        require(np.shape(v) == (), 'mean_diag mode: shape {}', np.shape(v))
        close(v / np.mean(np.diag(full)), 1.0, 'mean_diag mode', 0, 1e-12)
        w = np.linalg.eigvalsh(full / np.outer(d, d) * c['n'])
        require(w[0] > 0, 'bound is not positive definite: {}', w)
    else:
        raises(ValueError, lambda: f(s.array, s.src, c['wl'], arg(P), s.sigma, 1, 'trace'), 'unknown mode')
        for other in (S.FarField2DSourcePlacement(np.zeros((s.k, 2)) + 0.1), S.NearField2DSourcePlacement(np.ones((s.k, 2)))):
            raises(ValueError, lambda: f(s.array, other, c['wl'], arg(P), s.sigma), type(other).__name__)
        bad = [np.eye(s.k + 1), np.ones((s.k, s.k + 1)), np.ones((s.k, s.k, 1))]
        if kind != 'det':
            bad += [np.ones(s.k + 1), [1.0] * (s.k + 1)]
        for b in bad:
            raises(ValueError, lambda: f(s.array, s.src, c['wl'], b, s.sigma), 'source powers of shape {}'.format(np.shape(b)))
    return '%s/%s' % (kind, law) if s.k > 1 else None


def law_case():
    return st.tuples(scen(), st.sampled_from(KINDS), st.sampled_from(LAWS), st.sampled_from([0.01, 0.5, 3.0, 1e4])).map(
        lambda t: dict(t[0], kind=t[1], law=t[2], factor=t[3]))


SUBS = [Sub('law', law_case(), check_law, 3000)]
