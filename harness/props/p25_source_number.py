from fractions import Fraction

from hypothesis import strategies as st

from ..common import *
from ..core import Sub
from ..est import store

ID = 'P25'
TITLE = 'AIC, MDL and SORTE minimize their published criteria at any scale'
PROP = {
    'statement': 'AIC and MDL return the source count d in 0..M-1 minimizing N(M-d) ln(arithmetic/geometric mean of the M-d smallest eigenvalues) plus d(2M-d), respectively plus 0.5(d(2M-d)+1) ln N; SORTE returns the count minimizing the ratio of successive eigenvalue-gap variances and needs at least four eigenvalues. The result is the same for a covariance matrix and its ascending eigenvalues, does not depend on the scale of the covariance or on unitary rotations, and stays correct for large arrays and very large or small powers. With a clear eigenvalue gap all three return the number of dominant eigenvalues. Inputs are not modified.',
    'quantifier': {'over': ['inputs'], 'text': 'all positive eigenvalue sets, covariance matrices, scales, snapshot counts and sizes'},
    'why_tests_cant': 'Tests use one eigenvalue vector per criterion; under-/overflow, scale invariance and ties with other sizes are not reached.',
    'anchors': {'files': ['doatools/estimation/source_number.py'],
                'mechanism': [{'name': 'information criteria', 'where': 'ld_stat, aic, mdl'}, {'name': 'gap statistics', 'where': 'sorte'}],
                'observe_at': ['aic', 'mdl', 'sorte']},
}
RULE = ('Eigenvalue sets (with and without gaps), scales 1e-150..1e150, sizes up to 120 and snapshot counts are generated; criteria are recomputed in scaled arithmetic '
        'and near-ties (relative 1e-9) are accepted either way. Non-trivial: at least three eigenvalues.')


def lat(x):
    """log arithmetic-to-geometric mean ratio, scale free."""
    x = np.asarray(x) / np.max(x)
    return math.log(math.fsum(x) / len(x)) - math.fsum(math.log(v) for v in x) / len(x)


def crit(l, N, kind):
    M = len(l)
    out = []
    for d in range(M):
        pen = d * (2 * M - d) if kind == 'aic' else 0.5 * (d * (2 * M - d) + 1) * math.log(N)
        out.append(N * (M - d) * lat(l[:M - d]) + pen)
    return out


def check_argmin(vals, got, what):
    got = int(got)
    require(0 <= got < len(vals), '{} returned {} for {} candidates', what, got, len(vals))
    best = min(vals)
    require(vals[got] <= best + 1e-9 * (1 + abs(best)), '{} returned {} (criterion {}), minimum {} at {}', what, got, vals[got], best, vals.index(best))
    return got


def passed(x, seed):
    """The same values in another storage form (integers when they are integral)."""
    form = ['plain', 'view', 'readonly', 'int', 'fortran', 'plain'][seed // 3 % 6]
    if form == 'int' and np.array_equal(x, np.trunc(x.real)) and np.max(np.abs(x)) < 1e9:
        return x.real.astype(int)
    return store(x, form)


def rotation(seed, M):
    r = rs(seed)
    return np.linalg.qr(r.randn(M, M) if seed % 3 == 1 else randc(r, M, M))[0]


def check_ic(case):
    from doatools.estimation import aic, mdl
    l = np.sort(np.array(case['l'], dtype=float))
    N = case['N']
    M = len(l)
    x = passed(l * case['scale'], case['seed'])
    n = [N, np.int64(N), float(N)][case['seed'] % 3]
    for kind, f in (('aic', aic), ('mdl', mdl)):
        vals = crit(l, N, kind)
        x0 = x.copy()
        check_argmin(vals, f(x, n), kind)
        same(x, x0, 'eigenvalues after ' + kind)
        s = sorted(vals)
        if len(s) > 1 and s[1] - s[0] < 1e-6 * (1 + abs(s[0])) or M > 40 and case['scale'] not in (1.0,):
            continue
        if l[-1] / l[0] < 1e8 and M <= 12:
            q = rotation(case['seed'], M)
            R = (q * x) @ q.conj().T
            R = passed(0.5 * (R + R.conj().T), case['seed'])
            R0 = R.copy()
            got = int(f(R, n))
            require(got == vals.index(s[0]), '{} of the covariance matrix returned {} instead of {}', kind, got, vals.index(s[0]))
            same(R, R0, 'covariance matrix after ' + kind)
    return 'M%s/%s' % (M if M < 5 else ('5-20' if M <= 20 else '>20'), 'scaled' if case['scale'] != 1.0 else 'plain') if M >= 3 else None


@st.composite
def eigs(draw, mn=1):
    big = draw(st.integers(0, 9)) == 0
    M = draw(st.integers(25, 120)) if big else draw(st.integers(mn, 14))
    kind = draw(st.sampled_from(['spread', 'spread', 'gap', 'gap', 'equal', 'wide']))
    if kind == 'equal':
        base = [1.0] * M
    elif kind == 'wide':
        base = [float(v) for v in 10.0 ** rs(draw(seeds)).uniform(-9, 4, M)]
    elif kind == 'spread':
        base = draw(st.lists(rarely(logfl(0.01, 100), st.integers(1, 60).map(float), 3), min_size=M, max_size=M)) if not big else [float(v) for v in rs(draw(seeds)).uniform(0.5, 20, M)]
    else:
        k = draw(st.integers(0, M - 1))
        r = rs(draw(seeds))
        exact = not big and draw(st.booleans())
        if exact:
            top = [int(v) for v in r.randint(M + 1, 200, k)]
            step = int(r.randint(0, 2))
            return {'l': [1.0 + step * i for i in range(M - k)] + [float(v) for v in top], 'N': 100, 'seed': draw(seeds), 'exact': True,
                    'scale': draw(st.sampled_from([1.0, 1e-3, 1e4, 1e-30, 1e30]))}
        base = [float(v) for v in r.uniform(0.8, 1.2, M - k)] + [float(v) for v in r.uniform(5, 50, k)]
    return {'l': base, 'N': draw(st.sampled_from([1, 2, 10, 50, 100, 1000, 10 ** 6])), 'seed': draw(seeds),
            'scale': draw(st.sampled_from([1.0, 1.0, 1.0, 1e-3, 1e4, 1e-30, 1e30, 1e-150, 1e150]))}


def ref_sorte(l):
    """Criterion values in exact rational arithmetic; None where the gap variance is zero."""
    d = [Fraction(v) for v in l[::-1]]
    n = len(d)
    g = [d[i] - d[i + 1] for i in range(n - 1)]
    var = []
    for k in range(n - 1):
        t = g[k:]
        mu = sum(t) / len(t)
        var.append(sum((v - mu) ** 2 for v in t) / len(t))
    return [None if var[k] == 0 else var[k + 1] / var[k] for k in range(n - 2)][:-1], var


def check_sorte(case):
    from doatools.estimation import sorte
    l = np.sort(np.array(case['l'], dtype=float))
    M = len(l)
    sc = case['scale'] if 1e-60 < case['scale'] < 1e60 else 1.0
    if M < 4:
        raises(ValueError, lambda: sorte(l), 'SORTE with {} eigenvalues'.format(M))
        return 'reject'
    vals, var = ref_sorte([float(v) for v in l])
    x = passed(l * sc, case['seed'])
    x0 = x.copy()
    got = int(sorte(x))
    same(x, x0, 'eigenvalues after sorte')
    require(1 <= got <= M - 3, 'SORTE returned {} for {} eigenvalues', got, M)
    # Variances at the level of rounding are undefined.
    lim = (1e-10 * l[-1]) ** 2
    if any(0 < float(v) < lim for v in var[:-1]):
        return 'degenerate'
    if any(v == 0 for v in var[:-1]):
        # Equal gaps: their variance is exactly zero, the criterion is infinite by definition.
        x = l * 2.0 ** round(math.log2(sc))
        if not case.get('exact') or all(v is None for v in vals):
            return 'degenerate'
        f = [math.inf if v is None else float(v) for v in vals]
        got = int(sorte(x))
        require(f[got - 1] <= min(f) + 1e-9, 'SORTE returned {} (criterion {}), minimum {} at {}', got, f[got - 1], min(f), f.index(min(f)) + 1)
        return 'equal gaps'
    f = [float(v) for v in vals]
    check_argmin(f, got - 1, 'SORTE')
    s = sorted(f)
    if (len(s) > 1 and s[1] - s[0] < 1e-6 * (s[0] + 1e-9)) or M > 12:
        return 'tie'
    if min(float(v) for v in var[:-1]) > 1e-12 * l[-1] ** 2 and s[0] > 1e-6:
        q = rotation(case['seed'], M)
        R = (q * x) @ q.conj().T
        R = passed(0.5 * (R + R.conj().T), case['seed'])
        got = int(sorte(R))
        require(got == f.index(s[0]) + 1, 'SORTE of the covariance matrix returned {} instead of {}', got, f.index(s[0]) + 1)
    return 'M%d' % min(M, 15)


def check_gap(case):
    """Clear gap: the number of dominant eigenvalues."""
    from doatools.estimation import aic, mdl, sorte
    M, k = case['M'], 1 + case['k'] % (case['M'] - 3)
    r = rs(case['seed'])
    noise = 1.0 + 1e-3 * r.uniform(-1, 1, M - k)
    sig = case['snr'] * (1 + np.arange(k)) if not case['eq'] else np.full(k, case['snr']) * (1 + 0.01 * r.uniform(-1, 1, k))
    q = rotation(case['seed'], M)
    x = np.concatenate((noise, sig)) * case['scale']
    R = (q * x) @ q.conj().T
    R = passed(0.5 * (R + R.conj().T), case['seed'])
    for inp in (np.sort(x), R):
        for nm, f in (('AIC', lambda y: aic(y, 1000)), ('MDL', lambda y: mdl(y, 1000))):
            g = int(f(inp))
            require(g == k, '{} found {} of {} clear sources', nm, g, k)
        if case['eq'] and k >= 1:
            g = int(sorte(inp))
            require(g == k, 'SORTE found {} of {} clear sources', g, k)
    return 'k%d' % min(k, 5)


SUBS = [Sub('information', eigs(), check_ic, 4000), Sub('sorte', eigs(2), check_sorte, 3000),
        Sub('gap', st.fixed_dictionaries({'M': st.integers(4, 30), 'k': st.integers(0, 30), 'seed': seeds, 'eq': st.booleans(), 'snr': st.sampled_from([100.0, 100.0, 1e4, 1e6, 1e8]),
                                          'scale': st.sampled_from([1.0, 1e-6, 1e6, 1e-12, 1e12])}), check_gap, 800)]
