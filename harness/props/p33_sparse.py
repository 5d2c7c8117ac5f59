from ..core import Sub
from ..common import *
from ..est import *
from .p16_peaks import simple_grid, peaks_1d, peaks_2d, check_selection

ID = 'P33'
TITLE = 'Sparse estimators minimize the documented objective over the search grid'
PROP = {
    'statement': 'The spectrum of SparseCovarianceMatching is an optimal nonnegative power vector of the documented covariance matching problem (dictionary conj(A) Khatri-Rao A over the grid with known imperfections, noise column unless the noise power is given and subtracted, all three formulations); the spectrum of GroupSparseEstimator is the row norms of an optimal solution of the l2,1 problem. Estimates are the k largest peaks of that spectrum in grid order. On-grid uncorrelated sources with ideal data and weak regularization are recovered. Estimators can be reused, inputs are not modified, and grid refinement, wrong data sizes and a missing noise power raise ValueError.',
    'quantifier': {'over': ['inputs', 'configurations', 'histories'], 'text': 'all arrays, known imperfections, 1D/2D grids, covariances, snapshots, regularization parameters and reuse histories'},
    'why_tests_cant': 'There are no tests of the sparse estimators.',
    'anchors': {'files': ['doatools/estimation/sparse.py', 'doatools/optim/l1lsq.py', 'doatools/estimation/core.py', 'doatools/utils/math.py'],
                'mechanism': [{'name': 'dictionary and problem assembly', 'where': 'SparseCovarianceMatching, GroupSparseEstimator'}],
                'observe_at': ['estimate']},
}
RULE = ('Arrays, grids, covariance matrices / snapshots and parameters are generated; the returned spectrum is certified by a duality (Frank-Wolfe) gap on a reference dictionary. '
        'Non-trivial: a spectrum with a nonzero entry.')
ASSUMPTIONS = ['The convex solvers shipped with cvxpy are trusted to reach their accuracy on well-scaled problems; the gap tolerance is 1e-3 of the objective scale.']


@st.composite
def scene(draw):
    grid = draw(st.sampled_from(['far1d', 'far1d', 'far1d', 'far2d', 'near2d']))
    shape = [draw(rarely(st.integers(3, 14), st.integers(15, 40)))] if grid == 'far1d' else [draw(st.integers(2, 5)), draw(st.integers(2, 4))]
    arr = draw(rarely(st.one_of(ulas(5, 2, fl(0.3, 0.6)), generic_arrays(min_m=2, max_m=5), planar(2)), ulas(12, 6, fl(0.3, 0.6)), 16))
    return {'grid': grid, 'shape': shape, 'unit': draw(st.sampled_from(['rad', 'deg', 'sin'])) if grid == 'far1d' else draw(st.sampled_from(['rad', 'deg'])),
            'array': arr, 'perts': draw(st.one_of(st.just([]), pert_list(2))), 'wl': draw(st.sampled_from([1.0, 2.0, 0.8])), 'seed': draw(seeds), 'k': draw(st.integers(1, 3)),
            'l': draw(st.lists(st.sampled_from([0.02, 0.1, 0.3, 0.6]), min_size=1, max_size=3)), 'solves': draw(st.sampled_from([1, 1, 2, 2, 3])), 'spec': draw(st.booleans()),
            'form': draw(st.sampled_from(['plain', 'fortran', 'view', 'readonly', 'real', 'realview', 'edit', 'edit']))}


def setup(c):
    m = array_size(c['array'])
    if m > 12:
        raise Skip()
    a = build_array(c['array'], c['perts'])
    nom = nominal(c['array'], a)
    gs = simple_grid(c)
    src = grid_sources(gs)
    return m, a, build_grid(gs), src, ref_atoms(c['array'], c['perts'], m, nom, src, c['wl'])


def outputs(c, out, g, src):
    """Checks the estimate tuple; returns the flattened spectrum."""
    require(isinstance(out, tuple) and len(out) == 3, 'estimate(return_spectrum=True) returned {!r}', out)
    resolved, est, sp = out
    require(sp.shape == g.shape, 'spectrum of shape {} on a grid of shape {}', sp.shape, g.shape)
    peaks = peaks_1d(sp) if sp.ndim == 1 else peaks_2d(sp)
    check_selection(sp, peaks, c['k'], resolved, est, g, src, 'sparse')
    return sp.flatten()


def hand_over(X, form, prev):
    """The data in another storage form; 'edit' reuses the memory of the previous call."""
    if form.startswith('real'):
        X = np.array(X.real)
    if form == 'edit' and prev is not None:
        prev[...] = X
        return prev
    return store(X, form)


def opts(i):
    return {'solver': ['CLARABEL', 'SCS'][i], **({'eps': 1e-7} if i else {})}


def attempt(call):
    """Calls with two solvers in turn when one of them gives up."""
    import warnings
    for i in range(2):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            try:
                r = call(opts(i))
            except Exception as e:
                if type(e).__name__ != 'SolverError' or i:
                    raise
                continue
        if not any('cannot be obtained' in str(v.message) for v in w):
            return r
    fail('two solvers cannot solve the problem')


def check_scm(c):
    from doatools.estimation.sparse import SparseCovarianceMatching as SCM
    m, a, g, src, A = setup(c)
    n = A.shape[1]
    known, f = c['known'], c['formulation']
    kw = {} if c['formulation'] == 'penalizedl1' and not known else {'noise_known': known, 'formulation': f}
    e = SCM(a, c['wl'], g, **kw)
    # dictionary from first principles: column j = vec(a_j a_j^H)
    Phi = np.array([np.outer(A[:, j], A[:, j].conj()).flatten() for j in range(n)]).T
    if not known:
        Phi = np.hstack((Phi, np.eye(m).reshape((-1, 1))))
    Phi = np.vstack((Phi.real, Phi.imag))
    cn = np.linalg.norm(Phi)
    label = prev = None
    for i in range(c['solves']):
        r = rs(c['seed'] + i)
        p = r.uniform(0.5, 2, n) * (r.rand(n) < 0.3)
        sigma = float(r.uniform(0.1, 0.5))
        if known and c['seed'] % 5 == 0:
            sigma = 0 if c['seed'] % 2 else 0.0  # known to be absent
        N = randc(r, m, 3 * m)
        R = (A * p) @ A.conj().T + sigma * (0.8 * np.eye(m) + 0.2 * N @ N.conj().T / (3 * m))
        scale = np.linalg.norm(R) / 2
        if not scale:
            continue
        R, sigma = R / scale, sigma / scale
        R = prev = hand_over(R, c['form'], prev)
        Rb = R - sigma * np.eye(m) if known else R
        b = Rb.flatten()
        b = np.concatenate((b.real, b.imag))
        nb = float(np.linalg.norm(b))
        t = c['l'][i % len(c['l'])]
        if f == 'penalizedl1':
            l = t * float(np.max(Phi.T @ b))
            if l < 1e-3 * cn * nb:
                continue
        elif f == 'constrainedl1':
            l = t * 2 * nb / max(float(np.linalg.norm(Phi[:, 0])), 1e-3)
        else:
            from scipy.optimize import nnls
            dist = nnls(Phi, b)[1]
            l = dist + (0.05 + t) * (nb - dist + 0.05)
        keep = R.copy()
        out = attempt(lambda o: e.estimate(R, c['k'], l, sigma=sigma if known else None, solver_options=o, return_spectrum=True))
        same(R, keep, 'covariance matrix')
        x = outputs(c, out, g, src)
        require(np.min(x) >= -1e-4 * (1 + np.sum(np.abs(x))), 'negative power {}', np.min(x))
        # The noise power is not part of the output: give it its best value.
        bb = b.copy()
        A1 = Phi[:, :n]
        res = bb - A1 @ x
        n1 = float(np.sum(np.abs(x)))
        if not known:
            u = Phi[:, n]
            if f == 'penalizedl1':
                s = max(0.0, (float(u @ res) - l) / m)
            elif f == 'constrainedl1':
                s = min(max(0.0, float(u @ res) / m), max(0.0, l - n1))
            else:
                # smallest s >= 0 with |res - s u| <= l (best effort: the minimizer if infeasible)
                q = float(u @ res) / m
                h = l * l - (float(res @ res) - m * q * q)
                s = max(0.0, q - math.sqrt(max(h, 0.0) / m))
            res = res - s * u
            n1 += s
            x = np.append(x, s)
        gr = Phi.T @ res
        worst = max(float(np.max(gr)), 0.0)
        tol = 1e-3
        if f == 'penalizedl1':
            y = res * min(1.0, l / worst) if worst > 0 else res
            gap, sc = 0.5 * float(res @ res) + l * n1 - float(y @ b - 0.5 * y @ y), 0.5 * nb * nb
        elif f == 'constrainedl1':
            require(n1 <= l * (1 + 1e-4) + 1e-4, '|x|_1 = {} > {}', n1, l)
            gap, sc = 2 * (l * worst - float(gr @ x)), nb * nb + 0.1 * l * cn
        else:
            rn = float(np.linalg.norm(res))
            require(rn <= l * (1 + 1e-3) + 1e-3 * nb, 'residual {} > {}', rn, l)
            sc = 1.0 + n1
            if nb <= l:
                gap = n1
            else:
                y = res / worst if worst > 0 else 0 * res
                gap = n1 - float(b @ y - l * np.linalg.norm(y))
                sc += 0.5 * sc * nb / max(worst, 1e-12)
        require(gap <= tol * (sc + 0.05), 'SparseCovarianceMatching {}: suboptimal by up to {} (scale {})', f, gap, sc)
        if n1 > 1e-3:
            label = '%s/%s/%s' % (f, c['grid'], 'known' if known else 'unknown')
    return label


def check_group(c):
    from doatools.estimation.sparse import GroupSparseEstimator as GSE
    m, a, g, src, A = setup(c)
    n, N = A.shape[1], c['N']
    e = GSE(a, c['wl'], g, N)
    rows = lambda Z: np.linalg.norm(Z, axis=1)
    label = prev = None
    for i in range(c['solves']):
        r = rs(c['seed'] + i)
        X = randc(r, n, N) * (r.rand(n, 1) < 0.3)
        Y = A @ X + 0.2 * randc(r, m, N)
        Y = prev = hand_over(Y * (2 / np.linalg.norm(Y)), c['form'], prev)
        if not np.any(Y):
            return None
        l = c['l'][i % len(c['l'])] * float(np.max(rows(A.conj().T @ Y)))
        if l < 1e-3 * np.linalg.norm(A) * np.linalg.norm(Y):
            continue
        keep = Y.copy()
        out = attempt(lambda o: e.estimate(Y, c['k'], l, solver_options=o, return_spectrum=True))
        same(Y, keep, 'snapshots')
        s = outputs(c, out, g, src)
        require(np.min(s) >= 0, 'negative row norm')
        # The stationarity condition determines the solution from its row norms.
        Res = np.linalg.solve(np.eye(m) + (A * (s / l)) @ A.conj().T, Y)
        Xs = (s / l)[:, None] * (A.conj().T @ Res)
        primal = 0.5 * np.linalg.norm(Y - A @ Xs) ** 2 + l * np.sum(rows(Xs))
        w = float(np.max(rows(A.conj().T @ Res)))
        D = Res * min(1.0, l / w) if w > 0 else Res
        dual = np.vdot(D, Y).real - 0.5 * np.linalg.norm(D) ** 2
        require(primal - dual <= 3e-3 * 0.5 * np.linalg.norm(Y) ** 2, 'GroupSparseEstimator: suboptimal by up to {} ({})', primal - dual, primal)
        close(rows(Xs), s, 'row norms', 0, 3e-2 * (np.max(s) + 0.1))
        if np.max(s) > 1e-3:
            label = 'group/%s' % c['grid']
    return label


def check_recover(c):
    from doatools.estimation.sparse import SparseCovarianceMatching as SCM, GroupSparseEstimator as GSE
    from doatools.estimation import FarField1DSearchGrid
    from doatools.model.arrays import UniformLinearArray
    m = c['m']
    n = 8 * m
    k = 1 + c['k'] % (m // 2)
    perts = [p for p in c['perts'] if p['type'] != 'location_errors']
    spec = {'kind': 'ula', 'n': m, 'd0': 0.5}
    a = build_array(spec, [dict(p, known=True) for p in perts])
    u = -1 + 2 * np.arange(n) / n
    scale = {'sin': 1, 'rad': 1, 'deg': 180 / math.pi}[c['unit']]
    ax = u if c['unit'] == 'sin' else np.arcsin(u) * scale
    g = FarField1DSearchGrid(axes=(ax,), unit=c['unit'])
    gap = 12
    room = n - 6 - gap * (k - 1)
    cuts = sorted(c['w'][:k])
    idx = [3 + int(room * q / 1000) + gap * i for i, q in enumerate(cuts)]
    src = {'type': 'far1d', 'unit': 'sin', 'loc': [float(u[i]) for i in idx]}
    A = ref_atoms(spec, [dict(p, known=True) for p in perts], m, np.arange(m)[:, None] * 0.5, src, 1.0)
    r = rs(c['seed'])
    p = r.uniform(0.8, 1.3, k)
    if c['which'] == 'group':
        N = 3
        S = r.uniform(0.8, 1.3, (k, N)) * np.exp(2j * math.pi * r.rand(k, N))
        e = GSE(a, 1.0, g, N)
        res, est = attempt(lambda o: e.estimate(A @ S, k, 0.02, solver_options=o))
    else:
        sigma = 0.3 if c['seed'] % 3 or c['which'] == 'penalizedl1' else 0
        R = (A * p) @ A.conj().T + sigma * np.eye(m)
        known = c['which'] != 'penalizedl1'
        e = SCM(a, 1.0, g, known, c['which'])
        l = {'penalizedl1': 0.02, 'constrainedl1': float(np.sum(p)), 'constrainedl2': 0.02}[c['which']]
        res, est = attempt(lambda o: e.estimate(R, k, l, **({'sigma': sigma} if known else {}), solver_options=o))
    require(bool(res), '{}: unresolved', c['which'])
    got = np.sort(est.locations)
    j = [int(np.argmin(np.abs(ax - v))) for v in got]
    require(max(abs(x - y) for x, y in zip(j, idx)) <= (1 if c['which'] == 'group' else 0), '{}: grid points {} instead of {}', c['which'], j, idx)
    return 'recover/%s' % c['which'] if k > 1 else None


def check_reject(c):
    from doatools.estimation.sparse import SparseCovarianceMatching as SCM, GroupSparseEstimator as GSE
    from doatools.estimation import FarField1DSearchGrid
    m = c['m']
    a = build_array({'kind': 'ula', 'n': m, 'd0': 0.5})
    g = FarField1DSearchGrid(size=6)
    R = np.eye(m) + 0j
    t = c['t']
    if t == 'sigma':
        raises(ValueError, lambda: SCM(a, 1.0, g, True).estimate(R, 1, 0.1), 'missing noise power')
    elif t == 'refine':
        raises(ValueError, lambda: SCM(a, 1.0, g).estimate(R, 1, 0.1, refine_estimates=True), 'grid refinement')
        raises(ValueError, lambda: GSE(a, 1.0, g, 2).estimate(np.ones((m, 2)), 1, 0.1, refine_estimates=True), 'grid refinement')
    elif t == 'size':
        raises(ValueError, lambda: SCM(a, 1.0, g).estimate(np.eye(m + c['d']), 1, 0.1), 'covariance size')
        raises(ValueError, lambda: GSE(a, 1.0, g, 2).estimate(np.ones((m + c['d'], 2)), 1, 0.1), 'snapshot rows')
        raises(ValueError, lambda: GSE(a, 1.0, g, 2).estimate(np.ones((m, 2 + c['d'])), 1, 0.1), 'snapshot columns')
    else:
        raises(ValueError, lambda: SCM(a, 1.0, g, formulation=c['name']), 'formulation')
    return 'reject/' + t


scm = st.tuples(scene(), st.sampled_from(['penalizedl1', 'constrainedl1', 'constrainedl2']), st.booleans()).map(lambda t: dict(t[0], formulation=t[1], known=t[2]))
group = st.tuples(scene(), st.integers(1, 4)).map(lambda t: dict(t[0], N=t[1]))
rec = st.fixed_dictionaries(dict(m=st.integers(4, 6), k=st.integers(0, 3), unit=st.sampled_from(['rad', 'deg', 'sin']), w=st.lists(st.integers(0, 1000), min_size=3, max_size=3), seed=seeds,
                                 perts=st.one_of(st.just([]), pert_list(2)), which=st.sampled_from(['penalizedl1', 'constrainedl1', 'constrainedl2', 'group'])))
rej = st.fixed_dictionaries(dict(m=st.integers(2, 5), d=st.sampled_from([-1, 1, 2]), t=st.sampled_from(['sigma', 'refine', 'size', 'name']), name=st.sampled_from(['l1', 'constraintedl1', ''])))
SUBS = [Sub('scm', scm, check_scm, 1200), Sub('group', group, check_group, 500), Sub('recover', rec, check_recover, 240), Sub('reject', rej, check_reject, 60)]
