from ..core import Sub
from ..common import *

ID = 'P32'
TITLE = 'Sparse regularized least squares problems are solved to optimality'
PROP = {
    'statement': 'The reusable l1 problems (penalized, norm-constrained and residual-constrained; optionally nonnegative) and the l2,1 problem (real and complex) return a feasible minimizer of exactly their documented objective for every dictionary, observation and regularization parameter. A problem object can be reused: each solve depends only on its own arguments. When no feasible point exists a zero vector is returned with a warning, solver options are passed through, and unknown formulations raise ValueError.',
    'quantifier': {'over': ['inputs', 'configurations', 'histories'], 'text': 'all formulations, sizes, dictionaries, observations, parameters and sequences of solves'},
    'why_tests_cant': 'There are no tests of the optimization problems; optimality needs a certificate for arbitrary data rather than a recorded solution.',
    'anchors': {'files': ['doatools/optim/l1lsq.py'],
                'mechanism': [{'name': 'problem formulations', 'where': 'L1RegularizedLeastSquaresProblem, L21RegularizedLeastSquaresProblem'}],
                'observe_at': ['solve return values']},
}
RULE = ('Formulations, dictionaries, observations, parameters and sequences of solves are generated; every answer is certified by a duality (or Frank-Wolfe) gap computed by the harness. '
        'Non-trivial: a solution with a nonzero entry.')
ASSUMPTIONS = ['A solver that gives up with an inaccurate solution is not a violation (zeros and a warning are documented); the case is then decided with a second solver.', 'The convex solvers shipped with cvxpy are trusted to reach their default accuracy on well-scaled problems; the gap tolerance is 1e-4 of the objective scale (2e-3 with the default solver).']


def data(c, i, cplx=False, cols=1, prev=None):
    r = rs(c['seed'] + 31 * i)
    m, k = c['m'], c['k']
    if i and c['step'] != 'new':
        # Change only a part of the previous problem (same array objects with 'edit').
        A, b = prev
        if c['step'] in ('same', 'b'):
            A = A.copy()
        elif c['step'] == 'edit':
            A[-1, :] *= -0.5
            A[:, -1] += 0.3
            b[-1] *= -0.5
            return A, b
        else:
            A = A.copy()
            A[1:, 1:] += 0.4 * (randc(r, m - 1, k - 1) if cplx else r.randn(m - 1, k - 1))
        b = b.copy()
        if c['step'] != 'same':
            b[-1] = 0.7 - b[-1]
        return A, b
    g = (lambda *s: randc(r, *s)) if cplx else (lambda *s: r.randn(*s))
    A = g(m, k)
    x = g(k, cols) * (r.rand(k, 1) < 0.4)
    if c.get('nonneg'):
        x = np.abs(x)
    b = A @ x + 0.1 * g(m, cols)
    # Keep the data well scaled: the solvers have absolute tolerances.
    return A * (math.sqrt(k) / np.linalg.norm(A)), b * ((1.0 + 2 * r.rand()) / np.linalg.norm(b))


def solve(p, A, b, l, opts):
    keep = A.copy(), b.copy()
    import warnings
    for o in (opts, {'solver': 'SCS'}):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            try:
                x = p.solve(A, b, l, **o)
            except Exception as e:
                if type(e).__name__ != 'SolverError' or o is not opts:
                    raise
                continue  # the solver failed on this instance; another one has to succeed
        if any('cannot be obtained' in str(v.message) for v in w):
            # The solver gave up (inaccurate solution): zeros are returned with the warning. Another solver has to succeed.
            require(not np.any(x), 'a solution was returned with the warning that there is none')
            continue
        break
    else:
        fail('two solvers cannot solve the problem')
    same(A, keep[0], 'dictionary')
    same(b, keep[1], 'observation')
    return x


def unpenalized(A, b, nn):
    """Least residual norm."""
    if nn:
        from scipy.optimize import nnls
        return nnls(A, b[:, 0])[1]
    return float(np.linalg.norm(b - A @ np.linalg.lstsq(A, b, rcond=None)[0]))


def check_l1(c):
    from doatools.optim.l1lsq import L1RegularizedLeastSquaresProblem as L1
    f, nn, m, k = c['formulation'], c['nonneg'], c['m'], c['k']
    if f == 'penalizedl1' and c['default']:
        p = L1(m, k, nonnegative=nn) if nn else L1(m, k)
    else:
        p = L1(m, k, f, nn)
    label = prev = None
    for i in range(c['solves']):
        A, b = prev = data(c, i, prev=prev)
        l = c['l'][i % len(c['l'])]
        opts = {} if c['solver'] is None else {'solver': c['solver']}
        tol = 1e-4 if c['solver'] else 2e-3
        nb = float(np.linalg.norm(b))
        if f == 'penalizedl1':
            zero = l == 0
            l = l * float(np.max(np.abs(A.T @ b)))
            if l < 1e-3 * np.linalg.norm(A) * nb and not zero:
                continue  # the certificate divides by l
        elif f == 'constrainedl1':
            l = l * float(np.sum(np.abs(np.linalg.lstsq(A, b, rcond=None)[0])))
        else:
            # keep clear of the feasibility boundary
            dist = unpenalized(A, b, nn)
            l = dist + (0.05 + l) * (nb - dist + 0.05)
        x = solve(p, A, b, l, opts)
        require(x.shape in ((k,), (k, 1)), 'solution of shape {}', x.shape)
        x = np.asarray(x).reshape((k, 1))
        r = b - A @ x
        n1 = float(np.sum(np.abs(x)))
        s1 = 1.0 + n1
        if nn:
            require(np.min(x) >= -tol * s1, '{}: negative entry {}', f, np.min(x))
        g = A.T @ r
        worst = max(float(np.max(g)), 0.0) if nn else float(np.max(np.abs(g)))
        rr = float(np.sum(r * r))
        if f == 'penalizedl1':
            primal = 0.5 * rr + l * n1
            y = r * min(1.0, l / worst) if worst > 0 else r
            dual = float(np.sum(y * b) - 0.5 * np.sum(y * y))
            if l == 0:  # plain least squares
                dual = 0.5 * unpenalized(A, b, nn) ** 2
            gap = primal - dual
            scale = 0.5 * nb ** 2
        elif f == 'constrainedl1':
            require(n1 <= l * (1 + tol) + tol, '{}: |x|_1 = {} > {}', f, n1, l)
            gap = 2 * (l * worst - float(np.sum(g * x)))  # Frank-Wolfe gap of |Ax-b|^2
            scale = nb ** 2 + 0.3 * l  # the certificate amplifies the gradient's inaccuracy by l
        else:
            require(math.sqrt(rr) <= l * (1 + tol) + tol * nb, '{}: residual {} > {}', f, math.sqrt(rr), l)
            scale = 1.0 + n1
            if nb <= l:
                gap = n1
            else:
                # dual: max b'y - l|y|, A'y <= 1 (|A'y| <= 1)
                y = r / worst if worst > 0 else 0 * r
                gap = n1 - float(np.sum(b * y) - l * np.linalg.norm(y))
                scale += 0.5 * scale * nb / max(worst, 1e-12)  # the certificate amplifies the residual's inaccuracy by 1/worst
        require(gap <= 10 * tol * (scale + 0.05), '{}{}: suboptimal by up to {} (scale {}), l = {}', f, ' nonnegative' if nn else '', gap, scale, l)
        if n1 > 1e-3:
            label = '%s%s' % (f, '/nn' if nn else '')
    return label


def check_infeasible(c):
    from doatools.optim.l1lsq import L1RegularizedLeastSquaresProblem as L1
    m, k = c['m'] + c['k'], c['k']
    p = L1(m, k, 'constrainedl2', c['nonneg'])
    cc = dict(c, m=m)
    A, b = data(cc, 0)
    dist = float(np.linalg.norm(b - A @ np.linalg.lstsq(A, b, rcond=None)[0]))
    if dist < 0.05:
        return None
    try:
        return infeasible_case(c, p, A, b, dist)
    except Exception as e:
        if type(e).__name__ != 'SolverError':
            raise
        return None  # the solver itself failed on this instance


def infeasible_case(c, p, A, b, dist):
    import warnings
    from doatools.optim.l1lsq import L1RegularizedLeastSquaresProblem as L1
    k = c['k']
    first = p.solve(A, b, 2 * dist + 0.1, solver='CLARABEL') if c['warm'] and not c['nonneg'] else None
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        x = p.solve(A, b, 0.5 * dist, solver='CLARABEL')
    require(x.size == k and not np.any(x), 'infeasible problem returned {}', x)
    require(len(w) > 0, 'no warning for an infeasible problem')
    if first is not None:
        again = p.solve(A, b, 2 * dist + 0.1, solver='CLARABEL')
        close(again, first, 'solution after an infeasible solve', 1e-6, 1e-6)
    raises(ValueError, lambda: L1(2, 3, c['name']), 'formulation {}'.format(c['name']))
    return 'infeasible'


def check_l21(c):
    from doatools.optim.l1lsq import L21RegularizedLeastSquaresProblem as L21
    m, k, n, cx = c['m'], c['k'], c['n'], c['complex']
    p = L21(m, k, n, cx) if cx or not c['default'] else L21(m, k, n)
    label = prev = None
    for i in range(c['solves']):
        A, B = prev = data(c, i, cx, n, prev)
        rows = lambda Z: np.linalg.norm(Z, axis=1)
        l = c['l'][i % len(c['l'])]
        zero = l == 0
        l = l * float(np.max(rows(A.conj().T @ B)))
        if l < 1e-3 * np.linalg.norm(A) * np.linalg.norm(B) and not zero:
            continue  # the certificate divides by l
        opts = {} if c['solver'] is None else {'solver': c['solver']}
        X = solve(p, A, B, l, opts)
        require(X.shape == (k, n), 'solution of shape {}', X.shape)
        require(cx or not np.iscomplexobj(X), 'complex solution of a real problem')
        if not cx:
            require(not np.iscomplexobj(X) or not np.any(X.imag), 'complex solution of a real problem')
        R = B - A @ X
        primal = 0.5 * np.linalg.norm(R) ** 2 + l * np.sum(rows(X))
        w = float(np.max(rows(A.conj().T @ R)))
        Y = R * min(1.0, l / w) if w > 0 else R
        dual = np.vdot(Y, B).real - 0.5 * np.linalg.norm(Y) ** 2
        if zero:
            dual = 0.5 * unpenalized(A, B, False) ** 2
        require(primal - dual <= 2e-3 * 0.5 * np.linalg.norm(B) ** 2, 'l21: suboptimal by up to {} ({}), l = {}', primal - dual, primal, l)
        if np.max(rows(X)) > 1e-3:
            label = 'l21/%s' % ('complex' if cx else 'real')
    return label


base = dict(seed=seeds, m=st.integers(1, 8), k=st.integers(1, 10), l=st.lists(st.sampled_from([0.0, 0.02, 0.1, 0.3, 0.6, 0.9, 1.2]), min_size=1, max_size=3),
            solves=st.integers(1, 3), step=st.sampled_from(['new', 'same', 'b', 'inner', 'edit']), default=st.booleans())
l1_cases = st.fixed_dictionaries(dict(base, formulation=st.sampled_from(['penalizedl1', 'constrainedl1', 'constrainedl2']), nonneg=st.booleans(),
                                      solver=st.sampled_from(['CLARABEL', 'CLARABEL', 'CLARABEL', None])))
inf_cases = st.fixed_dictionaries(dict(base, nonneg=st.booleans(), warm=st.booleans(), name=st.sampled_from(['l1', 'penalizedl2', '', 'PenalizedL1'])))
l21_cases = st.fixed_dictionaries(dict(base, n=st.integers(1, 4), complex=st.booleans(), solver=st.sampled_from(['CLARABEL', None])))

SUBS = [Sub('l1', l1_cases, check_l1, 3000), Sub('infeasible', inf_cases, check_infeasible, 500), Sub('l21', l21_cases, check_l21, 1200)]
