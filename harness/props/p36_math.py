from ..core import Sub
from ..common import *

ID = 'P36'
TITLE = 'Matrix utilities satisfy their defining identities'
PROP = {
    'statement': 'vec stacks columns; abs_squared is |x|^2; khatri_rao is the column-wise Kronecker product (so that vec(A diag(p) B^H) = (conj(B) kr A) p) and refuses different column counts; projm is the orthogonal projector onto the column space (real, complex, rectangular, and rank-deficient with use_pinv); cartesian enumerates all combinations in lexicographic index order; unique_rows returns rows of the input, no two within tolerance, covering all rows within tolerance, each represented by its first occurrence, with correct indices and optional lexicographic sorting. Inputs are not modified.',
    'quantifier': {'over': ['inputs'], 'text': 'all shapes, dtypes (integer, real, complex), ranks, tolerances and duplicates'},
    'why_tests_cant': 'Tests check a few small matrices; identities must hold for all shapes, types and cluster structures.',
    'anchors': {'files': ['doatools/utils/math.py'],
                'mechanism': [{'name': 'utility functions', 'where': 'doatools/utils/math.py'}],
                'observe_at': ['vec', 'abs_squared', 'khatri_rao', 'projm', 'cartesian', 'unique_rows']},
}
RULE = ('Matrices of all shapes and types are generated and the defining identities are evaluated element by element. Non-trivial: more than one row and column.')


def mat(r, kind, m, n):
    return {'int': lambda: r.randint(-4, 5, (m, n)), 'real': lambda: r.randn(m, n), 'complex': lambda: randc(r, m, n)}[kind]()


def check_products(c):
    from doatools.utils import math as M
    r = rs(c['seed'])
    m, n, k = c['m'], c['n'], c['k']
    A, B = mat(r, c['ka'], m, k), mat(r, c['kb'], n, k)
    if c['order'] == 'F':
        A = np.asfortranarray(A)
    if c['order'] == 'T':
        A = np.ascontiguousarray(A.T).T
    keep = A.copy(), B.copy()
    K = M.khatri_rao(A, B)
    require(K.shape == (m * n, k), 'Khatri-Rao product of shape {}', K.shape)
    E = np.array([A[i] * B[j] for i in range(m) for j in range(n)])
    close(K, E, 'Khatri-Rao product', 0, 1e-12)
    require(np.iscomplexobj(K) == (np.iscomplexobj(A) or np.iscomplexobj(B)), 'type of the Khatri-Rao product {}', K.dtype)
    p = r.uniform(-1, 2, k)
    X = (A * p) @ B.conj().T
    v = M.vec(X)
    require(v.shape == (m * n, 1), 'vec of shape {}', v.shape)
    same(v[:, 0], np.array([X[i, j] for j in range(n) for i in range(m)]), 'vec')
    close(M.khatri_rao(B.conj(), A) @ p, v[:, 0], 'vec(A diag(p) B^H)', 0, 1e-11)
    vt = M.vec(A)
    same(vt[:, 0], np.array([A[i, j] for j in range(k) for i in range(m)]), 'vec')
    close(M.abs_squared(X), np.array([[abs(z) ** 2 for z in row] for row in X]), 'abs_squared', 1e-12, 1e-13)
    require(not np.iscomplexobj(M.abs_squared(A + 0j)), 'abs_squared is complex')
    raises(ValueError, lambda: M.khatri_rao(A, np.ones((n, k + 1))), 'different numbers of columns')
    same(A, keep[0], 'input')
    same(B, keep[1], 'input')
    return 'products/%s-%s' % (c['ka'], c['kb']) if min(m, n, k) > 1 else None


def check_proj(c):
    from doatools.utils.math import projm
    r = rs(c['seed'])
    k = c['k']
    m = k + c['n'] - 1
    rank = max(1, k - c['drop']) if c['pinv'] else k
    A = mat(r, c['ka'], m, rank).astype(complex if c['ka'] == 'complex' else float)
    if np.linalg.svd(A, compute_uv=False)[-1] < 0.1:
        return None
    if c['ill'] and rank == k and c['ka'] != 'int':
        # Full rank, but ill-conditioned.
        A = A * 10.0 ** -np.linspace(0, min(c['ill'], 8 if c['pinv'] else 5), k)
        if c['seed'] % 2:
            A = A @ np.linalg.qr(mat(r, c['ka'], k, k))[0]
    Q, _ = np.linalg.qr(A)
    if rank < k:
        T = mat(r, 'real', rank, k)
        if np.linalg.svd(T, compute_uv=False)[-1] < 0.1:
            return None
        A = A @ T
    A = A * c['scale']
    if c['ka'] == 'int' and rank == k and c['scale'] == 1.0:
        A = A.astype(int)
    keep = A.copy()
    P = projm(A, True) if c['pinv'] else projm(A)
    same(A, keep, 'input')
    require(P.shape == (m, m), 'projector of shape {}', P.shape)
    sv = np.linalg.svd(A, compute_uv=False)[:rank]
    close(P, Q @ Q.conj().T, 'projector onto the column space', 0, 1e-8 + (1e-15 * m * sv[0] / sv[-1] * 100 if c['pinv'] else 1e-14 * (sv[0] / sv[-1]) ** 2))
    return 'proj/%s%s' % (c['ka'], '/deficient' if rank < k else '') if m > k > 1 else None


def check_cartesian(c):
    from doatools.utils.math import cartesian
    r = rs(c['seed'])
    xs = [r.randint(-9, 9, n) if t else r.randn(n) for n, t in zip(c['sizes'], c['ints'] * 4)]
    if c['list']:
        xs = [x.tolist() for x in xs]
    out = cartesian(*xs)
    E = [[]]
    for x in xs:
        E = [e + [v] for e in E for v in x]
    same(out, np.array(E), 'Cartesian product')
    return 'cartesian/%d' % len(xs) if len(xs) > 1 else None


def check_unique(c):
    from doatools.utils.math import unique_rows
    rows = c['rows'] if not c['many'] else rs(c['seed'] + 1).randint(-3, 4, (c['many'], 3)).tolist()
    d = c['d']
    # cluster centers on an integer lattice, members jittered well within the tolerance
    r = rs(c['seed'])
    tol = c['tol']
    base = np.array([[float(v) for v in row[:d]] for row in rows]).reshape((len(rows), d)) * c['scale']
    big = float(np.max(np.abs(base))) if base.size else 0.0
    if c['int']:
        x, kw = np.array([row[:d] for row in rows], dtype=int).reshape((len(rows), d)), {}
        base = x.astype(float)
    else:
        if tol == 'default':
            kw, t = {}, 1e-8 * big
        elif tol == 'atol':
            kw, t = {'atol': 0.2 * c['scale'], 'rtol': 0.0}, 0.2 * c['scale']
        elif tol == 'rtol':
            kw, t = {'rtol': 0.01}, 0.01 * big
        else:
            kw, t = {'atol': 0.05 * c['scale'], 'rtol': 0.005}, 0.05 * c['scale'] + 0.005 * big
        t = min(t, 0.3 * c['scale'])
        if tol in ('rtol', 'both') and 0.01 * big > 0.2 * c['scale']:
            return None
        x = base + r.uniform(-0.4, 0.4, base.shape) * t
    keep = x.copy()
    first = {}
    for i, b in enumerate(base.tolist()):
        first.setdefault(tuple(b), i)
    idx = sorted(first.values())
    y, ind = unique_rows(x, return_index=True, sort=False, **kw)
    same(x, keep, 'input')
    require(np.asarray(ind).ndim == 1 and np.issubdtype(np.asarray(ind).dtype, np.integer), 'indices {!r}', ind)
    require(list(ind) == idx, 'indices {} instead of {}', list(ind), idx)
    same(y, x[idx].reshape((len(idx), d)), 'unique rows')
    same(unique_rows(x, **kw), y, 'unique rows without indices')
    if len(x):
        ys, si = unique_rows(x, return_index=True, sort=True, **kw)
        same(ys, x[si], 'sorted rows and their indices')
        require(sorted(int(i) for i in si) == idx, 'indices of the sorted rows {}', si)
        L = ys.tolist()
        require(L == sorted(L), 'rows are not in lexicographic order: {}', L)
        same(unique_rows(x, sort=True, **kw), ys, 'sorted rows without indices')
    y[...] = 77
    same(x, keep, 'input after modifying the output')
    raises(ValueError, lambda: unique_rows(np.ones(3)), 'vector input')
    raises(ValueError, lambda: unique_rows(np.ones((2, 2, 2))), '3D input')
    return 'unique/%s' % ('int' if c['int'] else tol) if len(idx) < len(rows) and len(idx) > 1 else None


kinds = st.sampled_from(['int', 'real', 'complex', 'complex'])
prod = st.fixed_dictionaries(dict(seed=seeds, m=rarely(st.integers(1, 5), st.integers(6, 40), 20), n=rarely(st.integers(1, 5), st.integers(6, 40), 20), k=rarely(st.integers(1, 5), st.sampled_from([6, 9, 17, 65, 130, 300]), 12), ka=kinds, kb=kinds, order=st.sampled_from(['C', 'F', 'T'])))
proj = st.fixed_dictionaries(dict(seed=seeds, n=rarely(st.integers(1, 5), st.integers(6, 70), 12), k=rarely(st.integers(1, 5), st.integers(6, 40), 12), ka=kinds, pinv=st.booleans(), drop=st.integers(0, 2), ill=st.one_of(st.just(0), st.integers(0, 8)), scale=st.sampled_from([1.0, 1.0, 1e-4, 1e5])))
cart = st.fixed_dictionaries(dict(seed=seeds, sizes=rarely(st.lists(st.integers(1, 5), min_size=1, max_size=4), st.lists(st.integers(1, 90), min_size=2, max_size=2), 10), ints=st.lists(st.booleans(), min_size=1, max_size=4), list=st.booleans()))
uniq = st.fixed_dictionaries(dict(many=rarely(st.just(0), st.sampled_from([40, 150, 400]), 25), seed=seeds, rows=st.lists(st.lists(st.integers(-3, 3), min_size=3, max_size=3), max_size=14), d=st.integers(1, 3), int=st.booleans(),
                                  tol=st.sampled_from(['default', 'atol', 'rtol', 'both']), scale=st.sampled_from([1.0, 1e-6, 1e5])))
SUBS = [Sub('products', prod, check_products, 1500), Sub('proj', proj, check_proj, 1500), Sub('cartesian', cart, check_cartesian, 500), Sub('unique', uniq, check_unique, 2500)]
