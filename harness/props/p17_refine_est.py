from hypothesis import strategies as st

from ..common import *
from ..core import Sub
from ..est import *
from .p14_refine_grid import expect

ID = 'P17'
TITLE = 'Estimate refinement climbs the spectrum on successively finer local grids'
PROP = {
    'statement': 'With refine_estimates enabled, each estimate is replaced by the maximizer of the same spectrum function over the grid refined around it (neighbouring cells subdivided into `refinement_density` parts), repeated `refinement_iters` times around the latest maximizer. Every refined estimate therefore stays within the neighbouring cells of its grid peak and, on regularly spaced axes, has a spectrum value no smaller than that peak. The number, order, unit and "resolved" flag of estimates and the returned spectrum are those of the unrefined call.',
    'quantifier': {'over': ['inputs', 'configurations'], 'text': 'all methods, arrays, 1D/2D/near-field grids, covariance matrices, densities and iteration counts'},
    'why_tests_cant': 'Tests compare one refined MUSIC estimate with the truth at loose tolerance; per-iteration behaviour, densities, 2D grids and borders are unobserved.',
    'anchors': {'files': ['doatools/estimation/core.py', 'doatools/estimation/grid.py'],
                'mechanism': [{'name': 'refinement loop', 'where': 'SpectrumBasedEstimatorBase._refine_estimates'}],
                'observe_at': ['estimate(refine_estimates=True, refinement_density, refinement_iters)']},
}
RULE = ('Arrays, grids, covariance matrices, densities and iteration counts are generated; the refinement is recomputed with explicit local grids and '
        'independently evaluated spectra. Non-trivial: at least one resolved and refined source. When two grid points tie, only the invariants are checked.')


def is_regular(q):
    d = np.diff(q)
    return len(q) < 3 or float(np.ptp(d)) <= 1e-9 * float(np.max(np.abs(d)))


def check_refine(case):
    method = case['method']
    perts = case['perts']
    m = array_size(case['array'])
    if m < 2:
        return None
    a = build_array(case['array'], perts)
    nom = nominal(case['array'], a)
    gs = case['grid']
    g = build_grid(gs)
    axes = [list(map(float, q)) for q in ref_axes(gs)]
    if any(b <= a_ for q in axes for a_, b in zip(q, q[1:])):
        return None  # repeated grid points
    src = grid_sources(gs)
    k = min(case['k'], m - 1)
    R, Rin, _, form = present(indefinite(eig_cov(case['seed'], m, k, 30.0), case), case['seed'], EXACT_FORMS)
    kin = as_k(k, form)
    keepR = Rin.copy()
    wl = case['wl']
    e = estimator(method, a, wl, g)
    base = e.estimate(Rin, kin, return_spectrum=True)
    kw = {}
    density, iters = 10, 3
    if case['density'] is not None:
        kw['refinement_density'] = density = case['density']
    if case['iters'] is not None:
        kw['refinement_iters'] = iters = case['iters']
    out = e.estimate(Rin, kin, return_spectrum=True, refine_estimates=True, **kw)
    require(bool(out[0]) == bool(base[0]), 'resolved changed by the refinement')
    close(out[2], base[2], 'spectrum returned with refinement', 1e-9, 0)
    out2 = e.estimate(Rin, kin, refine_estimates=True, **kw)
    same(Rin, keepR, 'covariance matrix')
    require(len(out2) == 2, 'number of outputs')
    if not base[0]:
        require(out[1] is None and out2[1] is None, 'estimates of an unresolved case')
        return None
    same(out2[1].locations, out[1].locations, 'refined estimates with and without spectrum')
    require(type(out[1]) is type(base[1]) and tuple(out[1].units) == tuple(base[1].units), 'type or unit of refined estimates')
    B = np.asarray(base[1].locations).reshape((k, -1))
    E = np.asarray(out[1].locations).reshape((k, -1))
    require(E.shape == B.shape, 'refined estimates {} instead of {}', E.shape, B.shape)
    sign = 1.0 if method == 'bartlett' else -1.0

    def score(ax_list):
        pts = axes_sources(gs, ax_list)
        v, tol = ref_null(method, ref_atoms(None, perts, m, nom, pts, wl), R, k)
        return sign * v, tol

    ap = 1 + 0.1 * ((np.max(np.abs(nom)) + 1) / wl + (80 / wl if src['type'] == 'near2d' else 0))
    regular = all(is_regular(q) for q in axes)
    exact = 0
    for i in range(k):
        co = tuple(int(np.argmin(np.abs(np.array(axes[j]) - B[i, j]))) for j in range(len(axes)))
        for j in range(len(axes)):
            lo, hi = axes[j][max(0, co[j] - 1)], axes[j][min(len(axes[j]) - 1, co[j] + 1)]
            s = 1e-9 * (1 + abs(lo) + abs(hi))
            require(lo - s <= E[i, j] <= hi + s, 'refined estimate {} left the neighbourhood [{}, {}] of its peak', E[i, j], lo, hi)
        v0, tol = score([[x] for x in B[i]])
        v1, _ = score([[x] for x in E[i]])
        require(not regular or v1[0] >= v0[0] - tol * ap, 'the spectrum is worse after the refinement: {} -> {}', v0[0], v1[0])
        cur, pos, tie = [list(q) for q in axes], co, False
        for it in range(iters):
            cur = [expect(q, c, density, 1) for q, c in zip(cur, pos)]
            v, tol = score(cur)
            o = np.sort(v)
            if len(o) > 1 and o[-1] - o[-2] <= 4 * tol * ap:
                tie = True
                break
            pos = np.unravel_index(int(np.argmax(v)), [len(q) for q in cur])
        if iters == 0:
            same(E[i], B[i], 'estimate after zero refinements')
        elif not tie:
            want = np.array([q[c] for q, c in zip(cur, pos)])
            close(E[i], want, 'refined estimate {} (density {}, iterations {})'.format(i, density, iters), 1e-10, 1e-10)
            exact += 1
        elif it > 0:
            # Tie within a later, finer grid: the estimate stays within that grid.
            for j in range(len(axes)):
                lo, hi = cur[j][0], cur[j][-1]
                s = 1e-9 * (1 + abs(lo) + abs(hi))
                require(lo - s <= E[i, j] <= hi + s, 'refined estimate {} is not in the refined grid [{}, {}]', E[i, j], lo, hi)
    return '%s/%s/%s' % (method, src['type'], 'exact' if exact else 'tie')


@st.composite
def scen(draw):
    gs = draw(grid_spec(24 if draw(st.booleans()) else 10))
    two = len(ref_axes(gs)) == 2
    return {'method': draw(st.sampled_from(METHODS)), 'array': draw(st.one_of(ulas(8, 2), planar(2), generic_arrays(min_m=2, max_m=7))),
            'perts': draw(st.one_of(st.just([]), pert_list(2))), 'wl': draw(logfl(0.3, 5.0)), 'grid': gs, 'k': draw(st.integers(1, 3)), 'seed': draw(seeds),
            'density': draw(st.one_of(st.none(), st.integers(1, 4 if two else 20), st.integers(1, 2) if two else rarely(st.integers(1, 2), st.integers(30, 150), 4))),
            'iters': draw(st.one_of(st.none(), st.sampled_from([0, 1, 1, 1, 2, 2, 3, 5] if two else [0, 1, 1, 1, 2, 2, 3, 5, 8])))}


SUBS = [Sub('refine', scen(), check_refine, 3000)]
