from hypothesis import strategies as st

from ..common import *
from ..core import Sub

ID = 'P02'
TITLE = 'Weight function and difference coarray are exactly the pair counts'
PROP = {
    'statement': 'For every 1D grid-based array, the weight function reports, for each integer difference, exactly the number (and the positions in the column-stacked covariance) of ordered sensor pairs with that difference; the weights are symmetric and sum to the squared number of sensors. The central coarray segment is the longest run of differences 0,1,2,... that all occur, and the selection matrix averages, for each lag in ascending order, exactly the covariance entries with that lag. Location differences and their unique rows are complete and free of duplicates.',
    'quantifier': {'over': ['inputs', 'configurations'], 'text': 'arbitrary integer element positions (unsorted, repeated, negative, with holes) and all standard designs'},
    'why_tests_cant': 'Tests check a handful of hand-computed weight tables for two designs; the counting identity must hold for every geometry.',
    'anchors': {'files': ['doatools/model/coarray.py', 'doatools/utils/math.py'],
                'mechanism': [{'name': 'index map of differences', 'where': 'WeightFunction1D._build_map'},
                              {'name': 'selection matrix', 'where': 'WeightFunction1D.get_coarray_selection_matrix'}],
                'observe_at': ['WeightFunction1D', 'compute_location_differences', 'compute_unique_location_differences']},
}
RULE = ('1D grid arrays (standard and arbitrary integer positions) are generated; all answers are compared with a '
        'brute-force enumeration of ordered pairs. Non-trivial: at least three sensors.')


@st.composite
def arr1d(draw):
    k = draw(st.integers(0, 3))
    if k == 0:
        return draw(ulas())
    if k == 1:
        return draw(sparse1d())
    far = draw(st.integers(0, 9)) == 9
    n = draw(st.integers(8, 18) if far else st.integers(1, 10))
    idx = draw(st.lists(st.integers(-400, 40000) if far and draw(st.booleans()) else st.integers(-20, 40), min_size=n, max_size=n, unique=draw(st.booleans())))
    return draw(line_grid(idx, logfl(0.1, 3)))


def check_weights(case):
    from doatools.model.coarray import WeightFunction1D
    a = build_array(case['array'])
    idx = [int(i) for i in a.element_indices[:, 0]]
    m = len(idx)
    # Column-stacked covariance entry p = c * m + r holds R[r, c], whose lag is idx[r] - idx[c].
    table = {}
    for c in range(m):
        for r in range(m):
            table.setdefault(idx[r] - idx[c], []).append(c * m + r)
    w = WeightFunction1D(a)
    order = case['order']
    diffs = sorted(table)

    def t_table():
        same(w.differences(), np.array(diffs), 'differences')
        same(w.weights(), np.array([len(table[d]) for d in diffs]), 'weights')
        require(len(w) == len(diffs), 'len {}', len(w))
        require(int(np.sum(w.weights())) == m * m, 'weights sum to {}', np.sum(w.weights()))
        for d in diffs + [max(diffs) + 1, min(diffs) - 3] + case['probe']:
            exp = table.get(d, [])
            require(w(d) == len(exp) and w.weight_of(d) == len(exp), 'w({}) = {} instead of {}', d, w(d), len(exp))
            require(sorted(int(i) for i in w.indices_of(d)) == sorted(exp), 'indices_of({}) = {}', d, w.indices_of(d))
            require(w(-d) == w(d), 'weight function is not symmetric at {}', d)

    for d in (0.5, max(diffs) - 0.25, -0.75):
        # No pair of elements has such a difference.
        require(w(d) == 0 and len(w.indices_of(d)) == 0, 'w({}) = {}', d, w(d))

    mv = 0
    while mv in table:
        mv += 1

    def t_size():
        require(w.get_central_ula_size(True) == mv, 'one-sided central ULA size {} instead of {}', w.get_central_ula_size(True), mv)
        require(w.get_central_ula_size() == 2 * mv - 1, 'central ULA size {} instead of {}', w.get_central_ula_size(), 2 * mv - 1)
        require(w.get_central_ula_size(False) == 2 * mv - 1, 'central ULA size')

    def t_sel():
        for half in (False, True):
            lags = list(range(0 if half else 1 - mv, mv))
            F = np.zeros((len(lags), m * m))
            for i, d in enumerate(lags):
                for p in table[d]:
                    F[i, p] = 1.0 / len(table[d])
            close(w.get_coarray_selection_matrix(half), F, 'selection matrix (half={})'.format(half), 1e-13, 0)
            if not half:
                close(w.get_coarray_selection_matrix(), F, 'selection matrix (default)', 1e-13, 0)

    steps = [t_table, t_size, t_sel]
    for i in order:
        steps[i]()
    # Handed-out containers are copies.
    w.differences()[:] = 0
    if mv > 0:
        w.indices_of(0).append(10 ** 6)
    t_table()
    t_sel()
    return case['array']['kind'] + ('/holes' if 2 * mv - 1 < len(diffs) else '/contiguous') if m >= 3 else None


def check_diffs(case):
    from doatools.model.coarray import compute_location_differences, compute_unique_location_differences
    x = np.array(case['locs'], dtype=float) * case['scale']
    m, d = x.shape
    D = compute_location_differences(x)
    exp = np.array([x[j] - x[i] for i in range(m) for j in range(m)])
    close(D, exp, 'location differences', 1e-12, 0)
    U = compute_unique_location_differences(x)
    key = lambda rows: {tuple(int(round(v)) for v in r) for r in rows / case['scale']}
    want = key(exp)
    got = [tuple(int(round(v)) for v in r) for r in U / case['scale']]
    require(len(got) == len(set(got)), 'unique differences contain duplicates')
    require(set(got) == want, 'unique differences: {} instead of {}', sorted(got)[:10], sorted(want)[:10])
    return 'dim%d' % d if m >= 3 else None


@st.composite
def locs_case(draw):
    d = draw(st.integers(1, 3))
    many = draw(st.integers(0, 24)) == 24
    m = draw(st.integers(18, 24) if many else st.integers(1, 7))
    d = min(d, 2) if many else d
    top = st.integers(-1, 2) if many else st.integers(-5, 6)
    return {'locs': draw(st.lists(st.lists(top, min_size=d, max_size=d), min_size=m, max_size=m)),
            'scale': draw(logfl(1e-3, 1e3))}


SUBS = [
    Sub('weights', st.fixed_dictionaries({'array': arr1d(), 'probe': st.lists(st.integers(-60, 60), max_size=4),
                                          'order': st.permutations([0, 1, 2])}), check_weights, 3000),
    Sub('differences', locs_case(), check_diffs, 2500),
]
