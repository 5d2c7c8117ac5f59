from hypothesis import strategies as st

from ..common import *
from ..core import Sub

ID = 'P07'
TITLE = 'Array imperfections enter the steering matrix exactly as modelled'
PROP = {
    'statement': 'With imperfections present, the steering matrix is the ideal matrix evaluated at the displaced sensors (location errors of any dimension added to the nominal positions), then scaled per sensor by 1+gain error, rotated per sensor by the phase error, and multiplied from the left by the coupling matrix, in the order in which they were given. The filter selects all, only known, or no imperfections, for far-field and near-field sources alike. Lists, arrays and dictionary forms, and integer-valued parameters or positions, are equivalent.',
    'quantifier': {'over': ['inputs', 'configurations'], 'text': 'all subsets, orders, known flags, dimensions and input forms of imperfections over all arrays and sources'},
    'why_tests_cant': 'Tests use one fixed imperfection set; the combinations of type, order, filter, dimension and form are unbounded.',
    'anchors': {'files': ['doatools/model/perturbations.py', 'doatools/model/arrays.py'],
                'mechanism': [{'name': 'perturb_sensor_locations / perturb_steering_matrix', 'where': 'doatools/model/perturbations.py'},
                              {'name': 'filtering', 'where': 'ArrayDesign.steering_matrix'}],
                'observe_at': ['steering_matrix(perturbations=...)', 'actual_element_locations']},
}
RULE = ('Arrays, sources and imperfection sets are generated; the matrix is compared with the reference composition. '
        'Non-trivial: at least one imperfection is selected by the filter and at least two sensors.')


def check_model(case):
    s, wl, perts, which = case['src'], case['wl'], case['perts'], case['which']
    m = array_size(case['array'])
    a = build_array(case['array'], perts, case['form'])
    src = build_sources(s)
    if case['shared']:
        # The same imperfection objects were used by another array before.
        from doatools.model.arrays import ArrayDesign
        other = ArrayDesign(a.element_locations[::-1] * 0.7 + 0.3, 'other').get_perturbed_copy(a.perturbations)
        other.steering_matrix(src, wl * 1.1, s['type'] == 'far1d', which)
        other.actual_element_locations
    nom = nominal(case['array'], a)
    locs = apply_ref_perts(perts, m, nom, which)
    ap = 1 + np.max(np.abs(locs)) / wl + (60 / wl if s['type'] == 'near2d' else 0)
    A = ref_perturb(perts, m, ref_steering(locs, s, wl), which)
    close(a.steering_matrix(src, wl, perturbations=which), A, 'steering matrix (' + which + ')', 0, 1e-8 * ap)
    if which == 'all':
        close(a.steering_matrix(src, wl), A, 'steering matrix (default filter)', 0, 1e-8 * ap)
        close(a.actual_element_locations, locs, 'actual element locations', 1e-12, 1e-12)
    close(a.element_locations, nom, 'nominal locations', 1e-12, 1e-12)
    close(a.steering_matrix(src, wl, perturbations='none'), ref_steering(nom, s, wl), 'unperturbed matrix', 0, 1e-8 * ap)
    sel = [p for p in perts if which == 'all' or (which == 'known' and p['known'])]
    if not sel or m < 2:
        return None
    return '%s/%s/%d' % (s['type'], which, len(sel))


def check_forms(case):
    """Lists, integer values and copies."""
    from doatools.model import perturbations as P
    from doatools.model.arrays import ArrayDesign
    m = len(case['locs'])
    g, ph, le = case['gain'][:m], case['phase'][:m], [r[:case['dim']] for r in case['err'][:m]]
    if case['frac']:
        g, ph, le = [0.1 * v for v in g], [0.1 * v for v in ph], [[0.1 * v for v in r] for r in le]
    C = [[(1 if i == j else 0) + case['mc'] * ((i * 3 + j) % 4) for j in range(m)] for i in range(m)]
    mk = {'gain_errors': (P.GainErrors, g), 'phase_errors': (P.PhaseErrors, ph),
          'location_errors': (P.LocationErrors, le), 'mutual_coupling': (P.MutualCoupling, C)}
    from doatools.model.sources import FarField1DSourcePlacement
    src = FarField1DSourcePlacement(np.array([0.2, -0.7]))
    locs = np.array(case['locs'], dtype=case['dtype'])
    keep = locs.copy()
    out = []
    for conv in (lambda v: v, lambda v: np.array(v), lambda v: np.array(v, dtype=float)):
        cls, v = mk[case['type']]
        p = cls(conv(v), known=case['known'])
        require(p.is_known == case['known'], 'is_known')
        close(p.params, np.array(v, dtype=float), 'params', 0, 0)
        a = ArrayDesign(locs, 'x', perturbations=[p])
        b = ArrayDesign(locs, 'x', perturbations={case['type']: (conv(v), case['known'])})
        out += [a.steering_matrix(src, 1.3), b.steering_matrix(src, 1.3)]
        require(a.is_perturbation_known(cls) == case['known'], 'known flag')
    for o in out[1:]:
        close(o, out[0], 'steering matrices from equivalent input forms', 1e-12)
    same(locs, keep, 'sensor locations after building perturbed arrays')
    x = pad3(keep)
    if case['type'] == 'location_errors':
        x = x + pad3(np.array(le, dtype=float))
    A = ref_steering(x, {'type': 'far1d', 'unit': 'rad', 'loc': [0.2, -0.7]}, 1.3)
    if case['type'] == 'gain_errors':
        A = (1 + np.array(g, float))[:, None] * A
    if case['type'] == 'phase_errors':
        A = np.exp(1j * np.array(ph, float))[:, None] * A
    if case['type'] == 'mutual_coupling':
        A = np.array(C, float) @ A
    close(out[0], A, 'steering matrix', 0, 1e-8)
    return case['type'] + '/' + case['dtype'] if m > 1 else None


@st.composite
def forms(draw):
    d = draw(st.integers(1, 3))
    m = draw(st.integers(1, 5))
    small = st.integers(-3, 3)
    return {'locs': draw(st.lists(st.lists(st.integers(-6, 6), min_size=d, max_size=d), min_size=m, max_size=m)),
            'dtype': draw(st.sampled_from(['int64', 'int64', 'float64', 'float32', 'int32'])), 'frac': draw(st.booleans()), 'dim': draw(st.integers(1, 3)), 'known': draw(st.booleans()),
            'type': draw(st.sampled_from(PERT_KINDS)), 'mc': draw(st.integers(0, 2)),
            'gain': draw(st.lists(small, min_size=5, max_size=5)), 'phase': draw(st.lists(small, min_size=5, max_size=5)),
            'err': draw(st.lists(st.lists(small, min_size=3, max_size=3), min_size=5, max_size=5))}


SUBS = [
    Sub('model', st.fixed_dictionaries({
        'array': any_array(), 'src': any_sources(), 'wl': wavelengths, 'perts': pert_list(),
        'which': st.sampled_from(['all', 'known', 'none']), 'form': st.sampled_from(['list', 'dict']), 'shared': st.booleans()}), check_model, 5000),
    Sub('forms', forms(), check_forms, 2000),
]
