from hypothesis import strategies as st

from ..common import *
from ..core import Sub

ID = 'P01'
TITLE = 'Array designs place their elements where their parameters say'
PROP = {
    'statement': 'For every admissible parameter set, a uniform linear, nested, co-prime, uniform rectangular, uniform circular, minimum redundancy, grid-based or custom array has exactly the documented element positions, in the documented order, measured in the given spacing, spacings or basis vectors. The reported size, number of dimensions, grid indices, spacing and basis vectors agree with those positions, and keyword arguments common to all designs (name, perturbations, element) take effect for each of them. Reading the positions hands out copies, so editing a returned matrix never changes the array.',
    'quantifier': {'over': ['inputs', 'configurations'], 'text': 'all design classes, sizes, spacings (scalar, per-axis, negative-coordinate and skewed bases), co-prime pairs in both orders and modes, list and ndarray inputs'},
    'why_tests_cant': 'The tests instantiate one or two parameter sets per design; the formulas quantify over all sizes, pairs and spacings.',
    'anchors': {'files': ['doatools/model/arrays.py', 'doatools/utils/math.py'],
                'mechanism': [{'name': 'design constructors', 'where': 'doatools/model/arrays.py: UniformLinearArray .. UniformRectangularArray'},
                              {'name': 'indices @ bases', 'where': 'GridBasedArrayDesign.__init__'}],
                'observe_at': ['element_locations', 'element_indices', 'd0', 'bases', 'size', 'ndim', 'shape']},
}
RULE = ('Designs are generated over all classes, sizes, spacings and bases; element positions are compared with '
        'closed-form positions computed in the harness. Non-trivial: at least two elements.')


def check_design(case):
    spec = case['array']
    perts = case['perts']
    m = array_size(spec)
    a = build_array(spec, perts, case['form'])
    loc = ref_locations(spec)
    require(a.size == m, 'size {} instead of {}', a.size, m)
    got = a.element_locations
    if loc is not None:
        close(got, loc, 'element_locations', 1e-12, 1e-12)
        require(a.ndim == loc.shape[1], 'ndim {} instead of {}', a.ndim, loc.shape[1])
    require(got.shape[0] == m and a.ndim == got.shape[1], 'inconsistent ndim/size')
    require(a.output_size == m, 'output_size {} instead of {}', a.output_size, m)
    ref_act = apply_ref_perts(perts, m, got, 'all')
    close(a.actual_element_locations, ref_act, 'actual_element_locations', 1e-12, 1e-12)
    require(a.actual_ndim == ref_act.shape[1], 'actual_ndim {}', a.actual_ndim)
    require(a.is_perturbed == bool(perts), 'is_perturbed {}', a.is_perturbed)
    require(len(a.perturbations) == len(perts), 'perturbations passed by keyword are lost')
    # Handing out copies.
    before = got.copy()
    got += 1
    close(a.element_locations, before, 'element_locations after editing a returned copy', 0, 0)
    idx = ref_indices(spec)
    if idx is not None or spec['kind'] == 'mrla':
        e = a.element_indices
        if idx is not None:
            same(e, np.array(idx), 'element_indices')
        keep = e.copy()
        e += 1
        same(a.element_indices, keep, 'element_indices after editing a returned copy')
        d = keep.shape[1]
        if 'bases' in spec:
            b = np.array(spec['bases'], dtype=float)
            close(a.bases, b, 'bases', 0, 0)
            close(a.d0, np.sqrt((b ** 2).sum(axis=1)), 'd0', 1e-12, 1e-15)
        else:
            d0 = np.ones(d) * np.array(spec['d0'], dtype=float)
            close(a.d0, d0, 'd0', 1e-12, 0)
            close(a.bases, np.diag(d0), 'bases', 1e-12, 0)
        close(before, keep @ a.bases, 'indices times bases', 1e-12, 1e-12)
    k = spec['kind']
    if k == 'nested':
        require((a.n1, a.n2) == (spec['n1'], spec['n2']), 'n1/n2')
    if k == 'coprime':
        require(tuple(a.coprime_pair) == tuple(sorted((spec['m'], spec['n']))), 'coprime_pair {}', a.coprime_pair)
        require(a.mode == spec['mode'].lower(), 'mode {}', a.mode)
    if k == 'ura':
        require(tuple(a.shape) == (spec['m'], spec['n']), 'shape {}', a.shape)
    if k == 'uca':
        require(abs(a.radius - spec['r']) <= 1e-12 * spec['r'], 'radius {}', a.radius)
        close(np.hypot(before[:, 0], before[:, 1]), np.full(m, spec['r']), 'distance from the centre', 1e-12)
        if m > 1:
            close(before.sum(axis=0), np.zeros(2), 'UCA centroid', 0, 1e-10 * max(1, spec['r']) * m)
    if k == 'mrla':
        i = a.element_indices[:, 0]
        require(i[0] == 0 and np.all(np.diff(i) > 0), 'MRLA indices are not increasing from 0: {}', i)
        require(mrla_ok(m, i[-1]), 'MRLA({}) has aperture {}', m, i[-1])
    return k if m > 1 else None


@st.composite
def designs(draw):
    spec = draw(any_array())
    return {'array': spec, 'perts': draw(pert_list(2)) if draw(st.booleans()) else [],
            'form': draw(st.sampled_from(['list', 'dict']))}


def check_name(case):
    """name= and element= reach every design."""
    from doatools.model import arrays as A
    from doatools.model.array_elements import CustomNonisotropicSensor
    el = CustomNonisotropicSensor(lambda r, az, el, p: np.ones_like(np.asarray(az)) * 2.0)
    d = case['d0']
    n = case['n']
    mk = {
        'ula': lambda **k: A.UniformLinearArray(n, d, **k),
        'nested': lambda **k: A.NestedArray(n, n + 1, d, **k),
        'coprime': lambda **k: A.CoPrimeArray(n, n + 1, d, **k),
        'mrla': lambda **k: A.MinimumRedundancyLinearArray(n, d, **k),
        'uca': lambda **k: A.UniformCircularArray(n, d, **k),
        'ura': lambda **k: A.UniformRectangularArray(n, n + 1, d, **k),
    }[case['kind']]
    a = mk(name=case['name'], element=el)
    require(a.name == case['name'], 'name {!r}', a.name)
    require(a.element is el, 'element keyword is ignored')
    b = mk()
    require(isinstance(b.name, str) and b.name, 'default name')
    import re
    want = {'nested': [n, n + 1], 'coprime': [n, n + 1], 'ura': [n, n + 1]}.get(case['kind'], [n])
    require([int(v) for v in re.findall(r'\d+', b.name)] == want, 'default name {!r} does not show the parameters {}', b.name, want)
    require(b.element.is_scalar and b.element.is_isotropic, 'default element')
    require(not b.is_perturbed, 'default design is perturbed')
    if case['kind'] == 'coprime':
        require(b.mode == '2m', 'default co-prime mode {}', b.mode)
        require(b.size == (n + 1) + 2 * n - 1, 'default co-prime size {}', b.size)
    from doatools.model.sources import FarField1DSourcePlacement
    s = FarField1DSourcePlacement(np.array([0.1, -0.4]))
    close(a.steering_matrix(s, 1.0), 2.0 * b.steering_matrix(s, 1.0), 'steering matrix with custom element', 1e-12)
    return case['kind']


SUBS = [
    Sub('design', designs(), check_design, 6000),
    Sub('keywords', st.fixed_dictionaries({
        'kind': st.sampled_from(['ula', 'nested', 'coprime', 'mrla', 'uca', 'ura']),
        'n': st.integers(2, 6), 'd0': logfl(0.1, 3), 'name': st.sampled_from(['x', 'My array', 'a b'])}),
        check_name, 600),
]
