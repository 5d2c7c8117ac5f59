from hypothesis import strategies as st

from ..common import *
from ..core import Sub

ID = 'P09'
TITLE = 'Sensor responses multiply the steering matrix as documented'
PROP = {
    'statement': 'For an array of non-isotropic or vector sensors, entry (l, i, k) of the steering tensor is the l-th response of the sensor towards source k, seen from sensor i at its actual position (direction only, at infinite range, for far-field sources), times the ideal phase term; flattening stacks the tensor component by component into an (L*M) x K matrix and the reported output size is L*M. Known scalar imperfections act on top of scalar responses. Requests that are undefined for such sensors (derivatives, scalar imperfections of vector sensors, malformed inputs) are refused.',
    'quantifier': {'over': ['inputs', 'configurations'], 'text': 'all response functions of (range, azimuth, elevation), output sizes, arrays, source types and location errors'},
    'why_tests_cant': 'Tests cover one gain-only vector sensor; direction, range and per-sensor dependence are not reached.',
    'anchors': {'files': ['doatools/model/arrays.py', 'doatools/model/array_elements.py', 'doatools/model/sources.py'],
                'mechanism': [{'name': 'spatial response', 'where': 'ArrayDesign.steering_matrix, ArrayElement.calc_spatial_response'}],
                'observe_at': ['steering_matrix(flatten=...)', 'output_size', 'calc_spatial_response']},
}
RULE = ('Response functions (random trigonometric polynomials in direction and range), arrays, sources and location errors are '
        'generated; compared entry by entry. Non-trivial: at least two sensors and a direction-dependent response.')


def response(coef, l, r, az, el):
    """Component l of the sensor response; finite for infinite range."""
    c = coef[l]
    g = np.where(np.isinf(r), 1.0, 1.0 + c[3] / (1.0 + np.where(np.isinf(r), 0.0, r)))
    return (c[0] + c[1] * np.cos(az) * np.cos(el) + c[2] * np.sin(az) * np.cos(el) + 1j * c[4] * np.sin(el)) * g


def check_response(case):
    from doatools.model.array_elements import CustomNonisotropicSensor
    coef, L = case['coef'], len(case['coef'])
    s, wl, which = case['src'], case['wl'], case['which']
    seen = []

    def f(r, az, el, pol):
        seen.append(pol)
        if L == 1:
            return response(coef, 0, r, az, el)
        return np.stack([response(coef, i, r, az, el) for i in range(L)])

    elem = CustomNonisotropicSensor(f, output_size=L)
    require(elem.output_size == L and elem.is_scalar == (L == 1) and not elem.is_isotropic, 'element flags')
    m = array_size(case['array'])
    perts = [p for p in case['perts'] if L == 1 or p['type'] == 'location_errors']
    a = build_array(case['array'], perts, 'list', elem)
    require(a.output_size == L * m and a.size == m, 'output_size {} instead of {}', a.output_size, L * m)
    src = build_sources(s)
    locs = apply_ref_perts(perts, m, nominal(case['array'], a), which)
    A0 = ref_steering(locs, s, wl)
    K = A0.shape[1]
    T = np.zeros((L, m, K), dtype=complex)
    x = pad3(locs)
    for k in range(K):
        for i in range(m):
            if s['type'] == 'near2d':
                p = np.array(list(s['loc'][k]) + [0.0]) - x[i]
                r = math.sqrt(float(p @ p))
                if np.hypot(p[0], p[1]) < 1e-9 or abs(p[2]) > 0 and np.hypot(p[0], p[1]) < 1e-6:
                    return None  # direction undefined
                az, el = math.atan2(p[1], p[0]), math.atan2(p[2], math.hypot(p[0], p[1]))
            else:
                u = direction_vectors(s)[:, k]
                r, az, el = math.inf, math.atan2(u[1], u[0]), math.atan2(u[2], math.hypot(u[0], u[1]))
            for l in range(L):
                T[l, i, k] = response(coef, l, r, az, el) * A0[i, k]
    ap = 1 + np.max(np.abs(locs)) / wl + (60 / wl if s['type'] == 'near2d' else 0)
    if L == 1:
        E = ref_perturb(perts, m, T[0], which)
        close(a.steering_matrix(src, wl, perturbations=which), E, 'steering matrix', 0, 1e-7 * ap)
        close(a.steering_matrix(src, wl, perturbations=which, flatten=False), E, 'steering matrix', 0, 1e-7 * ap)
    else:
        close(a.steering_matrix(src, wl, perturbations=which, flatten=False), T, 'steering tensor', 0, 1e-7 * ap)
        close(a.steering_matrix(src, wl, perturbations=which), T.reshape((L * m, K)), 'flattened steering matrix', 0, 1e-7 * ap)
    require(all(q is None for q in seen), 'polarization passed without being requested')
    raises(RuntimeError, lambda: a.steering_matrix(src, wl, True), 'derivatives with a non-isotropic sensor')
    return '%s/L%d' % (s['type'], L) if m > 1 else None


def check_refuse(case):
    from doatools.model.array_elements import CustomNonisotropicSensor, ISOTROPIC_SCALAR_SENSOR
    L = case['L']
    v = CustomNonisotropicSensor(lambda r, az, el, p: np.ones((L,) + np.shape(az)) * 1.0, output_size=L, polarized=case['pol'])
    m = array_size(case['array'])
    for t in ('gain_errors', 'phase_errors', 'mutual_coupling'):
        p = make_perts([{'type': t, 'seed': 1, 'dim': 1, 'known': True}], m)
        from doatools.model.arrays import ArrayDesign
        locs = build_array(case['array']).element_locations
        raises(RuntimeError, lambda: ArrayDesign(locs, 'v', p, v), t + ' on a vector sensor array')
        raises(RuntimeError, lambda: ArrayDesign(locs, 'v', element=v).get_perturbed_copy(p), t + ' on a copy of a vector sensor array')
        ok = p[0].is_applicable_to(ArrayDesign(locs, 'v', element=v))
        require(not ok[0], '{} is applicable to a vector sensor array', t)
    r = np.ones((2, 3))
    raises(ValueError, lambda: v.calc_spatial_response(r, r[:1], r), 'mismatched azimuth shape')
    raises(ValueError, lambda: v.calc_spatial_response(r, r, r[:, :1]), 'mismatched elevation shape')
    pol = np.zeros((2, 3, 2))
    w = CustomNonisotropicSensor(lambda r, az, el, p: np.ones(np.shape(az)) * 1.0)
    require(w.output_size == 1 and w.is_scalar and not w.is_isotropic and w.is_polarized is False, 'default flags of a custom sensor')
    if case['pol']:
        require(v.is_polarized, 'is_polarized')
        require(v.calc_spatial_response(r, r, r, pol).shape == (L, 2, 3), 'response shape')
        raises(ValueError, lambda: v.calc_spatial_response(r, r, r, pol[:1]), 'malformed polarization')
    else:
        require(not v.is_polarized, 'is_polarized')
        raises(ValueError, lambda: v.calc_spatial_response(r, r, r, pol), 'polarization on a non-polarized sensor')
    i = ISOTROPIC_SCALAR_SENSOR
    require(i.output_size == 1 and i.is_scalar and i.is_isotropic and not i.is_polarized, 'isotropic sensor flags')
    close(i.calc_spatial_response(r, r, r), np.ones((2, 3)), 'isotropic response', 0, 0)
    close(i.calc_spatial_response(1.0, 0.2, 0.1), 1.0, 'isotropic response (scalar)', 0, 0)
    raises(ValueError, lambda: i.calc_spatial_response(r, r, r, pol), 'polarization on the isotropic sensor')
    return 'refusals'


@st.composite
def resp(draw):
    L = draw(st.integers(1, 4))
    coef = draw(st.lists(st.lists(fl(-1, 1, 40), min_size=5, max_size=5), min_size=L, max_size=L))
    small = st.one_of(ulas(6), planar(), sparse1d(small=True), generic_arrays(max_m=6))
    return {'coef': coef, 'array': draw(small), 'src': draw(any_sources(3)), 'wl': draw(logfl(0.2, 10)),
            'perts': draw(pert_list()), 'which': draw(st.sampled_from(['all', 'known', 'none']))}


SUBS = [
    Sub('response', resp(), check_response, 3200),
    Sub('refusals', st.fixed_dictionaries({'L': st.integers(2, 4), 'array': st.one_of(ulas(6), planar()), 'pol': st.booleans()}), check_refuse, 250),
]
