from hypothesis import strategies as st

from ..common import *
from ..core import Sub

ID = 'P06'
TITLE = 'Steering-matrix derivatives are the true derivatives in the chosen unit'
PROP = {
    'statement': 'For 1D far-field sources, requesting derivatives returns, besides the same steering matrix, exactly one derivative matrix whose column k is the derivative of steering column k with respect to the k-th source parameter in the unit of the placement (radians, degrees or sine). This holds for 1D, 2D and 3D arrays and with location, gain, phase and coupling errors present, known or unknown, under every perturbation filter. Source types without derivative support refuse the request instead of returning something.',
    'quantifier': {'over': ['inputs', 'configurations'], 'text': 'all arrays, units, wavelengths, perturbation sets and filters'},
    'why_tests_cant': 'Tests compare stored derivative values for one array; scaling by unit, axis and perturbation must hold for all.',
    'anchors': {'files': ['doatools/model/sources.py', 'doatools/model/arrays.py', 'doatools/model/perturbations.py'],
                'mechanism': [{'name': 'DD in phase_delay_matrix', 'where': 'FarField1DSourcePlacement'},
                              {'name': 'DA = A * 1j * DD', 'where': 'ArrayDesign.steering_matrix'}],
                'observe_at': ['steering_matrix(compute_derivatives=True)', 'phase_delay_matrix(derivatives=True)']},
}
RULE = ('Arrays, 1D far-field sources, wavelengths, perturbations and filters are generated; derivatives are compared with '
        'the analytic derivative of the reference model and with a central difference of the library itself. Non-trivial: at least two sensors.')


def ref_deriv(locs, s, wl):
    """d phase / d parameter."""
    x = pad3(locs)
    u = s['unit']
    v = np.array(s['loc'], dtype=float)
    c = 2 * math.pi / wl
    if u == 'sin':
        lin = c * (x[:, [0]] * np.ones_like(v))
        # On the x-axis the phase is linear in the sine, up to and including end-fire.
        return lin if not np.any(x[:, 1]) else lin - c * x[:, [1]] * (v / np.sqrt(1 - v * v))
    q = math.pi / 180 if u == 'deg' else 1.0
    t = v * q
    return c * q * (x[:, [0]] * np.cos(t) - x[:, [1]] * np.sin(t))


def check_deriv(case):
    s, wl, perts, which = case['src'], case['wl'], case['perts'], case['which']
    m = array_size(case['array'])
    a = build_array(case['array'], perts, case['form'])
    locs = apply_ref_perts(perts, m, nominal(case['array'], a), which)
    if case['end'] and (s['unit'] != 'sin' or locs.shape[1] == 1):
        # Exactly end-fire, and the last representable directions before it.
        hi = {'rad': math.pi / 2, 'deg': 90.0, 'sin': 1.0}[s['unit']]
        e = [hi, -hi, np.nextafter(hi, 0), -np.nextafter(hi, 0)][case['end'] % 4]
        s = dict(s, loc=s['loc'][:-1] + [float(e)], int=False)
    rt = 1e-9
    if case['end'] and s['unit'] == 'sin' and locs.shape[1] > 1:
        # A single source almost at end-fire.
        g = 10.0 ** -(2 + case['end'] * 1.1)
        s = dict(s, loc=[(1 - g) * (-1) ** int(case['wl'] * 100)], int=False)
        rt += 1e-14 / g
    src = build_sources(s)
    D, DD = src.phase_delay_matrix(locs, wl, True)
    ap = 1 + np.max(np.abs(locs)) / wl
    E = ref_deriv(locs, s, wl)
    close(D, ref_delays(locs, s, wl), 'phase delays', 1e-11, 1e-10 * ap)
    close(DD, E, 'phase delay derivatives', rt, 1e-10 + (rt * float(np.max(np.abs(E))) if rt > 1e-9 else 0))
    r = a.steering_matrix(src, wl, True, which)
    require(isinstance(r, tuple) and len(r) == 2, 'expected (A, DA), got {} items', len(r))
    A0 = ref_steering(locs, s, wl)
    A = ref_perturb(perts, m, A0, which)
    DA = ref_perturb(perts, m, A0 * (1j * E), which)
    close(r[0], A, 'steering matrix', 0, 1e-9 * ap * 20)
    close(r[1], DA, 'derivative matrix', 1e-8 * ap, 1e-9 + ((rt + 1e-8 * ap) * float(np.max(np.abs(DA))) if rt > 1e-9 else 0))
    close(a.steering_matrix(src, wl, False, which), r[0], 'steering matrix with and without derivatives', 1e-9, 1e-9 * max(1.0, float(np.max(np.abs(r[0]), initial=0))))
    # Central differences of the library's own steering matrix.
    lim = {'rad': math.pi / 2, 'deg': 90.0, 'sin': 1.0}[s['unit']]
    v = np.array(s['loc'])
    if ap < 20 and np.all(np.abs(v) < 0.99 * lim):
        h = 1e-5 * lim
        from doatools.model.sources import FarField1DSourcePlacement as S
        N = (a.steering_matrix(S(v + h, s['unit']), wl, perturbations=which) -
             a.steering_matrix(S(v - h, s['unit']), wl, perturbations=which)) / (2 * h)
        close(r[1], N, 'derivative matrix against central differences', 1e-3 * 1e-1, 1e-3, )
    return '%s/%dD/%s' % (s['unit'], locs.shape[1], which if perts else 'plain') if m > 1 else None


def check_refuse(case):
    a = build_array(case['array'])
    src = build_sources(case['src'])
    locs = nominal(case['array'], a)
    raises((ValueError, NotImplementedError, RuntimeError), lambda: src.phase_delay_matrix(locs, case['wl'], True), 'derivatives of ' + case['src']['type'])
    raises((ValueError, NotImplementedError, RuntimeError), lambda: a.steering_matrix(src, case['wl'], True), 'derivatives of ' + case['src']['type'])
    return case['src']['type']


SUBS = [
    Sub('derivatives', st.fixed_dictionaries({
        'array': any_array(), 'src': far1d(margin=0.01), 'end': rarely(st.just(0), st.integers(1, 4), 6), 'wl': wavelengths, 'perts': pert_list(),
        'which': st.sampled_from(['all', 'known', 'none']), 'form': st.sampled_from(['list', 'dict'])}), check_deriv, 5000),
    Sub('refusal', st.fixed_dictionaries({'array': any_array(), 'src': st.one_of(far2d(), near2d()), 'wl': wavelengths}), check_refuse, 400),
]
