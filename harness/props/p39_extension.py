from hypothesis import strategies as st

from ..common import *
from ..core import Sub

ID = 'P39'
TITLE = 'User-defined perturbations, sensors, sources and estimators integrate'
PROP = {
    'statement': 'The documented extension points work for any conforming user-defined subclass. A custom array imperfection that overrides any subset of the hooks is accepted by default (refused with its own message when it says it is not applicable), is keyed by its class, moves the sensors and transforms the steering matrix and its derivatives together with the built-in ones, and obeys the known/unknown filter. Custom sensors are applied exactly when they are not both isotropic and scalar. Arrays accept any source placement through its phase delays. A custom spectrum-based estimator inherits peak picking, caching, refinement and a replaceable peak finder.',
    'quantifier': {'over': ['inputs', 'configurations'], 'text': 'all combinations of overridden hooks, built-in imperfections, filters, sensors, sources, spectra and peak finders'},
    'why_tests_cant': 'No test defines a subclass; the base classes carry default behaviour that only matters to user code.',
    'anchors': {'files': ['doatools/model/perturbations.py', 'doatools/model/arrays.py', 'doatools/model/array_elements.py', 'doatools/model/sources.py', 'doatools/estimation/core.py'],
                'mechanism': [{'name': 'extension hooks', 'where': 'ArrayPerturbation, ArrayElement, SourcePlacement, SpectrumBasedEstimatorBase'}],
                'observe_at': ['steering_matrix', 'actual_element_locations', 'perturbations', 'estimate']},
}
RULE = ('Subsets of hooks, parameters, combinations with built-in imperfections, sensors, sources and peak finders are generated; outputs are compared with models '
        'built from the hooks themselves. Non-trivial: at least two sensors (or grid points) and at least one overridden hook.')


def make_custom(hooks, shift, gain, known, limit):
    """A perturbation class overriding the given hooks, and one instance."""
    from doatools.model.perturbations import ArrayPerturbation
    body = {}
    if 'move' in hooks:
        def move(self, locations):
            out = np.zeros((locations.shape[0], max(locations.shape[1], len(shift))))
            out[:, :locations.shape[1]] += locations
            out[:, :len(shift)] += np.array(shift)
            return out
        body['perturb_sensor_locations'] = move
    if 'scale' in hooks:
        body['perturb_steering_matrix'] = lambda self, A, DA: (gain * A, [gain * X for X in DA])
    if 'limit' in hooks:
        body['is_applicable_to'] = lambda self, array: (array.size <= limit, 'at most {} sensors'.format(limit))
    cls = type('Custom', (ArrayPerturbation,), body)
    return cls, (cls('the parameters', known) if known is not None else cls('the parameters'))


def check_pert(c):
    from doatools.model.arrays import ArrayDesign
    s = c['src']
    src = build_sources(s)
    gain = c['gain'][0] + 1j * c['gain'][1]
    cls, p = make_custom(c['hooks'], c['shift'], gain, c['known'], c['limit'])
    cls2, p2 = make_custom(c['hooks2'], c['shift'][:1], 2.0, True, 99)
    built = [q for q in c['perts'] if q['type'] != 'mutual_coupling']  # the others commute with the custom ones
    plain = build_array(c['array'])
    nom = nominal(c['array'], plain)
    m = plain.size
    lst = make_perts(built, m)
    at = c['at'] % (len(lst) + 1)
    lst[at:at] = [p]
    two = c['two']
    if two:
        lst.append(p2)
    if 'limit' in c['hooks'] and m > c['limit']:
        try:
            plain.get_perturbed_copy(lst)
        except RuntimeError as e:
            require('at most {} sensors'.format(c['limit']) in str(e), 'reason {!r}', str(e))
        else:
            fail('an inapplicable perturbation was accepted')
        raises(RuntimeError, lambda: ArrayDesign(nom, 'x', lst), 'inapplicable custom perturbation')
        require(not plain.is_perturbed, 'rejected perturbation was added')
        return 'refused'
    how = c['how']
    if how == 'init':
        a = ArrayDesign(plain.element_locations, 'x', lst)
    elif how == 'copy':
        a = plain.get_perturbed_copy(lst)
    else:
        a = plain
        for q in lst:
            a = a.get_perturbed_copy([q])
    require(not plain.is_perturbed, 'the original array changed')
    known = bool(c['known'])
    require(a.has_perturbation(cls) and a.get_perturbation_params(cls) == 'the parameters' and a.is_perturbation_known(cls) == known, 'custom perturbation is not reported')
    require(a.has_perturbation(cls2) == two, 'second custom perturbation')
    require(len(a.perturbations) == len(lst), '{} perturbations instead of {}', len(a.perturbations), len(lst))
    for which in ('all', 'known', 'none'):
        use = [q for q in built if which == 'all' or (which == 'known' and q['known'])]
        x = apply_ref_perts(use, m, nom, 'all')
        g = 1.0
        mine = [(c['hooks'], c['shift'], gain, known)] + ([(c['hooks2'], c['shift'][:1], 2.0, True)] if two else [])
        for hooks, shift, ga, kn in mine:
            if which == 'none' or (which == 'known' and not kn):
                continue
            if 'move' in hooks:
                y = np.zeros((m, max(x.shape[1], len(shift))))
                y[:, :x.shape[1]] += x
                y[:, :len(shift)] += np.array(shift)
                x = y
            if 'scale' in hooks:
                g = g * ga
        E = g * ref_perturb(use, m, ref_steering(x, s, c['wl']), 'all')
        sc = (1 + np.max(np.abs(x)) / c['wl'] + (60 / c['wl'] if s['type'] == 'near2d' else 0)) * max(1, abs(g))
        A = a.steering_matrix(src, c['wl'], perturbations=which)
        close(A, E, 'steering matrix ({})'.format(which), 0, 1e-7 * sc)
        if which == 'all':
            close(a.actual_element_locations, x, 'actual locations', 1e-12, 1e-12)
            require(a.actual_ndim == x.shape[1], 'actual_ndim')
        if s['type'] == 'far1d':
            B = a.steering_matrix(src, c['wl'], True, which)
            F = ArrayDesign(x, 'moved').steering_matrix(src, c['wl'], True)
            gg = ref_perturb(use, m, np.ones((m, len(s['loc'])), dtype=complex), 'all') * g
            close(B[0], A, 'steering matrix with derivatives', 0, 1e-12 * sc)
            require(len(B) == len(F), '{} derivative matrices', len(B) - 1)
            fin = np.all(np.isfinite(F[1]))
            if fin:
                close(B[1], F[1] * gg, 'derivative matrix ({})'.format(which), 1e-9, 1e-7 * sc)
    free = a.get_perturbation_free_copy()
    require(not free.is_perturbed and not free.has_perturbation(cls), 'perturbation-free copy')
    return '+'.join(sorted(c['hooks'])) or 'inert' if m > 1 else None


def check_element(c):
    from doatools.model.array_elements import ArrayElement
    L, iso = c['L'], c['iso']
    w = rs(c['seed'])
    coef = randc(w, L)

    class Elem(ArrayElement):
        output_size = property(lambda self: L)
        is_isotropic = property(lambda self: iso)
        is_polarized = property(lambda self: False)

        def _calc_spatial_response(self, r, az, el, polarization):
            x = [q * (2.0 if iso else 1 + 0.5 * np.cos(az)) * np.ones(np.shape(az)) for q in coef]
            return x[0] if L == 1 else np.stack(x)

    e = Elem()
    require(e.is_scalar == (L == 1), 'is_scalar')
    s = c['src']
    src = build_sources(s)
    a = build_array(c['array'], element=e)
    m = a.size
    require(a.element is e and a.output_size == m * L, 'element')
    A0 = ref_steering(nominal(c['array'], a), s, c['wl'])
    A = a.steering_matrix(src, c['wl'])
    sc = 1 + np.max(np.abs(a.element_locations)) / c['wl']
    if L == 1 and iso:
        # Isotropic scalar sensors have no response of their own.
        close(A, A0, 'steering matrix of isotropic scalar sensors', 0, 1e-7 * sc)
        if s['type'] == 'far1d':
            B = a.steering_matrix(src, c['wl'], True)
            close(B[0], A0, 'steering matrix of isotropic scalar sensors', 0, 1e-7 * sc)
    else:
        d = direction_vectors(s)
        az = np.arctan2(d[1], d[0])
        g = np.array([q * (2.0 if iso else 1 + 0.5 * np.cos(az)) * np.ones(az.shape) for q in coef])
        E = np.concatenate([g[i][None, :] * A0 for i in range(L)])
        close(A, E, 'steering matrix of custom sensors', 0, 1e-6 * sc)
        raises(RuntimeError, lambda: a.steering_matrix(src, c['wl'], True), 'derivatives')
    return 'L%d/%s' % (min(L, 2), 'iso' if iso else 'dir') if m > 1 else None


def check_sources(c):
    from doatools.model.sources import SourcePlacement
    from doatools.model.arrays import ArrayDesign
    k = c['k']
    w = rs(c['seed'])
    cf = w.randn(3, k)

    class Mine(SourcePlacement):
        is_far_field = property(lambda self: True)
        valid_ranges = property(lambda self: ((-9, 9),))

        def as_unit(self, new_unit):
            return self

        def calc_spherical_coords(self, ref_locations):
            return (np.zeros((1, k)),) * 3

        def phase_delay_matrix(self, sensor_locations, wavelength, derivatives=False):
            x = pad3(sensor_locations)
            T = x @ cf / wavelength
            return (T, T ** 2, T + 1) if derivatives else T

    src = Mine(np.zeros(k), ('x',))
    require(src.size == k and len(src) == k and src.units == ('x',), 'custom source placement')
    perts = [p for p in c['perts'] if p['type'] != 'mutual_coupling'] if c['diag'] else c['perts']
    a = build_array(c['array'], perts)
    m = a.size
    x = apply_ref_perts(perts, m, nominal(c['array'], a), 'all')
    T = pad3(x) @ cf / c['wl']
    close(a.steering_matrix(src, c['wl']), ref_perturb(perts, m, np.exp(1j * T), 'all'), 'steering matrix', 0, 1e-8 * (1 + np.max(np.abs(T))))
    B = a.steering_matrix(src, c['wl'], compute_derivatives=True)
    require(len(B) == 3, '{} outputs instead of a steering matrix and two derivatives', len(B))
    for got, D in zip(B[1:], (T ** 2, T + 1)):
        close(got, ref_perturb(perts, m, 1j * D * np.exp(1j * T), 'all'), 'derivative matrix', 1e-9, 1e-8 * (1 + np.max(np.abs(T))))
    return 'custom sources' if m > 1 else None


def check_estimator(c):
    """A user-defined spectrum and peak finder on an arbitrary grid."""
    from doatools.estimation.core import SpectrumBasedEstimatorBase
    from doatools.estimation.grid import FarField1DSearchGrid, FarField2DSearchGrid
    n, n2 = c['n'], c['n2']
    w = rs(c['seed'])
    two = c['two']
    g = FarField2DSearchGrid((-1.0, 0.1), (1.0, 1.2), (n, n2)) if two else FarField1DSearchGrid(-1.4, 1.4, n)
    N = n * n2 if two else n
    table = w.permutation(N).astype(float)  # distinct values
    picks = sorted(w.choice(N, size=min(N, c['n_picks']), replace=False).tolist()) if c['n_picks'] else []
    calls = []

    class Est(SpectrumBasedEstimatorBase):
        def estimate(self, R, k, **kw):
            def f(A):
                calls.append(A)
                return table.copy()
            return self._estimate(f, k, **kw)

    def finder(sp):
        require(sp.shape == g.shape, 'peak finder was given a spectrum of shape {}', sp.shape)
        require(np.array_equal(sp.ravel(), table), 'peak finder was given another spectrum')
        return tuple(np.array(q, dtype=int) for q in np.unravel_index(np.array(picks, dtype=int), g.shape))

    a = build_array(c['array'])
    e = Est(a, 1.0, g, peak_finder=finder, enable_caching=c['cache'])
    k = c['k']
    for rep in range(2):
        r = e.estimate(None, k, return_spectrum=c['sp'])
        if c['sp']:
            require(np.array_equal(r[2], table.reshape(g.shape)), 'returned spectrum')
        if len(picks) < k:
            require(r[0] is False or r[0] == False, 'resolved with {} peaks for {} sources', len(picks), k)
            require(r[1] is None, 'unresolved estimates {}', r[1])
        else:
            require(r[0], 'unresolved with {} peaks for {} sources', len(picks), k)
            best = sorted(sorted(picks, key=lambda i: -table[i])[:k])
            same(r[1].locations, g.source_placement.locations[best], 'the {} highest custom peaks'.format(k))
    A = a.steering_matrix(g.source_placement, 1.0)
    for q in calls:
        close(q, A, 'atom matrix', 1e-12, 1e-12)
    return '%dD/%s' % (2 if two else 1, 'resolved' if len(picks) >= k else 'unresolved')


def check_derived(c):
    """Classes derived from the built-in imperfections are keyed by their own class."""
    from doatools.model.arrays import ArrayDesign
    from doatools.model import perturbations as P
    base = {'location_errors': P.LocationErrors, 'gain_errors': P.GainErrors, 'phase_errors': P.PhaseErrors, 'mutual_coupling': P.MutualCoupling}
    plain = build_array(c['array'])
    m = plain.size
    nom = nominal(c['array'], plain)
    derived = {p['type']: type('Measured' + base[p['type']].__name__, (base[p['type']],), {'source': 'calibration'}) for p in c['perts']}
    lst = [derived[p['type']](pert_params(p, m), p['known']) for p in c['perts']]
    a = plain.get_perturbed_copy(lst)
    s = c['src']
    for p, o in zip(c['perts'], lst):
        cls = derived[p['type']]
        require(a.has_perturbation(cls), 'has_perturbation of a derived class')
        require(bool(a.is_perturbation_known(cls)) == p['known'], 'known flag of a derived class')
        same(np.array(a.get_perturbation_params(cls)), pert_params(p, m), 'parameters of a derived class')
    for which in ('all', 'known', 'none'):
        x = apply_ref_perts(c['perts'], m, nom, which)
        sc = 1 + np.max(np.abs(x)) / c['wl'] + (60 / c['wl'] if s['type'] == 'near2d' else 0)
        close(a.steering_matrix(build_sources(s), c['wl'], perturbations=which), ref_perturb(c['perts'], m, ref_steering(x, s, c['wl']), which), 'steering matrix ({})'.format(which), 0, 1e-8 * sc)
    if lst:
        # Replaced by another instance of the same class; two of the same class are refused.
        p = dict(c['perts'][0], seed=c['perts'][0]['seed'] + 1)
        new = derived[p['type']](pert_params(p, m), p['known'])
        b = a.get_perturbed_copy([new])
        require(len(b.perturbations) == len(lst) and any(q is new for q in b.perturbations), 'derived imperfection was not replaced')
        raises(RuntimeError, lambda: ArrayDesign(nom, 'x', lst + [new]), 'two imperfections of the same derived class')
    return 'derived/%d' % len(lst) if lst and m > 1 else None


small = st.one_of(ulas(6), planar(), sparse1d(small=True), generic_arrays(max_m=6))
hooks = st.lists(st.sampled_from(['move', 'scale', 'limit']), unique=True, max_size=3)
SUBS = [
    Sub('perturbation', st.fixed_dictionaries({'array': small, 'src': any_sources(3), 'wl': logfl(0.2, 10), 'hooks': hooks, 'hooks2': hooks, 'two': st.booleans(),
                                               'perts': st.one_of(st.just([]), pert_list()), 'shift': st.lists(fl(-1, 1), min_size=1, max_size=3),
                                               'gain': st.tuples(fl(0.2, 2), fl(-1, 1)).map(list), 'known': st.sampled_from([None, True, False]),
                                               'limit': st.integers(1, 12), 'at': st.integers(0, 4), 'how': st.sampled_from(['init', 'copy', 'chain'])}), check_pert, 2500),
    Sub('derived', st.fixed_dictionaries({'array': small, 'src': any_sources(3), 'wl': logfl(0.2, 10), 'perts': pert_list()}), check_derived, 800),
    Sub('element', st.fixed_dictionaries({'array': small, 'src': st.one_of(far1d(max_k=3, margin=0.01), far2d(max_k=3)), 'wl': logfl(0.2, 10), 'L': st.integers(1, 3),
                                          'iso': st.booleans(), 'seed': seeds}), check_element, 1200),
    Sub('sources', st.fixed_dictionaries({'array': small, 'perts': pert_list(), 'diag': st.booleans(), 'k': st.integers(1, 4), 'seed': seeds, 'wl': logfl(0.2, 10)}), check_sources, 1200),
    Sub('estimator', st.fixed_dictionaries({'array': ulas(5), 'n': st.integers(2, 12), 'n2': st.integers(2, 8), 'two': st.booleans(), 'seed': seeds, 'n_picks': st.integers(0, 8),
                                            'k': st.integers(1, 5), 'cache': st.booleans(), 'sp': st.booleans()}), check_estimator, 1200),
]
