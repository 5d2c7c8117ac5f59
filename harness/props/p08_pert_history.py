from hypothesis import strategies as st

from ..common import *
from ..core import Sub

ID = 'P08'
TITLE = 'Perturbed copies and originals never affect each other'
PROP = {
    'statement': 'Over any sequence of creating perturbed copies, perturbation-free copies and querying, each array keeps exactly the imperfections it was given: a perturbed copy has the union of the existing and the new ones with new ones replacing those of the same type, a perturbation-free copy has none, and no operation changes any array created earlier. Inapplicable or duplicate imperfections are rejected without side effects. Reported flags, parameters, names, types and design-specific attributes agree with that history, and so does the steering matrix.',
    'quantifier': {'over': ['histories', 'inputs'], 'text': 'all operation sequences over a pool of arrays derived from each other'},
    'why_tests_cant': 'Tests make one perturbed and one free copy of one array; isolation is a property of arbitrary derivation histories.',
    'anchors': {'files': ['doatools/model/arrays.py', 'doatools/model/perturbations.py'],
                'state': [{'name': 'perturbation table', 'meaning': 'imperfections by type', 'where': 'ArrayDesign'}],
                'mechanism': [{'name': 'copy-on-derive', 'where': 'ArrayDesign.get_perturbed_copy / get_perturbation_free_copy'}],
                'observe_at': ['perturbations', 'has_perturbation', 'is_perturbation_known', 'get_perturbation_params', 'steering_matrix']},
}
RULE = ('Histories of up to 10 derive/query operations on a pool of arrays are generated and replayed against a dictionary model; all '
        'arrays are re-examined after every step. Non-trivial: at least two successful derivations.')
TECHNIQUE = 'model-based (stateful) property testing: generated operation histories against a dictionary model'


def classes():
    from doatools.model import perturbations as P
    return {'location_errors': P.LocationErrors, 'gain_errors': P.GainErrors,
            'phase_errors': P.PhaseErrors, 'mutual_coupling': P.MutualCoupling}


def examine(entry, src, ssrc, wl):
    a, spec, perts, name, nom = entry
    m = a.size
    cls = classes()
    require(a.name == name, 'name {!r} instead of {!r}', a.name, name)
    require(a.is_perturbed == bool(perts), 'is_perturbed = {}', a.is_perturbed)
    got = a.perturbations
    require(sorted(type(p).__name__ for p in got) == sorted(cls[p['type']].__name__ for p in perts),
            'perturbations {} instead of {}', [type(p).__name__ for p in got], [p['type'] for p in perts])
    have = {p['type']: p for p in perts}
    for t, c in cls.items():
        require(a.has_perturbation(c) == (t in have), 'has_perturbation({}) = {}', t, a.has_perturbation(c))
        if t in have:
            require(a.is_perturbation_known(c) == have[t]['known'], 'known flag of {}', t)
            close(a.get_perturbation_params(c), pert_params(have[t], m), 'parameters of ' + t, 0, 0)
    close(a.element_locations, nom, 'nominal locations', 1e-12, 1e-12)
    close(a.actual_element_locations, apply_ref_perts(perts, m, nom, 'all'), 'actual locations', 1e-12, 1e-12)
    for which in ('all', 'known', 'none'):
        locs = apply_ref_perts(perts, m, nom, which)
        close(a.steering_matrix(src, wl, perturbations=which), ref_perturb(perts, m, ref_steering(locs, ssrc, wl), which),
              'steering matrix ({})'.format(which), 0, 1e-7)
    k = spec['kind']
    if k in ('ula', 'ura', 'nested', 'coprime'):
        same(a.element_indices, np.array(ref_indices(spec)), 'element_indices')
    if k == 'uca':
        require(a.radius == spec['r'], 'radius')


def check_history(case):
    ssrc = {'type': 'far1d', 'unit': 'rad', 'loc': [0.3, -0.9]}
    src = build_sources(ssrc)
    wl = 1.0
    pool = []
    for spec in case['arrays']:
        a = build_array(spec)
        pool.append((a, spec, [], a.name, nominal(spec, a)))
    cls = classes()
    derived = 0
    for op in case['ops']:
        i = op['i'] % len(pool)
        a, spec, perts, name, nom = pool[i]
        m = a.size
        if op['op'] == 'perturb':
            new = op['perts']
            arg = make_perts(new, m) if op['form'] == 'list' else make_pert_dict(new, m)
            kw = {'new_name': op['name']} if op['name'] is not None else {}
            b = a.get_perturbed_copy(arg, **kw)
            arg.clear()  # the caller's container is not kept
            merged = {p['type']: p for p in perts}
            for p in new:
                merged[p['type']] = p
            require(type(b) is type(a) and b is not a, 'copy has type {}', type(b))
            pool.append((b, spec, list(merged.values()), name if op['name'] is None else op['name'], nom))
            derived += 1
        elif op['op'] == 'free':
            kw = {'new_name': op['name']} if op['name'] is not None else {}
            b = a.get_perturbation_free_copy(**kw)
            require(type(b) is type(a) and b is not a, 'copy has type {}', type(b))
            pool.append((b, spec, [], name if op['name'] is None else op['name'], nom))
            derived += 1
        elif op['op'] == 'bad':
            wrong = {'type': op['kind'], 'seed': op['seed'], 'dim': 1, 'known': True}
            p = make_perts([wrong], m + 1)
            raises(RuntimeError, lambda: a.get_perturbed_copy(p), 'inapplicable ' + op['kind'])
            raises(RuntimeError, lambda: type(a) and build_array(spec, None) and _new(spec, make_perts([wrong], m + 1)), 'inapplicable ' + op['kind'])
            dup = make_perts([wrong, dict(wrong, seed=wrong['seed'] + 1)], m)
            raises(RuntimeError, lambda: _new(spec, dup), 'duplicate ' + op['kind'])
        elif op['op'] == 'edit':
            # Handed-out containers are not the internal ones.
            lst = a.perturbations
            lst.clear()
            e = a.element_locations
            e += 1.0
            e = a.actual_element_locations
            e += 1.0
            if isinstance(a.element_locations, np.ndarray) and hasattr(a, 'element_indices'):
                e = a.element_indices
                e += 1
        for entry in pool:
            examine(entry, src, ssrc, wl)
    return 'derived%d' % min(derived, 6) if derived >= 2 else None


def _new(spec, perts):
    from doatools.model.arrays import ArrayDesign
    a = build_array(spec)
    return ArrayDesign(a.element_locations, 'n', perts)


@st.composite
def op(draw):
    k = draw(st.sampled_from(['perturb', 'perturb', 'perturb', 'free', 'bad', 'edit']))
    o = {'op': k, 'i': draw(st.integers(0, 20))}
    if k in ('perturb', 'free'):
        o['name'] = draw(st.sampled_from([None, None, 'a', 'b', '']))
    if k == 'perturb':
        o['perts'] = draw(pert_list())
        o['form'] = draw(st.sampled_from(['list', 'dict']))
    if k == 'bad':
        o['kind'] = draw(st.sampled_from(PERT_KINDS))
        o['seed'] = draw(st.integers(0, 1000))
    return o


SUBS = [Sub('history', st.fixed_dictionaries({
    'arrays': st.lists(st.one_of(ulas(6), planar(), sparse1d(small=True), generic_arrays(max_m=5)), min_size=1, max_size=2),
    'ops': st.lists(op(), min_size=1, max_size=10)}), check_history, 1600)]
