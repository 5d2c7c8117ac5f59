from hypothesis import strategies as st

from ..common import *
from ..core import Sub

ID = 'P10'
TITLE = 'Source placements convert, validate, index and copy faithfully'
PROP = {
    'statement': 'Source placements accept exactly the locations inside the closed range of their unit and refuse everything else, keep order and values, and converting between units preserves the physical directions (round trips included). A scalar index returns that source; a slice, list, index or mask array returns a placement of the same type and unit with exactly the selected sources, whose data are independent of the original; conversions never alias the original either. Integer input behaves like the same real numbers.',
    'quantifier': {'over': ['inputs', 'configurations'], 'text': 'all placement types, units, values including range end points, index forms'},
    'why_tests_cant': 'Tests convert a few angles; aliasing, end points, index forms and round trips need arbitrary inputs.',
    'anchors': {'files': ['doatools/model/sources.py', 'doatools/utils/conversion.py'],
                'mechanism': [{'name': 'validation and copy-on-slice', 'where': 'SourcePlacement.__getitem__, constructors, as_unit'}],
                'observe_at': ['locations', 'units', 'valid_ranges', 'as_unit', '__getitem__', '__len__']},
}
RULE = ('Placements of all types and units, index expressions and out-of-range values are generated. Non-trivial: at least two sources.')


def cls_of(s):
    from doatools.model import sources as S
    return {'far1d': S.FarField1DSourcePlacement, 'far2d': S.FarField2DSourcePlacement,
            'near2d': S.NearField2DSourcePlacement}[s['type']]


def make(s, loc, unit=None):
    c = cls_of(s)
    return c(loc) if s['type'] == 'near2d' else c(loc, unit or s['unit'])


def ranges(s):
    if s['type'] == 'near2d':
        return [(-math.inf, math.inf)] * 2
    h = {'rad': math.pi / 2, 'deg': 90.0, 'sin': 1.0}[s['unit']]
    return [(-h, h)] if s['type'] == 'far1d' else [(-2 * h, 2 * h), (-h, h)]


def check_basic(case):
    s = case['src']
    ref = np.array(s['loc'], dtype=float)
    src = make(s, ref.copy())
    k = len(ref)
    require(len(src) == k and src.size == k, 'size {}', src.size)
    same(src.locations, ref, 'locations')
    close(make(s, s['loc']).locations, ref, 'locations from a list', 0, 0)
    n = 1 if s['type'] == 'far1d' else 2
    require(tuple(src.units) == (s['unit'],) * n, 'units {}', src.units)
    if case['use']:
        # Using the sources does not change them.
        x = np.arange(4.0 * case['use']).reshape((4, case['use'])) / 7
        src.phase_delay_matrix(x, 0.7)
        src.calc_spherical_coords(x)
        if s['type'] != 'near2d':
            src.as_unit('rad')
        same(src.locations, ref, 'locations after use')
        require(src.size == k, 'size after use')
    require(src.is_far_field == (s['type'] != 'near2d'), 'is_far_field')
    close(np.nan_to_num(np.array(src.valid_ranges, dtype=float)), np.nan_to_num(np.array(ranges(s))), 'valid ranges', 1e-15, 0)
    # Indexing.
    f = case['form']
    i = case['i'] % k
    same(src[i], ref[i], 'scalar index')
    same(src[-1 - i], ref[-1 - i], 'negative scalar index')
    same(src[np.int64(i)], ref[i], 'numpy scalar index')
    j = [q % k for q in case['idx']]
    key, exp = {
        'slice': (slice(i, None, 1 + case['i'] % 3), ref[i::1 + case['i'] % 3]),
        'full': (slice(None), ref),
        'reverse': (slice(None, None, -1), ref[::-1]),
        'list': (j, ref[j]),
        'array': (np.array(j, dtype=int), ref[np.array(j, dtype=int)]),
        'neglist': ([q - k for q in j], ref[j]),
        'negarray': (np.array(j, dtype=int) - k, ref[j]),
        'mixed': (np.array([q - k if q % 2 else q for q in j], dtype=np.int32), ref[j]),
        'boollist': ([q in j for q in range(k)], ref[[q in j for q in range(k)]]),
        'mask': (np.array([q in j for q in range(k)]), ref[[q in j for q in range(k)]]),
    }[f]
    sub = src[key]
    require(type(sub) is type(src), 'a {} selection has type {}', f, type(sub))
    require(tuple(sub.units) == tuple(src.units), 'units of the selection')
    same(sub.locations, exp, 'locations selected by ' + f)
    require(sub.size == len(exp), 'size of the selection')
    if sub.size:
        sub.locations[...] = 0.01
        same(src.locations, ref, 'original after writing to a {} selection'.format(f))
    full = src[:]
    src.locations[0] = src.locations[0] * 0.5
    same(full.locations, ref, 'copy after writing to the original')
    return '%s/%s/%s' % (s['type'], s['unit'], f) if k > 1 else None


def to_rad(v, u):
    return np.deg2rad(v) if u == 'deg' else (np.arcsin(v) if u == 'sin' else v)


def check_units(case):
    s = case['src']
    src = build_sources(s)
    ref = src.locations.copy()
    if s['type'] == 'near2d':
        c = src.as_unit('m')
        same(c.locations, ref, 'as_unit(m)')
        c.locations[...] = 1.0
        same(src.locations, ref, 'original after writing to a converted copy')
        raises(ValueError, lambda: src.as_unit('deg'), 'as_unit(deg) of near-field sources')
        return 'near2d' if len(ref) > 1 else None
    us = ['rad', 'deg', 'sin'] if s['type'] == 'far1d' else ['rad', 'deg']
    for u in us:
        c = src.as_unit(u)
        require(type(c) is type(src) and set(c.units) == {u} and len(c.units) == len(src.units), 'units {} of as_unit({})', c.units, u)
        r = to_rad(ref, s['unit'])
        exp = np.rad2deg(r) if u == 'deg' else (np.sin(r) if u == 'sin' else r)
        close(c.locations, exp, 'as_unit({}) from {}'.format(u, s['unit']), 1e-12, 1e-12)
        back = c.as_unit(s['unit'])
        # arcsin amplifies rounding near the end points
        t = 1e-6 if 'sin' in (u, s['unit']) else 1e-12
        close(back.locations, ref, 'round trip {} -> {} -> {}'.format(s['unit'], u, s['unit']), t, t)
        if u == s['unit']:
            same(c.locations, ref, 'conversion to the same unit')
        c.locations[...] = 0.0
        same(src.locations, ref, 'original after writing to a converted copy')
    return '%s/%s' % (s['type'], s['unit']) if len(ref) > 1 else None


def check_range(case):
    s = case['src']
    if s['type'] == 'near2d':
        return None
    ref = np.array(s['loc'], dtype=float)
    rg = ranges(s)
    d = case['axis'] % len(rg)
    i = case['i'] % len(ref)
    for sign in (0, 1):
        v = ref.copy()
        at = (i,) if s['type'] == 'far1d' else (i, d)
        v[at] = rg[d][sign]
        close(make(s, v).locations, v, 'end point {} of the range'.format(rg[d][sign]), 0, 0)
        w = v.copy()
        w[at] = rg[d][sign] + (1 if sign else -1) * (rg[d][1] * case['excess'])
        raises(ValueError, lambda: make(s, w), 'location {} outside of {} ({})'.format(w[at], rg[d], s['unit']))
        raises(ValueError, lambda: make(s, w.tolist()), 'location {} outside of {} ({})'.format(w[at], rg[d], s['unit']))
    bad = 'sin' if s['type'] == 'far2d' else 'grad'
    raises(ValueError, lambda: make(s, ref * 0, bad), 'unit ' + bad)
    if s['type'] == 'far1d':
        raises(ValueError, lambda: make(s, ref.reshape((-1, 1))), '2D array of 1D sources')
    else:
        raises(ValueError, lambda: make(s, ref[:, :1]), 'one-column array of 2D sources')
        raises(ValueError, lambda: make(s, np.hstack((ref, ref[:, :1]))), 'three-column array of 2D sources')
        raises(ValueError, lambda: make(s, ref[:, 0]), 'vector of 2D sources')
    raises((KeyError, TypeError, IndexError, ValueError), lambda: make(s, ref)[{'a': 1}], 'dict index')
    raises(ValueError, lambda: make(s, ref)[np.zeros((1, 1), dtype=int)], '2D index array')
    return '%s/%s' % (s['type'], s['unit'])


def check_int(case):
    """Integer-valued input equals the same input as floats."""
    s = case['src']
    v = np.round(np.array(s['loc'])).astype(int)
    lo = ranges(s)
    vv = v.reshape((len(v), -1))
    for d, (a, b) in enumerate(lo):
        if np.isfinite(a):
            vv[:, d] = np.clip(vv[:, d], math.ceil(a), math.floor(b))
    v = vv.reshape(v.shape)
    f = make(s, v.astype(float))
    for form in (v, v.tolist(), v.astype(np.int16), v.astype(np.int32), v.astype(np.int8) if np.max(np.abs(v)) < 128 else v):
        i = make(s, form)
        close(i.locations, f.locations, 'integer locations', 0, 0)
        # In-place refinement must not truncate.
        c = i[:]
        c.locations[0] = c.locations[0] * 0 + 0.25
        close(np.atleast_1d(c.locations[0]), np.full(np.atleast_1d(c.locations[0]).shape, 0.25), 'fractional value stored in integer-valued sources', 0, 0)
        x = np.array([[0.0, 0.3], [1.0, -0.5], [0.4, 2.0]])
        D = f.phase_delay_matrix(x, 0.7)
        require(isinstance(D, np.ndarray) and D.shape == (3, len(v)), 'phase delays without derivatives: {!r}', type(D))
        for q in (0, 4, 5):
            raises(ValueError, lambda: f.phase_delay_matrix(np.ones((3, q)), 0.7), 'sensor locations with {} coordinates'.format(q))
        close(i.phase_delay_matrix(x, 0.7), f.phase_delay_matrix(x, 0.7), 'phase delays of integer-valued sources', 1e-12)
    return s['type'] if len(v) > 1 else None


def check_z(case):
    """from_z recovers the directions from ideal roots, sorted ascending."""
    from doatools.model.sources import FarField1DSourcePlacement as S
    d = case['d'] * case['wl']
    lim = min(1.0, 0.5 / case['d']) * 0.999
    sn = np.array(case['u']) * lim
    z = np.exp(2j * math.pi * d / case['wl'] * sn) * np.array(case['mag'][:len(sn)])
    keep = z.copy()
    p = S.from_z(z, case['wl'], d, case['unit'])
    same(z, keep, 'roots after from_z')
    t = np.sort(np.arcsin(sn))
    exp = {'rad': t, 'deg': np.rad2deg(t), 'sin': np.sin(t)}[case['unit']]
    require(tuple(p.units) == (case['unit'],), 'units {}', p.units)
    close(p.locations, exp, 'directions from roots', 1e-6, 1e-9)
    return case['unit'] if len(sn) > 1 else None


ss = any_sources(6)
SUBS = [
    Sub('basic', st.fixed_dictionaries({'use': st.integers(0, 3), 'src': ss, 'i': st.integers(0, 20), 'idx': st.lists(st.integers(0, 20), min_size=1, max_size=6),
                                        'form': st.sampled_from(['slice', 'full', 'reverse', 'list', 'array', 'mask', 'boollist', 'neglist', 'negarray', 'mixed'])}), check_basic, 3000),
    Sub('units', st.fixed_dictionaries({'src': ss}), check_units, 2000),
    Sub('range', st.fixed_dictionaries({'src': ss, 'i': st.integers(0, 9), 'axis': st.integers(0, 1), 'excess': logfl(1e-6, 3)}), check_range, 1500),
    Sub('integer', st.fixed_dictionaries({'src': ss}), check_int, 1000),
    Sub('roots', st.fixed_dictionaries({'d': logfl(0.05, 2), 'wl': wavelengths, 'unit': st.sampled_from(['rad', 'deg', 'sin']),
                                        'u': st.lists(fl(-1, 1), min_size=1, max_size=6), 'mag': st.lists(logfl(0.2, 3), min_size=6, max_size=6)}), check_z, 1500),
]
