"""Generators (JSON cases), builders for the library's objects and independent
reference models that several property modules share."""
import math

import numpy as np
from hypothesis import strategies as st

from .core import Skip, Violation

# ---------------------------------------------------------------------------
# comparison helpers


def fail(msg, *args):
    raise Violation(msg.format(*args) if args else msg)


def require(cond, msg, *args):
    if not cond:
        fail(msg, *args)


def close(actual, expected, what, rtol=1e-9, atol=1e-9, scale=None):
    """|actual - expected| <= atol + rtol * scale element-wise, same shape, no NaN
    unless expected NaN. `scale` defaults to max |expected|."""
    a = np.asarray(actual)
    e = np.asarray(expected)
    if a.shape != e.shape:
        fail('{}: shape {} instead of {}', what, a.shape, e.shape)
    if a.size == 0:
        return
    if a.dtype == object or not (np.issubdtype(a.dtype, np.number) or a.dtype == bool):
        fail('{}: unexpected dtype {}', what, a.dtype)
    if not np.all(np.isfinite(e)):
        raise Skip()
    if scale is None:
        scale = float(np.max(np.abs(e)))
    if not np.all(np.isfinite(a)):
        fail('{}: non-finite value in {}', what, _short(a))
    d = np.abs(a.astype(complex) - e.astype(complex))
    tol = atol + rtol * scale
    if not np.all(d <= tol):
        i = np.unravel_index(int(np.argmax(d)), d.shape)
        fail('{}: got {} expected {} at {} (|difference| {:.3g} > {:.3g})',
             what, a[i], e[i], tuple(int(q) for q in i), float(d[i]), tol)


def _short(a):
    s = np.array2string(np.asarray(a), threshold=12)
    return s[:200]


def same(actual, expected, what):
    """Exact equality of arrays."""
    a, e = np.asarray(actual), np.asarray(expected)
    if a.shape != e.shape:
        fail('{}: shape {} instead of {}', what, a.shape, e.shape)
    if not np.array_equal(a, e):
        fail('{}: got {} expected {}', what, _short(a), _short(e))


def raises(exc, fn, what):
    try:
        r = fn()
    except exc:
        return
    except Exception as e:
        fail('{}: raised {} ({}) instead of {}', what, type(e).__name__, e, exc)
    fail('{}: was accepted (returned {})', what, _short(repr(r)))


# ---------------------------------------------------------------------------
# elementary strategies


def fl(lo, hi, n=4000):
    """Floats lo..hi on a fine lattice (no subnormals, nicely shrinking)."""
    return st.integers(0, n).map(lambda i: lo + (hi - lo) * i / n)


def logfl(lo, hi, n=2000):
    a, b = math.log(lo), math.log(hi)
    return st.integers(0, n).map(lambda i: math.exp(a + (b - a) * i / n))


seeds = st.integers(0, 2 ** 31 - 1)
wavelengths = st.one_of(st.just(1.0), logfl(0.05, 20.0))


def p_matrix(p, c):
    """A matrix of which only the diagonal matters: diagonal, real or complex Hermitian."""
    r = rs(c['seed'] + 77)
    kind = r.randint(3)
    M = np.diag(p).astype(float)
    if kind:
        q = r.uniform(-0.4, 0.4, M.shape) * np.sqrt(np.outer(p, p)) / len(p)
        if kind == 2:
            q = q * np.exp(1j * r.uniform(0, 2 * np.pi, q.shape))
        M = M + np.triu(q, 1) + np.triu(q, 1).conj().T
    return M


def rs(seed):
    return np.random.RandomState(seed % (2 ** 31))


def randc(r, *shape):
    return (r.randn(*shape) + 1j * r.randn(*shape)) / math.sqrt(2)


def herm_pd(r, m, cond=0.05):
    """A random Hermitian positive definite matrix."""
    x = randc(r, m, m + 2)
    return x @ x.conj().T / (m + 2) + cond * np.eye(m)


def rarely(a, b, n=8):
    """Mostly from `a`, about every n-th time from `b`."""
    return st.integers(0, n - 1).flatmap(lambda i: b if i == n - 1 else a)


def notable(lo, hi, vals, n=8):
    """Floats lo..hi, now and then exactly one of the notable values."""
    vals = [v for v in vals if lo <= v <= hi]
    return rarely(fl(lo, hi), st.sampled_from(vals), n) if vals else fl(lo, hi)


# How values are handed to the library (the reference always sees the plain values).
STORE = ['plain', 'plain', 'fortran', 'view', 'readonly', 'list', 'reverse']


def given_as(x, form):
    """The same values in another container or memory layout."""
    x = np.asarray(x)
    if form == 'list':
        return x.tolist()
    if form == 'fortran':
        return np.array(x, order='F')
    if form == 'view':
        big = np.full(tuple(2 * n + 1 for n in x.shape), 7, dtype=x.dtype)
        v = big[tuple(slice(1, None, 2) for _ in x.shape)]
        v[...] = x
        return v
    if form == 'reverse':
        return np.array(x[::-1])[::-1]
    x = np.array(x)
    if form == 'readonly':
        x.setflags(write=False)
    return x


# ---------------------------------------------------------------------------
# arrays

# Optimal apertures of minimum redundancy arrays with up to 9 elements.
MRLA_OPTIMAL = {1: 0, 2: 1, 3: 3, 4: 6, 5: 9, 6: 13, 7: 17, 8: 23, 9: 29}
# Apertures of Ishiguro's construction; the optimum can only be larger.
MRLA_AT_LEAST = {10: 35, 11: 41, 12: 49, 13: 57, 14: 65, 15: 73, 16: 83, 17: 93, 18: 103,
                 19: 113, 20: 125}


def mrla_ok(n, aperture):
    if n in MRLA_OPTIMAL:
        return aperture == MRLA_OPTIMAL[n]
    return MRLA_AT_LEAST[n] <= aperture <= n * (n - 1) // 2


def coprime_pairs(mx):
    return [(a, b) for a in range(1, mx + 1) for b in range(a, mx + 1) if math.gcd(a, b) == 1
            and (a < b or a == 1)]


@st.composite
def ulas(draw, max_n=12, min_n=1, d0=None):
    return {'kind': 'ula', 'n': draw(st.integers(min_n, max_n)),
            'd0': draw(d0 if d0 is not None else logfl(0.1, 3.0))}


@st.composite
def sparse1d(draw, d0=None, small=False):
    """Standard sparse linear designs."""
    d0 = draw(d0 if d0 is not None else logfl(0.1, 3.0))
    k = draw(st.sampled_from(['nested', 'coprime', 'mrla']))
    if k == 'nested':
        return {'kind': k, 'n1': draw(st.integers(1, 3 if small else 6)),
                'n2': draw(st.integers(1, 3 if small else 6)), 'd0': d0}
    if k == 'coprime':
        p = draw(st.sampled_from(coprime_pairs(4 if small else 7)))
        if draw(st.integers(0, 3)) == 0:
            p = (p[1], p[0])
        return {'kind': k, 'm': p[0], 'n': p[1], 'd0': d0,
                'mode': draw(st.sampled_from(['2m', 'm', '2M', 'M']))}
    return {'kind': k, 'n': draw(st.integers(1, 7 if small else 20)), 'd0': d0}


@st.composite
def line_grid(draw, idx, d0):
    """1D grid array with the given indices, by spacing or by a (possibly negative) basis vector."""
    s = {'kind': 'grid', 'indices': [[i] for i in idx]}
    if draw(st.integers(0, 2)) == 2:
        s['bases'] = [[draw(d0) * draw(st.sampled_from([1, -1]))]]
    else:
        s['d0'] = draw(d0)
    if draw(st.booleans()):
        s['unnamed'] = True
    return s


def line_step(spec):
    """Signed distance per index of a 1D grid array."""
    return float(spec['bases'][0][0]) if 'bases' in spec else float(np.atleast_1d(spec['d0'])[0])


@st.composite
def grid_arrays(draw, ndim=None, max_m=8):
    """Arbitrary grid-based designs, with d0 (scalar or vector) or bases."""
    d = ndim or draw(st.integers(1, 3))
    m = draw(st.integers(1, max_m))
    idx = draw(st.lists(st.lists(st.integers(-8, 12) if draw(st.integers(0, 5)) else st.integers(-60, 80), min_size=d, max_size=d),
                        min_size=m, max_size=m))
    mode = draw(st.sampled_from(['scalar', 'vector', 'bases']))
    if mode == 'scalar':
        return {'kind': 'grid', 'indices': idx, 'd0': draw(logfl(0.1, 3.0))}
    if mode == 'vector':
        return {'kind': 'grid', 'indices': idx,
                'd0': draw(st.lists(logfl(0.1, 3.0), min_size=d, max_size=d))}
    e = draw(st.integers(d, 3)) if ndim is None else d
    bases = draw(st.lists(st.lists(fl(-2, 2), min_size=e, max_size=e), min_size=d, max_size=d))
    return {'kind': 'grid', 'indices': idx, 'bases': bases}


@st.composite
def generic_arrays(draw, ndim=None, min_m=1, max_m=9, span=3.0):
    d = ndim or draw(st.integers(1, 3))
    m = draw(st.integers(min_m, max_m))
    locs = draw(st.lists(st.lists(fl(-span, span), min_size=d, max_size=d),
                         min_size=m, max_size=m))
    a = {'kind': 'generic', 'locs': locs}
    if d == 1 and draw(st.booleans()):
        a['flat'] = True
    a['store'] = draw(st.sampled_from(STORE))
    return a


@st.composite
def planar(draw, min_m=1):
    k = draw(st.sampled_from(['uca', 'ura']))
    if k == 'uca':
        return {'kind': 'uca', 'n': draw(st.integers(max(1, min_m), 12)), 'r': draw(logfl(0.1, 4.0))}
    d0 = draw(st.one_of(logfl(0.1, 3.0), st.lists(logfl(0.1, 3.0), min_size=2, max_size=2)))
    return {'kind': 'ura', 'm': draw(st.integers(max(1, min(min_m, 2)), 5)),
            'n': draw(st.integers(max(1, min(min_m, 2)), 5)), 'd0': d0}


def big_arrays():
    return st.one_of(ulas(150, 13), st.builds(lambda n, r: {'kind': 'uca', 'n': n, 'r': r}, st.integers(13, 90), logfl(0.1, 4.0)),
                     st.builds(lambda m, n, d: {'kind': 'ura', 'm': m, 'n': n, 'd0': d}, st.integers(4, 13), st.integers(5, 14), logfl(0.1, 3.0)),
                     generic_arrays(min_m=10, max_m=60), int_arrays(1, 20), big_sparse())


@st.composite
def big_sparse(draw, d0=None):
    d0 = draw(d0 if d0 is not None else logfl(0.1, 3.0))
    if draw(st.booleans()):
        return {'kind': 'nested', 'n1': draw(st.integers(4, 25)), 'n2': draw(st.integers(4, 25)), 'd0': d0}
    p = draw(st.sampled_from([q for q in coprime_pairs(17) if q[1] > 7]))
    if draw(st.booleans()):
        p = (p[1], p[0])
    return {'kind': 'coprime', 'm': p[0], 'n': p[1], 'd0': d0, 'mode': draw(st.sampled_from(['2m', 'm', '2M', 'M']))}


@st.composite
def int_arrays(draw, min_m=1, max_m=8):
    """Generic designs with integer-valued locations."""
    d = draw(st.integers(1, 3))
    locs = draw(st.lists(st.lists(st.integers(-6, 9), min_size=d, max_size=d), min_size=min_m, max_size=max_m))
    return {'kind': 'generic', 'locs': locs, 'int': True, 'store': draw(st.sampled_from(STORE))}


def any_array(big=True):
    small = st.one_of(ulas(), sparse1d(), planar(), grid_arrays(), generic_arrays(), int_arrays())
    return rarely(small, big_arrays(), 12) if big else small


PERT_KINDS = ['location_errors', 'gain_errors', 'phase_errors', 'mutual_coupling']


@st.composite
def pert_list(draw, max_n=4, known=None):
    """A list of {'type', 'seed', 'dim', 'known'} in arbitrary order, unique types."""
    kinds = draw(st.lists(st.sampled_from(PERT_KINDS), unique=True, max_size=max_n))
    return [{'type': k, 'seed': draw(st.integers(0, 10 ** 6)), 'dim': draw(st.integers(1, 3)),
             'known': draw(st.booleans()) if known is None else known} for k in kinds]


def ref_indices(spec):
    """Grid indices of a design, computed independently of the library."""
    k = spec['kind']
    if k == 'ula':
        return [[i] for i in range(spec['n'])]
    if k == 'nested':
        n1, n2 = spec['n1'], spec['n2']
        return [[i] for i in range(n1)] + [[(j + 1) * (n1 + 1) - 1] for j in range(n2)]
    if k == 'coprime':
        m, n = sorted((spec['m'], spec['n']))
        t = 2 * m if spec['mode'].lower() == '2m' else m
        return [[i * m] for i in range(n)] + [[j * n] for j in range(1, t)]
    if k == 'ura':
        return [[i, j] for i in range(spec['m']) for j in range(spec['n'])]
    if k == 'grid':
        return [list(r) for r in spec['indices']]
    return None


def ref_locations(spec):
    """Nominal locations (m x d), or None when only the library knows (MRLA)."""
    k = spec['kind']
    if k == 'generic':
        return np.array(spec['locs'], dtype=float)
    if k == 'uca':
        n, r = spec['n'], spec['r']
        t = [2 * math.pi * i / n for i in range(n)]
        return np.array([[r * math.cos(x), r * math.sin(x)] for x in t])
    idx = ref_indices(spec)
    if idx is None:
        return None
    idx = np.array(idx, dtype=float)
    if 'bases' in spec:
        b = np.array(spec['bases'], dtype=float)
        out = np.zeros((idx.shape[0], b.shape[1]))
        for i in range(idx.shape[0]):
            for j in range(idx.shape[1]):
                out[i] += idx[i, j] * b[j]
        return out
    d0 = np.atleast_1d(np.array(spec['d0'], dtype=float))
    return idx * d0


def pert_params(p, m):
    r = rs(p['seed'])
    t = p['type']
    odd = p['seed'] % 12
    if odd == 5:  # integer values
        return {'location_errors': r.randint(-1, 2, (m, p['dim'])), 'gain_errors': r.randint(0, 3, m), 'phase_errors': r.randint(-3, 4, m),
                'mutual_coupling': np.eye(m, dtype=int) + np.triu(r.randint(-1, 2, (m, m)), 1)}[t]
    if odd == 6:  # real coupling, no errors
        return np.eye(m) + 0.3 * r.randn(m, m) / math.sqrt(m) if t == 'mutual_coupling' else np.zeros((m, p['dim']) if t == 'location_errors' else m)
    if odd == 7:  # weak errors
        e = 10.0 ** -r.randint(3, 7)
        return {'location_errors': e * r.uniform(-1, 1, (m, p['dim'])), 'gain_errors': e * r.uniform(-1, 1, m), 'phase_errors': e * r.uniform(-1, 1, m),
                'mutual_coupling': np.eye(m) + e * randc(r, m, m)}[t]
    if odd == 8:  # errors of one sensor, or of one coordinate, or symmetric Toeplitz coupling between neighbours
        if t == 'mutual_coupling':
            c = np.zeros(m, dtype=complex)
            c[:2] = [1.0, 0.3 - 0.2j][:m]
            return np.array([[c[abs(i - j)] for j in range(m)] for i in range(m)])
        x = {'location_errors': np.zeros((m, p['dim'])), 'gain_errors': np.zeros(m), 'phase_errors': np.zeros(m)}[t]
        if t == 'location_errors' and p['seed'] // 12 % 2:
            x[:, r.randint(p['dim'])] = 0.3 * r.uniform(-1, 1, m)
        else:
            x[r.randint(m)] = 0.3
        return x
    if t == 'location_errors':
        return 0.3 * r.uniform(-1, 1, (m, p['dim']))
    if t == 'gain_errors':
        return 0.5 * r.uniform(-1, 1, m)
    if t == 'phase_errors':
        return r.uniform(-3, 3, m)
    return np.eye(m) + 0.3 * randc(r, m, m)


def make_perts(perts, m):
    """List of library perturbation objects."""
    from doatools.model import perturbations as P
    cls = {'location_errors': P.LocationErrors, 'gain_errors': P.GainErrors,
           'phase_errors': P.PhaseErrors, 'mutual_coupling': P.MutualCoupling}
    return [cls[p['type']](pert_given(p, m), *known_args(p)) for p in perts]


def known_args(p):
    """Perturbations are unknown unless stated otherwise."""
    return [known_given(p)] if p['known'] or p['seed'] % 3 else []


def known_given(p):
    """The known flag as handed to the library: a Python bool, a NumPy bool or an integer."""
    return [p['known'], p['known'], p['known'], np.bool_(p['known']), int(p['known'])][p['seed'] // 97 % 5]


def pert_given(p, m):
    """The parameters as handed to the library."""
    return given_as(pert_params(p, m), STORE[p['seed'] // 12 % len(STORE)])


def make_pert_dict(perts, m):
    return {p['type']: (pert_given(p, m), known_given(p)) for p in perts}


def build_array(spec, perts=None, form='list', element=None):
    from doatools.model import arrays as A
    kw = {}
    if element is not None:
        kw['element'] = element
    if perts:
        m = array_size(spec)
        kw['perturbations'] = make_perts(perts, m) if form == 'list' else make_pert_dict(perts, m)
    k = spec['kind']
    if k == 'ula':
        return A.UniformLinearArray(spec['n'], spec['d0'], **kw)
    if k == 'nested':
        return A.NestedArray(spec['n1'], spec['n2'], spec['d0'], **kw)
    if k == 'coprime':
        return A.CoPrimeArray(spec['m'], spec['n'], spec['d0'], spec['mode'], **kw)
    if k == 'mrla':
        return A.MinimumRedundancyLinearArray(spec['n'], spec['d0'], **kw)
    if k == 'uca':
        return A.UniformCircularArray(spec['n'], spec['r'], **kw)
    if k == 'ura':
        return A.UniformRectangularArray(spec['m'], spec['n'], spec['d0'], **kw)
    if k == 'grid':
        idx = np.array(spec['indices'])
        if 'bases' in spec:
            if not spec.get('unnamed'):
                kw['name'] = 'g'
            return A.GridBasedArrayDesign(idx, bases=np.array(spec['bases'], dtype=float), **kw)
        if spec.get('unnamed'):
            return A.GridBasedArrayDesign(idx, spec['d0'], **kw)
        return A.GridBasedArrayDesign(idx, spec['d0'], 'g', **kw)
    locs = spec['locs']
    if spec.get('flat'):
        locs = [r[0] for r in locs]
    locs = given_as(np.array(locs, dtype=None if spec.get('int') else float), spec.get('store', 'plain'))
    return A.ArrayDesign(locs, 'generic', **kw)


def array_size(spec):
    k = spec['kind']
    if k in ('ula', 'mrla', 'uca'):
        return spec['n']
    if k == 'nested':
        return spec['n1'] + spec['n2']
    if k == 'coprime':
        m, n = sorted((spec['m'], spec['n']))
        return n + (2 * m if spec['mode'].lower() == '2m' else m) - 1
    if k == 'ura':
        return spec['m'] * spec['n']
    return len(spec['indices'] if k == 'grid' else spec['locs'])


def nominal(spec, array):
    """Reference nominal locations; for MRLA presets the table itself is used
    (its geometric guarantees are the subject of another property)."""
    r = ref_locations(spec)
    return np.array(array.element_locations, dtype=float) if r is None else r


def pad3(x):
    x = np.asarray(x, dtype=float)
    return np.hstack((x, np.zeros((x.shape[0], 3 - x.shape[1]))))


# ---------------------------------------------------------------------------
# sources


def unit_angles(hi, unit):
    """Angles (or sines) within +-hi, now and then at notable ones."""
    q = {'rad': math.pi / 180, 'deg': 1.0, 'sin': 1.0}[unit]
    vals = [0.0, hi, -hi] + ([0.5, -0.5, 0.25, 1.0, -1.0] if unit == 'sin' else [v * q for v in (30, -30, 45, 60, -60, 1, 15, -45, 90, -90, 10)])
    return notable(-hi, hi, vals)


@st.composite
def finish(draw, s, max_k, elem, hi):
    """Occasionally many sources (up to +-hi), repeated sources, integer values, another container."""
    if max_k >= 5 and draw(st.integers(0, 15)) == 15:
        s['loc'] = draw(st.lists(elem, min_size=max_k + 1, max_size=2 * max_k + 3))
        if draw(st.integers(0, 3)) == 3:
            n = draw(st.sampled_from([40, 150, 1100]))
            x = rs(draw(seeds)).uniform(-1, 1, (n, len(hi))) * np.array(hi)
            s['loc'] = (x[:, 0] if s['type'] == 'far1d' else x).tolist()
    if len(s['loc']) > 1 and draw(st.integers(0, 11)) == 11:
        s['loc'][-1] = s['loc'][0]
    if draw(st.integers(0, 7)) == 7:
        s['loc'] = np.trunc(np.array(s['loc'])).astype(int).tolist()
        s['int'] = True
    s['store'] = draw(st.sampled_from(STORE))
    return s


@st.composite
def far1d(draw, min_k=1, max_k=5, units=('rad', 'deg', 'sin'), margin=0.0):
    unit = draw(st.sampled_from(list(units)))
    hi = {'rad': math.pi / 2, 'deg': 90.0, 'sin': 1.0}[unit] * (1 - margin)
    k = draw(st.integers(min_k, max_k))
    elem = unit_angles(hi, unit)
    loc = draw(st.lists(elem, min_size=k, max_size=k))
    return draw(finish({'type': 'far1d', 'unit': unit, 'loc': loc}, max_k, elem, [hi]))


@st.composite
def far2d(draw, min_k=1, max_k=5):
    unit = draw(st.sampled_from(['rad', 'deg']))
    c = 1.0 if unit == 'rad' else 180 / math.pi
    k = draw(st.integers(min_k, max_k))
    hi = math.pi * c
    elem = st.tuples(unit_angles(hi, unit), unit_angles(hi / 2, unit)).map(list)
    loc = draw(st.lists(elem, min_size=k, max_size=k))
    return draw(finish({'type': 'far2d', 'unit': unit, 'loc': loc}, max_k, elem, [hi, hi / 2]))


@st.composite
def near2d(draw, min_k=1, max_k=5, span=30.0):
    k = draw(st.integers(min_k, max_k))
    elem = st.tuples(notable(-span, span, [0.0, 1.0, -10.0]), notable(-span, span, [0.0, 2.0, 10.0])).map(list)
    loc = draw(st.lists(elem, min_size=k, max_size=k))
    return draw(finish({'type': 'near2d', 'unit': 'm', 'loc': loc}, max_k, elem, [span, span]))


def any_sources(max_k=5):
    return st.one_of(far1d(max_k=max_k), far2d(max_k=max_k), near2d(max_k=max_k))


def build_sources(s):
    from doatools.model import sources as S
    loc = np.array(s['loc'], dtype=float)
    if s.get('int') and np.array_equal(loc, np.trunc(loc)):
        loc = loc.astype([np.int64, np.int32, np.int16][int(np.abs(loc).sum()) % 3])
    if s['type'] != 'far1d':
        loc = loc.reshape((-1, 2))
    loc = given_as(loc, s.get('store', 'plain') if loc.size else 'plain')
    if s['type'] == 'far1d':
        return S.FarField1DSourcePlacement(loc, s['unit'])
    if s['type'] == 'far2d':
        return S.FarField2DSourcePlacement(loc, s['unit'])
    return S.NearField2DSourcePlacement(loc)


def direction_vectors(s):
    """3 x K unit vectors pointing from the origin to far-field sources."""
    loc = np.array(s['loc'], dtype=float)
    u = s['unit']
    if s['type'] == 'far1d':
        if u == 'sin':
            sn = loc
            cs = np.sqrt(np.maximum(0.0, (1 - sn) * (1 + sn)))
        else:
            t = loc * (math.pi / 180 if u == 'deg' else 1.0)
            sn, cs = np.sin(t), np.cos(t)
        return np.vstack((sn, cs, np.zeros_like(sn)))
    t = loc.reshape((-1, 2)) * (math.pi / 180 if u == 'deg' else 1.0)
    az, el = t[:, 0], t[:, 1]
    return np.vstack((np.cos(el) * np.cos(az), np.cos(el) * np.sin(az), np.sin(el)))


def ref_delays(locs, s, wavelength):
    """Reference phase delays: m x K, from first principles."""
    x = pad3(locs)
    k2 = 2 * math.pi / wavelength
    if s['type'] == 'near2d':
        p = pad3(np.array(s['loc'], dtype=float).reshape((-1, 2)))
        d = np.array([[math.dist(x[i], p[j]) for j in range(p.shape[0])] for i in range(x.shape[0])])
        return -k2 * (d - d[0])
    return k2 * (x @ direction_vectors(s))


def ref_steering(locs, s, wavelength):
    return np.exp(1j * ref_delays(locs, s, wavelength))


def apply_ref_perts(perts, m, locs, which):
    """Reference treatment of location errors under the filter `which`."""
    locs = np.asarray(locs, dtype=float)
    for p in perts:
        if p['type'] == 'location_errors' and (which == 'all' or (which == 'known' and p['known'])):
            e = pert_params(p, m)
            d = max(e.shape[1], locs.shape[1])
            out = np.zeros((m, d))
            out[:, :locs.shape[1]] += locs
            out[:, :e.shape[1]] += e
            locs = out
    return locs


def ref_perturb(perts, m, A, which):
    """gain/phase/coupling in list order."""
    for p in perts:
        if which == 'none' or (which == 'known' and not p['known']):
            continue
        v = pert_params(p, m)
        if p['type'] == 'gain_errors':
            A = (1 + v)[:, None] * A
        elif p['type'] == 'phase_errors':
            A = (np.cos(v) + 1j * np.sin(v))[:, None] * A
        elif p['type'] == 'mutual_coupling':
            A = v @ A
    return A


def separated(draw, k, lo, hi, gap):
    """k increasing values in [lo, hi] with pairwise gaps >= gap (constructed)."""
    room = (hi - lo) - gap * (k - 1)
    if room < 0:
        raise ValueError('no room')
    w = draw(st.lists(st.integers(0, 1000), min_size=k, max_size=k))
    cuts = sorted(w)
    return [lo + room * c / 1000.0 + gap * i for i, c in enumerate(cuts)]
