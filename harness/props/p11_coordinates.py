from hypothesis import strategies as st

from ..common import *
from ..core import Sub

ID = 'P11'
TITLE = 'Source coordinate and phase conversions invert each other and agree'
PROP = {
    'statement': 'Cartesian-to-spherical conversion returns (range, azimuth, elevation) that reproduce the point for 1D, 2D and 3D coordinates; azimuth/elevation pairs convert to the broadside angle between the direction and the plane orthogonal to the x-axis; angle conversions are mutually inverse. The spherical coordinates of a source relative to each reference location reproduce the vector from that location to the source for near-field sources, and the pure direction at infinite range for far-field sources.',
    'quantifier': {'over': ['inputs'], 'text': 'all points, directions, units, dimensions of the reference locations'},
    'why_tests_cant': 'Tests check a few axis-aligned points; quadrants, signs, padding and per-location offsets need arbitrary inputs.',
    'anchors': {'files': ['doatools/utils/conversion.py', 'doatools/model/sources.py'],
                'mechanism': [{'name': 'cart2spherical, ae2broad, convert_angles', 'where': 'doatools/utils/conversion.py'},
                              {'name': 'calc_spherical_coords', 'where': 'doatools/model/sources.py'}],
                'observe_at': ['cart2spherical', 'ae2broad', 'convert_angles', 'calc_spherical_coords']},
}
RULE = 'Points, directions and reference locations are generated; results are checked by reconstructing the vectors. Non-trivial: at least two points.'


def sph(r, az, el):
    return np.stack((r * np.cos(el) * np.cos(az), r * np.cos(el) * np.sin(az), r * np.sin(el)), axis=-1)


def check_conv(case):
    from doatools.utils.conversion import cart2spherical, ae2broad, convert_angles
    x = np.array(case['pts'], dtype=float) * case['scale']
    keep = x.copy()
    s = cart2spherical(x)
    same(x, keep, 'input of cart2spherical')
    require(s.shape == (x.shape[0], 3), 'shape {}', s.shape)
    sc = np.max(np.abs(x)) + 1e-300
    close(sph(s[:, 0], s[:, 1], s[:, 2]) / sc, pad3(x) / sc, 'reconstructed points', 1e-12, 1e-12)
    require(np.all(s[:, 0] >= 0) and np.all(np.abs(s[:, 1]) <= math.pi) and np.all(np.abs(s[:, 2]) <= math.pi / 2), 'ranges of spherical coordinates')
    d = np.array(case['dirs'], dtype=float)
    b = ae2broad(d)
    require(b.shape == (len(d), 1), 'ae2broad shape {}', b.shape)
    close(np.sin(b[:, 0]), np.cos(d[:, 0]) * np.cos(d[:, 1]), 'sine of the broadside angle', 1e-9, 1e-9)
    require(np.all(np.abs(b) <= math.pi / 2 + 1e-12), 'broadside range')
    v = np.array(case['ang'])
    for fu, q in (('rad', math.pi / 2), ('deg', 90.0), ('sin', 1.0)):
        for tu in ('rad', 'deg', 'sin'):
            a = v * q
            kk = a.copy()
            c = convert_angles(a, fu, tu)
            same(a, kk, 'input of convert_angles')
            r = {'rad': a, 'deg': a * math.pi / 180, 'sin': np.arcsin(np.clip(a, -1, 1))}[fu]
            e = {'rad': r, 'deg': r * 180 / math.pi, 'sin': np.sin(r)}[tu]
            close(c, e, 'convert_angles {} -> {}'.format(fu, tu), 1e-12, 1e-12)
            require(c is not a, 'convert_angles returned its input')
            close(convert_angles(c, tu, fu), a, 'round trip {} -> {}'.format(fu, tu), 1e-6, 1e-6)
    return 'dim%d' % x.shape[1] if len(x) > 1 else None


@st.composite
def conv(draw):
    d = draw(st.integers(1, 3))
    n = draw(st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(6, 60)))
    co = st.one_of(st.sampled_from([0.0, 1.0, -1.0]), fl(-10, 10), st.tuples(st.sampled_from([1e-4, 1e-7, 1e-11]), fl(-1, 1)).map(lambda t: t[0] * t[1]))
    return {'pts': draw(st.lists(st.lists(co, min_size=d, max_size=d), min_size=n, max_size=n)), 'scale': draw(logfl(1e-3, 1e3)),
            'dirs': draw(st.lists(st.tuples(fl(-math.pi, math.pi), fl(-math.pi / 2, math.pi / 2)).map(list), min_size=1, max_size=5 if n < 6 else 60)),
            'ang': draw(st.lists(fl(-1, 1), min_size=1, max_size=4))}


def check_rel(case):
    s = case['src']
    src = build_sources(s)
    ref = np.array(case['ref'], dtype=float)
    r, az, el = src.calc_spherical_coords(ref)
    m, K = len(ref), len(s['loc'])
    for q, n in ((r, 'range'), (az, 'azimuth'), (el, 'elevation')):
        require(q.shape == (m, K), '{} has shape {} instead of {}', n, q.shape, (m, K))
    if s['type'] == 'near2d':
        p = pad3(np.array(s['loc']))
        e = p[None, :, :] - pad3(ref)[:, None, :]
        close(sph(r, az, el), e, 'vectors from the reference locations', 1e-12, 1e-10)
    else:
        require(np.all(np.isinf(r)) and np.all(r > 0), 'range of far-field sources is {}', r)
        e = np.broadcast_to(direction_vectors(s).T[None], (m, K, 3))
        t = 1e-7 if s['unit'] == 'sin' else 1e-10
        close(sph(np.ones((m, K)), az, el), e, 'directions of far-field sources', 0, t)
    return '%s/%dD' % (s['type'], ref.shape[1]) if m > 1 else None


@st.composite
def rel(draw):
    d = draw(st.integers(1, 3))
    m = draw(st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(6, 40)))
    return {'src': draw(any_sources()), 'ref': draw(st.lists(st.lists(fl(-10, 10), min_size=d, max_size=d), min_size=m, max_size=m))}


SUBS = [Sub('conversion', conv(), check_conv, 3000), Sub('relative', rel(), check_rel, 3000)]
