from hypothesis import strategies as st

from ..common import *
from ..core import Sub

ID = 'P03'
TITLE = 'Far-field steering matrices follow the plane-wave model'
PROP = {
    'statement': 'For every array, far-field source placement (broadside angles in radians, degrees or sine units, or azimuth/elevation pairs) and wavelength, each entry of the unperturbed steering matrix is exp(j 2 pi <sensor position, unit vector towards the source> / wavelength), one column per source in order. Hence equivalent descriptions (other units, an in-plane azimuth/elevation pair, zero-padded coordinates, jointly scaled geometry and wavelength) give the same matrix.',
    'quantifier': {'over': ['inputs', 'configurations'], 'text': '1D/2D/3D arrays not anchored at the origin, all angle units and ranges including endpoints, any wavelength, any number of sources'},
    'why_tests_cant': 'Tests compare a few stored matrices for one array and one wavelength; the physical law is universally quantified.',
    'anchors': {'files': ['doatools/model/sources.py', 'doatools/model/arrays.py', 'doatools/utils/conversion.py'],
                'mechanism': [{'name': 'phase delays', 'where': 'FarField1DSourcePlacement / FarField2DSourcePlacement.phase_delay_matrix'},
                              {'name': 'exp(1j T)', 'where': 'ArrayDesign.steering_matrix'}],
                'observe_at': ['steering_matrix', 'phase_delay_matrix']},
}
RULE = ('Arrays (1D-3D), far-field sources and wavelengths are generated; every entry is compared with an independent '
        'plane-wave model. Non-trivial: at least two sensors and one source.')


def tol(locs, wl):
    return 1e-9 * (1 + np.max(np.abs(locs)) / wl)


def check_model(case):
    s, wl = case['src'], case['wl']
    a = build_array(case['array'])
    locs = nominal(case['array'], a)
    src = build_sources(s)
    D = src.phase_delay_matrix(locs, wl)
    close(D, ref_delays(locs, s, wl), 'phase delays', 1e-11, 1e-10)
    A = a.steering_matrix(src, wl)
    close(A, ref_steering(locs, s, wl), 'steering matrix', 0, tol(locs, wl))
    close(np.abs(A), np.ones(A.shape), 'modulus', 1e-12)
    if case['rect'] and locs.shape[1] < 3:
        # Zero-padding the coordinates describes the same array.
        from doatools.model.arrays import ArrayDesign
        b = ArrayDesign(np.hstack((locs, np.zeros((locs.shape[0], 1)))), 'padded')
        close(b.steering_matrix(src, wl), A, 'steering matrix of the zero-padded array', 0, tol(locs, wl))
    # Column order and subsets.
    if len(s['loc']) > 1:
        sub = src[case['pick'] % len(s['loc']):]
        close(a.steering_matrix(sub, wl), A[:, case['pick'] % len(s['loc']):], 'columns of a subset', 1e-12)
    c = case['scale']
    from doatools.model.arrays import ArrayDesign
    b = ArrayDesign(locs * c, 'scaled')
    close(b.steering_matrix(src, wl * c), A, 'steering matrix after joint scaling', 0, tol(locs, wl))
    return '%s/%s/%dD' % (s['type'], s['unit'], locs.shape[1]) if a.size > 1 else None


def check_units(case):
    a = build_array(case['array'])
    s, wl = case['src'], case['wl']
    locs = nominal(case['array'], a)
    src = build_sources(s)
    A = a.steering_matrix(src, wl)
    for u in (['rad', 'deg', 'sin'] if s['type'] == 'far1d' else ['rad', 'deg']):
        # arcsin is ill-conditioned at the end points
        t = 1e-6 * (1 + np.max(np.abs(locs)) / wl)
        close(a.steering_matrix(src.as_unit(u), wl), A, 'steering matrix in unit ' + u, 0, t)
    if s['type'] == 'far1d':
        # broadside angle t equals azimuth pi/2 - t at zero elevation
        from doatools.model.sources import FarField2DSourcePlacement
        t = src.as_unit('rad').locations
        e = FarField2DSourcePlacement(np.vstack((math.pi / 2 - t, 0 * t)).T, 'rad')
        close(a.steering_matrix(e, wl), A, 'equivalent azimuth/elevation sources', 0, 1e-6 * (1 + np.max(np.abs(locs)) / wl))
    elif locs.shape[1] == 1:
        from doatools.model.sources import FarField1DSourcePlacement
        from doatools.utils.conversion import ae2broad
        p = src.as_unit('rad').locations
        b = ae2broad(p)
        require(b.shape == (len(s['loc']), 1), 'ae2broad shape {}', b.shape)
        f = FarField1DSourcePlacement(b[:, 0], 'rad')
        close(a.steering_matrix(f, wl), A, 'broadside angles of azimuth/elevation sources', 0, 1e-6 * (1 + np.max(np.abs(locs)) / wl))
    return '%s/%s' % (s['type'], s['unit']) if a.size > 1 else None


def cases():
    return st.fixed_dictionaries({
        'array': any_array(), 'src': st.one_of(far1d(), far2d()), 'wl': wavelengths,
        'rect': st.booleans(), 'pick': st.integers(0, 9), 'scale': logfl(0.01, 100)})


def check_large(case):
    """Many sensors and many sources at once."""
    a = build_array(case['array'])
    locs = nominal(case['array'], a)
    r = rs(case['seed'])
    q = 1.0 if case['unit'] == 'rad' else 180 / math.pi
    x = r.uniform(-1, 1, case['n']) * math.pi / 2 * q
    s = {'type': 'far1d', 'unit': case['unit'], 'loc': x.tolist()} if case['one'] else \
        {'type': 'far2d', 'unit': case['unit'], 'loc': np.stack((2 * x, r.uniform(-1, 1, case['n']) * math.pi / 2 * q), axis=1).tolist()}
    A = a.steering_matrix(build_sources(s), case['wl'])
    close(A, ref_steering(locs, s, case['wl']), 'steering matrix', 0, tol(locs, case['wl']))
    require(A.dtype == np.complex128, 'type of the steering matrix {}', A.dtype)
    return 'large/%s/%dD' % (s['type'], locs.shape[1])


LARGE = st.fixed_dictionaries({'array': st.one_of(ulas(300, 60), big_arrays()), 'n': st.sampled_from([500, 1500, 5000]), 'one': st.booleans(), 'unit': st.sampled_from(['rad', 'deg']), 'wl': wavelengths, 'seed': seeds})
SUBS = [Sub('large', LARGE, check_large, 40), Sub('model', cases(), check_model, 5000), Sub('units', cases(), check_units, 3000)]
