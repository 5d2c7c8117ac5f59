from hypothesis import strategies as st

from ..common import *
from ..core import Sub

ID = 'P04'
TITLE = 'Near-field steering follows the spherical-wave model, first sensor as reference'
PROP = {
    'statement': 'For every array and every set of near-field sources in the xy-plane, the phase of entry (i, k) of the steering matrix is -2 pi (distance(sensor i, source k) - distance(first sensor, source k)) / wavelength, so the first row is all ones. The matrix is invariant under a common rigid motion in the plane, and tends to the far-field matrix (relative to the first sensor) as the range grows.',
    'quantifier': {'over': ['inputs', 'configurations'], 'text': '1D/2D/3D arrays, sources at any range including very close to sensors, any wavelength'},
    'why_tests_cant': 'Tests evaluate one small example; distances, reference sensor and padding of mixed dimensions vary over all inputs.',
    'anchors': {'files': ['doatools/model/sources.py', 'doatools/model/arrays.py'],
                'mechanism': [{'name': 'pairwise distances', 'where': 'NearField2DSourcePlacement.phase_delay_matrix'}],
                'observe_at': ['steering_matrix', 'phase_delay_matrix', 'calc_spherical_coords']},
}
RULE = ('Arrays, near-field sources and wavelengths are generated; compared with distances computed entry by entry. '
        'Non-trivial: at least two sensors.')


def check_model(case):
    s, wl = case['src'], case['wl']
    a = build_array(case['array'])
    locs = nominal(case['array'], a)
    if case['on']:
        # Sources at (or extremely close to) the first coordinates of a sensor.
        q = pad3(locs)[case['on'] % a.size, :2] + [0.0, 0.0, 1e-7, 1e-3][case['on'] // 8 % 4]
        s = dict(s, loc=s['loc'][:-1] + [q.tolist()], int=False)
    src = build_sources(s)
    t = 1e-9 * (1 + 60 / wl)
    D = src.phase_delay_matrix(locs, wl)
    close(D, ref_delays(locs, s, wl), 'phase delays', 1e-11, t)
    A = a.steering_matrix(src, wl)
    close(A, ref_steering(locs, s, wl), 'steering matrix', 0, t)
    close(A[0], np.ones(A.shape[1]), 'row of the reference sensor', 1e-12)
    require(not src.is_far_field, 'near-field placement claims to be far-field')
    return '%dD' % locs.shape[1] if a.size > 1 else None


def check_motion(case):
    """Rigid motions of the plane applied to sensors and sources."""
    from doatools.model.arrays import ArrayDesign
    from doatools.model.sources import NearField2DSourcePlacement, FarField1DSourcePlacement
    a = build_array(case['array'])
    x = pad3(nominal(case['array'], a))
    s = build_sources(case['src'])
    wl = case['wl']
    A = a.steering_matrix(s, wl)
    c, sn = math.cos(case['rot']), math.sin(case['rot'])
    Q = np.array([[c, -sn], [sn, c]])
    sh = np.array(case['shift'])
    y = x.copy()
    y[:, :2] = x[:, :2] @ Q.T + sh
    if np.all(x[:, 2] == 0) and case['drop']:
        y = y[:, :2]
    s2 = NearField2DSourcePlacement(s.locations @ Q.T + sh)
    t = 1e-8 * (1 + 100 / wl)
    close(ArrayDesign(y, 'moved').steering_matrix(s2, wl), A, 'steering matrix after a rigid motion', 0, t)
    # Far-field limit: relative error of the phases is O(aperture^2 / (range wl)).
    r = 1e7
    th = np.array(case['angles'])
    far = NearField2DSourcePlacement(np.vstack((r * np.sin(th), r * np.cos(th))).T)
    F = a.steering_matrix(FarField1DSourcePlacement(th), wl)
    ap = np.max(np.abs(x)) + 1e-9
    lim = 2 * math.pi / wl * (4 * ap * ap / r + 1e-8)
    close(a.steering_matrix(far, wl), F / F[0], 'far-field limit', 0, 1e-9 + lim)
    return 'motion' if a.size > 1 else None


arr = st.one_of(ulas(), planar(), generic_arrays(), sparse1d(small=True))
SUBS = [
    Sub('model', st.fixed_dictionaries({'array': st.one_of(arr, grid_arrays()), 'src': near2d(), 'wl': wavelengths, 'on': rarely(st.just(0), st.integers(0, 64), 4)}), check_model, 4000),
    Sub('motion', st.fixed_dictionaries({
        'array': arr, 'src': near2d(), 'wl': logfl(0.3, 10), 'rot': fl(-3.2, 3.2),
        'shift': st.tuples(fl(-10, 10), fl(-10, 10)).map(list), 'drop': st.booleans(),
        'angles': st.lists(fl(-1.57, 1.57), min_size=1, max_size=4)}), check_motion, 2500),
]
