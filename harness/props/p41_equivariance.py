from hypothesis import strategies as st

from ..common import *
from ..core import Sub
from ..est import *

ID = 'P41'
TITLE = 'Estimates do not depend on how a scenario is described'
PROP = {
    'statement': 'Spectra and estimates of Bartlett, MVDR, MUSIC and MinNorm (refined or not) depend on the physical scenario only: scaling the covariance matrix (or, for the subspace methods, adding a multiple of the identity), relabelling the sensors together with the covariance matrix, translating, mirroring or rotating the array together with the search grid, scaling array and wavelength together, expressing the grid in another unit, giving location errors as positions, turning known phase errors into rotated data, adding imperfections that are not known, and using another array class with the same positions all lead to the same spectrum (scaled accordingly) and the same estimates; a part of the grid gives the corresponding part of the spectrum. Root-MUSIC, ESPRIT and the covariance augmentation follow the same laws for uniform and sparse linear arrays (scale, mirrored data, jointly scaled spacing and wavelength, units, modulation).',
    'quantifier': {'over': ['inputs', 'configurations'], 'text': 'all spectrum-based and gridless estimators, arrays, grids, covariance matrices and transformations'},
    'why_tests_cant': 'Each law relates two complete runs with different inputs; the tests evaluate a few scenarios one at a time and only at true source locations.',
    'anchors': {'files': ['doatools/estimation/core.py', 'doatools/estimation/music.py', 'doatools/estimation/min_norm.py', 'doatools/estimation/beamforming.py', 'doatools/estimation/esprit.py', 'doatools/estimation/coarray.py', 'doatools/model/arrays.py', 'doatools/model/sources.py'],
                'mechanism': [{'name': 'spectrum', 'where': 'SpectrumBasedEstimatorBase._estimate'}, {'name': 'steering matrix', 'where': 'ArrayDesign.steering_matrix'}, {'name': 'roots to directions', 'where': 'FarField1DSourcePlacement.from_z'}],
                'observe_at': ['estimate() of MUSIC, MinNorm, BartlettBeamformer, MVDRBeamformer, RootMUSIC1D, Esprit1D', 'CoarrayACMBuilder1D.transform']},
}
RULE = ('A scenario and a transformation are generated and both runs are made with the library; spectra are compared within a tolerance derived from the conditioning, '
        'estimates when no peak decision is within that tolerance. Non-trivial: the law applies, at least two grid points and two sensors.')
ASSUMPTIONS = ['Subspace methods: cases whose relative eigenvalue gap is below 1e-3 are skipped.', 'Estimates are compared unless a peak decision is closer than the numerical tolerance.']

COMMON = ['scale', 'loading', 'relabel', 'translate', 'zoom', 'unit', 'part', 'mirror', 'positions', 'phases', 'unknown', 'class', 'turn', 'lift']


def grid_of(kind, unit, axes):
    from doatools.estimation import grid as G
    axes = tuple(np.array(a) for a in axes)
    if kind == 'near':
        return G.NearField2DSearchGrid(axes=axes)
    return (G.FarField1DSearchGrid if kind == 'far1' else G.FarField2DSearchGrid)(axes=axes, unit=unit)


def adjacent(v):
    """All pairs of neighbouring values (diagonal neighbours included)."""
    if v.ndim == 1:
        return [(v[1:], v[:-1])]
    return [(v[1:], v[:-1]), (v[:, 1:], v[:, :-1]), (v[1:, 1:], v[:-1, :-1]), (v[1:, :-1], v[:-1, 1:])]


def clear(v, margin):
    """No decision about peaks of v (neighbours, and all pairs for the choice of the largest) is within the margin."""
    for a, b in adjacent(v):
        if a.size and np.min(np.abs(a - b)) <= margin:
            return False
    s = np.sort(v.ravel())
    return s.size < 2 or np.min(np.diff(s)) > margin


def angles(x, a, b):
    t = {'rad': x, 'deg': np.radians(x), 'sin': np.arcsin(x) if a == 'sin' else None}[a]
    return {'rad': t, 'deg': np.degrees(t), 'sin': np.sin(t)}[b]


def check_law(c):
    from doatools.model import arrays as A, perturbations as Pt
    method, law, kind = c['method'], c['law'], c['kind']
    r = rs(c['seed'])
    spec = c['array']
    base = build_array(spec)
    nom = nominal(spec, base)
    m = len(nom)
    if m < 2:
        return None
    k = min(c['k'], m - 1)
    wl = c['wl']
    unit = c['unit'] if kind != 'near' else 'm'
    if kind == 'far2' and unit == 'sin':
        unit = 'rad'
    lim = {'far1': [(-80, 80)], 'far2': [(-170, 170), (-80, 80)], 'near': [(-20, 20), (2, 30)]}[kind]
    n = [c['n']] if kind == 'far1' else [2 + c['n'] % 7, 2 + c['n'] % 5]
    axes = []
    for (a, b), q in zip(lim, n):
        x = np.sort(r.uniform(a, b, q)) if c['irregular'] else np.linspace(a + r.uniform(0, 3), b, q)
        axes.append(x if kind == 'near' else angles(x, 'deg', unit))
    loc, R, w2, u2, ax2, perts2 = nom, None, wl, unit, axes, []
    gain = 1.0
    back = lambda S: S
    R = eig_cov(c['seed'] + 1, m, k)
    R2 = R
    t = c['factor']
    src = axes_sources({'unit': unit}, axes)
    v, tol = ref_null(method, ref_steering(nom, src, wl), R, k)
    if method in ('music', 'minnorm') and noise_projector(R, k)[1] < 1e-3:
        return None
    arr2 = None
    if law == 'scale':
        if c['seed'] % 3 == 0:
            t = [1e-18, 1e18, 1e-30][c['seed'] // 3 % 3]
        R2 = R * t
        gain = t if method == 'bartlett' else (1 / t if method == 'mvdr' else 1.0)
    elif law == 'loading':
        if method in ('bartlett', 'mvdr'):
            return None
        R2 = R + t * np.eye(m) * np.linalg.norm(R, 2) / 100
        tol = tol * (1 + t)
    elif law == 'relabel':
        if kind == 'near' or method == 'minnorm':
            o = np.concatenate(([0], 1 + r.permutation(m - 1)))
        else:
            o = r.permutation(m)
        loc, R2 = nom[o], R[np.ix_(o, o)]
    elif law == 'translate':
        s = r.uniform(-2, 2, nom.shape[1])
        if kind == 'near':
            if nom.shape[1] < 2:
                s = np.append(s, r.uniform(-2, 2))
                loc = np.hstack((nom, np.zeros((m, 1))))
            s[2:] = 0
            ax2 = [a + d for a, d in zip(axes, s)]
        loc = loc + s
    elif law == 'zoom':
        loc, w2 = nom * t, wl * t
        if kind == 'near':
            ax2 = [a * t for a in axes]
    elif law == 'unit':
        if kind == 'near':
            return None
        u2 = {'rad': 'deg', 'deg': 'sin' if kind == 'far1' else 'rad', 'sin': 'rad'}[unit]
        ax2 = [angles(a, unit, u2) for a in axes]
    elif law == 'part':
        step = 2 + c['seed'] % 2
        ax2 = [a[c['seed'] % min(2, len(a))::step] for a in axes]
        start = [c['seed'] % min(2, len(a)) for a in axes]
        back = None
    elif law == 'mirror':
        loc = nom.copy()
        loc[:, 0] *= -1
        if kind == 'far2':
            # x -> -x: azimuth -> 180 deg - azimuth; use the mirror of z instead
            loc = nom.copy()
            if nom.shape[1] == 3:
                loc[:, 2] *= -1
            ax2 = [axes[0], -axes[1][::-1]]
            back = lambda S: S[:, ::-1]
        else:
            ax2 = [-axes[0][::-1]] + axes[1:]
            back = lambda S: S[::-1]
    elif law == 'positions':
        e = r.uniform(-0.3, 0.3, (m, 1 + c['seed'] % 3))
        d = max(e.shape[1], nom.shape[1])
        loc = np.zeros((m, d))
        loc[:, :nom.shape[1]] += nom
        loc[:, :e.shape[1]] += e
        base = base.get_perturbed_copy([Pt.LocationErrors(e, True)])
        v, tol = ref_null(method, ref_steering(loc, src, wl), R, k)
    elif law == 'phases':
        psi = r.uniform(-3, 3, m)
        perts2 = [Pt.PhaseErrors(psi, True)]
        D = np.exp(1j * psi)
        R2 = R * np.outer(D, D.conj())
    elif law == 'unknown':
        p = r.uniform(-0.5, 0.5, m)
        perts2 = [Pt.GainErrors(p, False), Pt.PhaseErrors(p, False), Pt.LocationErrors(r.uniform(-1, 1, (m, 2)), False), Pt.MutualCoupling(np.eye(m) + 0.2 * randc(r, m, m), False)]
    elif law == 'class':
        pass
    elif law == 'turn':
        # A quarter turn (near field) or any turn about the z-axis (far field).
        x = np.zeros((m, max(2, nom.shape[1])))
        x[:, :nom.shape[1]] = nom
        if kind == 'near':
            loc = x.copy()
            loc[:, 0], loc[:, 1] = -x[:, 1], x[:, 0]
            ax2 = [-axes[1][::-1], axes[0]]
            back = lambda S: S[::-1, :].T
        else:
            phi = math.radians(r.uniform(-9, 9))
            # Azimuths grow and broadside angles shrink with a turn.
            loc = x.copy()
            loc[:, 0] = math.cos(phi) * x[:, 0] - math.sin(phi) * x[:, 1]
            loc[:, 1] = math.sin(phi) * x[:, 0] + math.cos(phi) * x[:, 1]
            if kind == 'far1':
                if unit == 'sin':
                    return None
                ax2 = [axes[0] - angles(phi, 'rad', unit)]
            else:
                ax2 = [axes[0] + angles(phi, 'rad', unit), axes[1]]
    elif law == 'lift':
        # Zero-padded coordinates.
        loc = np.hstack((nom, np.zeros((m, 3 - nom.shape[1]))))
    if arr2 is None:
        arr2 = A.ArrayDesign(loc, 'other', perturbations=perts2)
    if not (np.isfinite(tol) and tol < 1e-4 * max(np.max(np.abs(v)), 1e-300)):
        return None
    ap = 1 + (np.max(np.abs(nom)) + 3) / wl + (80 / wl if kind == 'near' else 0)
    tol = tol * 100 * ap * 10
    opt = {'refine_estimates': True, 'refinement_density': 4, 'refinement_iters': 2} if c['refine'] else {}
    g1, g2 = grid_of(kind, unit, axes), grid_of(kind, u2, ax2)
    ok1, e1, s1 = estimator(method, base, wl, g1).estimate(R, k, return_spectrum=True, **opt)
    ok2, e2, s2 = estimator(method, arr2, w2, g2).estimate(R2, k, return_spectrum=True, **opt)
    null = (lambda s: s) if method == 'bartlett' else (lambda s: 1.0 / s)
    v1, v2 = null(s1), null(s2)
    what = '{} spectrum after "{}"'.format(method, law)
    if law == 'part':
        sl = tuple(slice(i, None, step) for i in start)
        close(v2, v1[sl], what, 0, tol)
        return '%s/%s/%s' % (method, law, kind) if v2.size > 1 else None
    v2b = back(v2)
    require(v2b.shape == v1.shape, '{}: shape {}', what, v2.shape)
    close(v2b, v1 * gain, what, 0, tol * gain)
    if not clear(v1, 10 * tol):
        return '%s/%s/%s' % (method, law, kind)
    require(bool(ok1) == bool(ok2), '{}: resolved is {} instead of {}', what, ok2, ok1)
    if not ok1:
        require(e2 is None, '{}: estimates of an unresolved case', what)
        return '%s/%s/%s/unresolved' % (method, law, kind)
    if not c['refine'] or law in ('scale', 'loading', 'relabel', 'positions', 'phases', 'unknown', 'class', 'lift'):
        # Estimates correspond one to one (refined estimates where the local grids are the same).
        x = np.array(e1.locations, dtype=float).reshape(k, -1)
        y = np.array(e2.locations, dtype=float).reshape(-1, x.shape[1])
        require(y.shape == x.shape and type(e1) is type(e2), '{}: {} estimates', what, y.shape)
        if c['refine']:
            # A refined maximum may be tied; compare only where the local criterion decides.
            zx = ref_null(method, ref_steering(loc if law == 'positions' else nom, dict(src, loc=x.tolist() if x.shape[1] > 1 else x[:, 0].tolist()), wl), R, k)[0]
            zy = ref_null(method, ref_steering(loc if law == 'positions' else nom, dict(src, loc=y.tolist() if y.shape[1] > 1 else y[:, 0].tolist()), wl), R, k)[0]
            close(zy, zx, '{}: spectrum at the refined estimates'.format(what), 0, tol)
        else:
            one = [tuple(int(np.argmin(np.abs(a - z))) for a, z in zip(axes, p)) for p in x]
            two = [tuple(int(np.argmin(np.abs(a - z))) for a, z in zip(ax2, p)) for p in y]
            shape = v2.shape
            lab = np.arange(v2.size).reshape(shape)
            pos = back(lab)
            exp = sorted(int(pos[i]) for i in one)
            require(sorted(int(lab[i]) for i in two) == exp, '{}: estimates {} instead of {}', what, sorted(int(lab[i]) for i in two), exp)
    return '%s/%s/%s%s' % (method, law, kind, '/refined' if c['refine'] else '')


def law_case():
    return st.fixed_dictionaries({
        'method': st.sampled_from(METHODS), 'law': st.sampled_from(COMMON), 'kind': st.sampled_from(['far1', 'far1', 'far2', 'near']),
        'array': st.one_of(ulas(8, 2), sparse1d(small=True), planar(2), generic_arrays(min_m=2, max_m=7), grid_arrays(max_m=6)),
        'wl': wavelengths, 'unit': st.sampled_from(['rad', 'deg', 'sin']), 'n': st.integers(2, 40), 'irregular': st.booleans(),
        'k': st.integers(1, 4), 'seed': seeds, 'factor': st.sampled_from([0.25, 2.0, 3.7, 1e-6, 1e6]), 'refine': st.sampled_from([False, False, True])})


def check_gridless(c):
    from doatools import estimation as E
    m, k = c['m'], min(c['k'], c['m'] - 1)
    R = eig_cov(c['seed'], m, k, c['snr'])
    if noise_projector(R, k)[1] < 1e-3:
        return None
    wl, law, t = c['wl'], c['law'], c['factor']
    d0 = c['d0'] * wl
    method = c['est']
    kw = {} if method == 'rootmusic' else {'formulation': method, 'row_weights': c['weights']}
    cls = E.RootMUSIC1D if method == 'rootmusic' else E.Esprit1D
    run = lambda R, wl, d0, unit: cls(wl).estimate(R, k, d0=d0, unit=unit, **kw)
    # Roots of noisy data may be invisible for spacings below half a wavelength: use half a wavelength or more.
    ok, e = run(R, wl, d0, 'sin')
    require(ok and e.size == k, '{} estimates', e and e.size)
    x = np.sort(e.locations)
    per = wl / d0  # period of the sines
    R2, w2, dd, unit, f = R, wl, d0, 'sin', (lambda y: y)
    if law == 'scale':
        R2 = R * t
    elif law == 'zoom':
        w2, dd = wl * t, d0 * t
    elif law == 'loading':
        R2 = R + np.eye(m) * np.linalg.norm(R, 2) * (t if t < 10 else 1.0)
    elif law == 'mirror':
        R2 = R.conj()
        f = lambda y: -y
    elif law == 'flip':
        if method == 'ls':
            return None  # least squares does not treat both subarrays alike
        R2 = R[::-1, ::-1]
        f = lambda y: -y
    elif law == 'unit':
        unit = c['unit']
        f = lambda y: angles(y, unit, 'sin')
    elif law == 'modulate':
        s = c['shift']
        D = np.exp(2j * math.pi * s * np.arange(m))
        R2 = R * np.outer(D, D.conj())
        f = lambda y: y - s * per
    ok2, e2 = run(R2, w2, dd, unit)
    require(ok2 and e2.size == k, '{} estimates after {}', e2 and e2.size, law)
    y = np.asarray(f(np.asarray(e2.locations)))
    # Compare the multisets on the circle of unambiguous sines.
    if not np.all(np.isfinite(x)) or not np.all(np.isfinite(y)):
        return None
    gap = noise_projector(R, k)[1]
    zx, zy = np.exp(2j * math.pi * x / per), np.exp(2j * math.pi * y / per)
    # Sensitivity of the roots: judged by a tiny perturbation of the input.
    E_ = randc(rs(c['seed'] + 3), m, m)
    Rp = R + 1e-9 * np.linalg.norm(R, 2) * (E_ + E_.conj().T) / m
    okp, ep = run(Rp, wl, d0, 'sin')
    zp = np.exp(2j * math.pi * np.asarray(ep.locations) / per)
    from scipy.optimize import linear_sum_assignment as lsa
    dist = lambda a, b: (lambda D: np.max(D[lsa(D)]))(np.abs(a[:, None] - b[None, :]))
    move = dist(zx, zp)
    if not move < 1e-6:
        return None  # nearly multiple roots, or an undecided choice of roots
    tol = 1e-6 + 30 * move
    require(dist(zx, zy) < tol, '{} after "{}": sines {} instead of {} (modulo {})', method, law, np.sort(y), x, per)
    return '%s/%s' % (method, law) if k > 1 else None


def gridless_case():
    return st.fixed_dictionaries({
        'est': st.sampled_from(['rootmusic', 'ls', 'tls']), 'law': st.sampled_from(['scale', 'zoom', 'loading', 'mirror', 'flip', 'unit', 'modulate']),
        'm': st.integers(3, 12), 'k': st.integers(1, 6), 'seed': seeds, 'snr': logfl(3, 1e4), 'wl': wavelengths, 'd0': st.sampled_from([0.5, 0.5, 0.75, 1.0]),
        'factor': st.sampled_from([1e-3, 0.25, 2.0, 1e6, 1e-18, 1e18]), 'unit': st.sampled_from(['rad', 'deg']), 'shift': fl(-0.5, 0.5),
        'weights': st.sampled_from(['default', 'none'])})


def check_augment(c):
    from doatools.estimation import CoarrayACMBuilder1D
    from doatools.model import arrays as A
    spec = c['array']
    a = build_array(spec)
    m = a.size
    if m < 2:
        return None
    r = rs(c['seed'])
    R = herm_pd(r, m)
    b = CoarrayACMBuilder1D(a)
    base = b.transform(R, c['method'])
    idx = np.asarray(a.element_indices)[:, 0]
    law, q = c['law'], 1.0
    R2 = R
    n2 = idx
    exp = base
    if law == 'scale':
        t = c['factor']
        R2 = R * t
        exp = base * (t if c['method'] == 'da' else t * t)
    elif law == 'translate':
        n2 = idx + int(r.randint(-9, 9))
    elif law == 'relabel':
        o = r.permutation(m)
        n2, R2 = idx[o], R[np.ix_(o, o)]
    elif law == 'mirror':
        n2, R2 = -idx, R.conj()
    elif law == 'conj':
        R2 = R.conj()
        exp = base.conj()
    elif law == 'modulate':
        s = c['shift']
        D = np.exp(2j * math.pi * s * idx)
        R2 = R * np.outer(D, D.conj())
        V = np.exp(2j * math.pi * s * np.arange(len(base)))
        exp = base * np.outer(V, V.conj())
    elif law == 'sum':
        if c['method'] != 'da':
            return None
        Q = herm_pd(r, m)
        R2 = R + Q
        exp = base + b.transform(Q, 'da')
    got = CoarrayACMBuilder1D(A.GridBasedArrayDesign(n2[:, None], d0=c['d0'])).transform(R2, c['method'])
    close(got, exp, 'augmented covariance ({}) after "{}"'.format(c['method'], law), 1e-9, 1e-9 * np.max(np.abs(exp)))
    return '%s/%s' % (c['method'], law) if len(base) > 1 else None


SUBS = [Sub('spectra', law_case(), check_law, 3000),
        Sub('gridless', gridless_case(), check_gridless, 2000),
        Sub('augment', st.fixed_dictionaries({
            'array': st.one_of(ulas(), sparse1d(), st.lists(st.integers(-12, 20), min_size=2, max_size=9, unique=True).map(lambda i: {'kind': 'grid', 'indices': [[x] for x in i], 'd0': 0.5})),
            'law': st.sampled_from(['scale', 'translate', 'relabel', 'mirror', 'conj', 'modulate', 'sum']), 'method': st.sampled_from(['ss', 'da']),
            'factor': st.sampled_from([1e-3, 2.0, 1e4, 1e-18, 1e18]), 'seed': seeds, 'shift': fl(-0.5, 0.5), 'd0': logfl(0.1, 3)}), check_augment, 1200)]
