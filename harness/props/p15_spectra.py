from hypothesis import strategies as st

from ..common import *
from ..core import Sub
from ..est import *

ID = 'P15'
TITLE = 'Bartlett, MVDR, MUSIC and MinNorm spectra equal their defining formulas'
PROP = {
    'statement': 'The spectrum returned for every point of the search grid is a^H R a (Bartlett), 1/(a^H R^-1 a) (MVDR), 1/(a^H Pn a) with the projector Pn on the noise subspace (MUSIC), and 1/|d^H a|^2 with d the minimum-norm vector of the noise subspace whose first entry is one (MinNorm), in the shape of the grid. Here a is the steering vector at that grid point for the array with its known imperfections only. Bartlett and MVDR spectra do not depend on the number of sources, and no input is modified.',
    'quantifier': {'over': ['inputs', 'configurations'], 'text': 'all arrays, known/unknown imperfections, wavelengths, 1D/2D/near-field grids, covariance matrices and source counts'},
    'why_tests_cant': 'Tests only look at peak positions of one noiseless scenario per method; values off the peaks, imperfections, conjugations and grid shapes are unobserved.',
    'anchors': {'files': ['doatools/estimation/core.py', 'doatools/estimation/beamforming.py', 'doatools/estimation/music.py', 'doatools/estimation/min_norm.py'],
                'mechanism': [{'name': 'spectrum functions', 'where': 'f_bartlett, f_mvdr, f_music, MinNorm.estimate'},
                              {'name': 'atom matrix', 'where': 'SpectrumBasedEstimatorBase._compute_atom_matrix'}],
                'observe_at': ['estimate(..., return_spectrum=True)', 'f_bartlett', 'f_mvdr', 'f_music']},
}
RULE = ('Arrays with imperfections, grids and covariance matrices (random eigen-structure or source models) are generated; every spectrum '
        'value is compared with the formula evaluated on independently built steering vectors. Non-trivial: at least two sensors.')
ASSUMPTIONS = ['Subspace methods: cases whose relative eigenvalue gap is below 1e-4 (ill-defined noise subspace) are skipped.']


def make_cov(case, m, nom, perts):
    c = case['cov']
    k = min(case['k'], m - 1)
    if c['kind'] == 'eig' or m == 1:
        return eig_cov(c['seed'], m, k, c['snr'])
    r = rs(c['seed'])
    if c['kind'] == 'sample':
        x = randc(r, m, 3 * m)
        return x @ x.conj().T / (3 * m)
    src = grid_sources(case['grid'])
    n = len(src['loc'])
    pick = [int(i) for i in r.randint(0, n, size=k)]
    A = ref_atoms(None, perts, m, nom, dict(src, loc=[src['loc'][i] for i in pick]), case['wl'])
    P = herm_pd(r, k, 0.3) if k else np.zeros((0, 0))
    R = A @ P @ A.conj().T + np.eye(m) / c['snr']
    return 0.5 * (R + R.conj().T)


def check_spectrum(case):
    method = case['method']
    perts = case['perts']
    m = array_size(case['array'])
    a = build_array(case['array'], perts, case['form'])
    nom = nominal(case['array'], a)
    k = case['k']
    if method in ('music', 'minnorm'):
        if m < 2:
            return None
        k = min(k, m - 1)
    R, Rin, loose, form = present(indefinite(make_cov(dict(case, k=k), m, nom, perts), case), case['cov']['seed'])
    kin = as_k(k, form)
    g = build_grid(case['grid'])
    src = grid_sources(case['grid'])
    est = estimator(method, a, case['wl'], g, **({'enable_caching': case['cache']} if case['cache'] is not None else {}))
    R0 = Rin.copy()
    out = est.estimate(Rin, kin, return_spectrum=True)
    same(Rin, R0, 'covariance matrix after estimate')
    require(len(out) == 3, 'estimate with return_spectrum returned {} values', len(out))
    sp = out[2]
    require(isinstance(sp, np.ndarray) and sp.shape == tuple(g.shape), 'spectrum has shape {} instead of {}', np.shape(sp), g.shape)
    require(not np.iscomplexobj(sp), 'the spectrum is complex')
    A = ref_atoms(case['array'], perts, m, nom, src, case['wl'])
    null, tol = ref_null(method, A, R, k)
    ap = 1 + (np.max(np.abs(nom)) + 1) / case['wl'] + (80 / case['wl'] if src['type'] == 'near2d' else 0)
    close_spectrum(method, sp.flatten(), null, tol * (100 + ap * 100) * loose, '{} spectrum ({})'.format(method, form))
    if case['again']:
        # Another covariance matrix, possibly refilled into the same matrix, and another number of sources.
        k2 = k + 1 if k + 1 < m or method in ('bartlett', 'mvdr') else max(1, k - 1)
        R2 = eig_cov(case['cov']['seed'] + 7, m, min(k2, m - 1), 20.0)
        if case['again'] == 'same k' or m == 1:
            k2 = k
            R2 = R2.conj()
        Rin2 = R2
        if Rin.flags.writeable and Rin.dtype == R2.dtype and case['again'] != 'new':
            Rin[...] = R2
            Rin2 = Rin
        sp2 = est.estimate(Rin2, k2, return_spectrum=True)[2]
        null, tol = ref_null(method, A, R2, k2)
        close_spectrum(method, sp2.flatten(), null, tol * (100 + ap * 100), '{} spectrum of a second covariance matrix'.format(method))
    elif method in ('bartlett', 'mvdr'):
        k2 = k + 1
        close(est.estimate(Rin, k2, return_spectrum=True)[2], sp, 'spectrum for another number of sources', 1e-9, 1e-12 * float(np.max(np.abs(sp), initial=0)))
    return '%s/%s/%s/%s' % (method, src['type'], 'pert' if perts else 'plain', form) if m > 1 else None


@st.composite
def scen(draw):
    method = draw(st.sampled_from(METHODS))
    return {'method': method,
            'array': draw(rarely(st.one_of(ulas(8, 2), sparse1d(small=True), planar(), generic_arrays(max_m=7), grid_arrays(max_m=6)), big_arrays(), 16)),
            'perts': draw(st.one_of(st.just([]), pert_list())), 'form': draw(st.sampled_from(['list', 'dict'])),
            'wl': draw(wavelengths), 'grid': draw(grid_spec(9, dense=1600)), 'k': draw(st.integers(1, 4)),
            'cov': {'kind': draw(st.sampled_from(['eig', 'eig', 'model', 'sample'])), 'seed': draw(seeds), 'snr': draw(st.one_of(logfl(3, 1e3), logfl(1e3, 1e11)))},
            'again': draw(st.sampled_from(['', '', 'new', 'same k', 'other k'])), 'cache': draw(st.sampled_from([None, True, False]))}


def check_functions(case):
    """The exported spectrum functions on arbitrary matrices."""
    from doatools.estimation.beamforming import f_bartlett, f_mvdr
    from doatools.estimation.music import f_music
    from doatools.estimation import core
    m, n, k = case['m'], case['n'], min(case['k'], case['m'] - 1)
    r = rs(case['seed'])
    A = randc(r, m, n)
    if case['real']:
        A = A.real.copy()
    R = eig_cov(case['seed'] + 1, m, k)
    if case['real']:
        R = R.real.copy()
    A0, R0 = A.copy(), R.copy()
    close(f_bartlett(A, R), quad(A, R), 'f_bartlett', 1e-10, 1e-10)
    close(1 / f_mvdr(A, R), quad(A, np.linalg.inv(R)), 'f_mvdr', 1e-9, 1e-9)
    P, gap = noise_projector(R, k)
    if gap > 1e-3 and hasattr(core, 'get_noise_subspace'):
        En = core.get_noise_subspace(R, k)
        close(En @ En.conj().T, P, 'noise subspace', 0, 1e-10 / gap)
        close(En.conj().T @ En, np.eye(m - k), 'orthonormality of the noise subspace', 0, 1e-10)
        close(1 / f_music(A, En), quad(A, P), 'f_music', 0, 1e-9 * m / gap)
    same(A, A0, 'A')
    same(R, R0, 'R')
    return 'real' if case['real'] else 'complex'


SUBS = [Sub('spectrum', scen(), check_spectrum, 4000),
        Sub('functions', st.fixed_dictionaries({'m': rarely(st.integers(2, 8), st.integers(9, 70), 20), 'n': rarely(st.integers(1, 8), st.sampled_from([50, 600, 5000]), 20), 'k': st.integers(1, 7),
                                                'seed': seeds, 'real': st.booleans()}), check_functions, 1500)]
