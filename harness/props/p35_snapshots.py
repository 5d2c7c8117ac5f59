from ..core import Sub
from ..common import *
from ..est import ref_atoms

ID = 'P35'
TITLE = 'Simulated snapshots are exactly array response times signal plus noise'
PROP = {
    'statement': 'get_narrowband_snapshots returns Y = A S + N, where A is the steering matrix of the array with all its (known and unknown) imperfections, S and N are what the signal and noise generators emit for the requested number of snapshots (no noise if there is no noise generator), one snapshot per column, and, exactly when requested, also Y Y^H / N. Each generator is asked exactly once and what it emitted is not modified.',
    'quantifier': {'over': ['inputs', 'configurations'], 'text': 'all arrays, imperfections, source types, wavelengths, generators and snapshot counts'},
    'why_tests_cant': 'Snapshots are only used as noisy inputs in tests, so an error in the model would be absorbed by loose tolerances.',
    'anchors': {'files': ['doatools/model/snapshots.py', 'doatools/model/arrays.py', 'doatools/model/signals.py'],
                'mechanism': [{'name': 'snapshot model', 'where': 'get_narrowband_snapshots'}],
                'observe_at': ['get_narrowband_snapshots']},
}
RULE = ('Arrays, imperfections, sources and recording generators (complex, real or integer valued) are generated; outputs are compared with the model. '
        'Non-trivial: at least two sensors and noise or several snapshots.')


def check_model(c):
    from doatools.model.signals import SignalGenerator
    from doatools.model.snapshots import get_narrowband_snapshots
    from doatools.model.array_elements import CustomNonisotropicSensor
    m = array_size(c['array'])
    s = c['src']
    k = len(s['loc'])
    elem = None
    perts = c['perts']
    if c['element']:
        perts = [p for p in perts if p['type'] == 'location_errors']
        elem = CustomNonisotropicSensor(lambda r, az, el, pol: np.stack([1 + 0.5 * np.cos(az), 0.3j + np.sin(el)]), output_size=2)
    a = build_array(c['array'], perts, element=elem)
    n = c['n']
    asked = []

    class Rec(SignalGenerator):
        def __init__(self, dim, kind, seed):
            self._dim, self.kind, self.seed = dim, kind, seed
            self.out = []

        @property
        def dim(self):
            return self._dim

        def emit(self, q):
            asked.append((self.seed, q))
            r = rs(self.seed)
            X = randc(r, self._dim, q)
            X = {'complex': X, 'real': X.real, 'int': r.randint(-5, 6, (self._dim, q))}[self.kind]
            self.out.append(X.copy())
            self.given = X
            return X

    S = Rec(k, c['skind'], 1 + c['seed'] % 1000)
    N = Rec(2 * m if elem else m, c['nkind'], 5000 + c['seed'] % 1000) if c['nkind'] != 'none' else None
    args = (a, build_sources(s), c['wl'], S)
    call = {'all': lambda: get_narrowband_snapshots(*args, N, n, c['cov']),
            'kw': lambda: get_narrowband_snapshots(*args, noise_signal=N, n_snapshots=n, return_covariance=c['cov'])}[c['form']]
    if n == 1 and not c['cov'] and c['form'] == 'kw':
        call = lambda: get_narrowband_snapshots(*args, N) if N is not None else get_narrowband_snapshots(*args)
    out = call()
    if c['cov']:
        require(isinstance(out, tuple) and len(out) == 2, 'expected a pair, got {!r}', type(out))
        Y, R = out
    else:
        require(isinstance(out, np.ndarray), 'expected an array, got {!r}', type(out))
        Y = out
    require(sorted(asked) == sorted([(S.seed, n)] + ([(N.seed, n)] if N is not None else [])), 'generators were asked for {}', asked)
    same(S.given, S.out[0], 'emitted source signals')
    if N is not None:
        same(N.given, N.out[0], 'emitted noise')
    if elem:
        A = a.steering_matrix(build_sources(s), c['wl'])  # its correctness is another property
        require(A.shape == (2 * m, k), 'steering matrix of a vector sensor array {}', A.shape)
    else:
        A = ref_atoms(c['array'], perts, m, nominal(c['array'], a), s, c['wl'], 'all')
    E = A @ S.out[0]
    if N is not None:
        E = E + N.out[0]
    sc = 1 + float(np.max(np.abs(A))) * k * 5
    close(Y, E, 'snapshots', 0, 1e-8 * sc)
    if c['cov']:
        close(R, E @ E.conj().T / n, 'sample covariance', 0, 1e-7 * sc * sc)
        close(R, R.conj().T, 'sample covariance is not Hermitian', 0, 1e-12 * sc * sc)
    return '%s/%s%s' % (s['type'], c['nkind'], '/pert' if perts else '') if m > 1 and (n > 1 or N is not None) else None


cases = st.fixed_dictionaries(dict(array=any_array(), perts=st.one_of(st.just([]), pert_list(3)), src=any_sources(4), wl=wavelengths, seed=seeds, n=rarely(st.sampled_from([1, 2, 3, 10, 57]), st.sampled_from([150, 1025, 2500, 10001]), 12),
                                   skind=st.sampled_from(['complex', 'complex', 'real', 'int']), nkind=st.sampled_from(['complex', 'complex', 'real', 'int', 'none']),
                                   cov=st.booleans(), form=st.sampled_from(['all', 'kw']), element=st.integers(0, 5).map(lambda i: i == 0)))
SUBS = [Sub('model', cases, check_model, 3000)]
