"""Scenario generator and evaluation shared by the Cramer-Rao checks."""
from hypothesis import strategies as st

from .common import *
from .crbref import *

KINDS = ['sto', 'det', 'stouc']


@st.composite
def scen(draw, max_k=4, uncorrelated=False):
    # Now and then a large array and many sources.
    large = draw(st.integers(0, 11)) == 11
    arr = draw(st.one_of(ulas(26, 14, fl(0.4, 0.5)), ulas(40, 20, fl(0.3, 0.5)), sparse1d(fl(0.4, 0.5))) if large else st.one_of(ulas(9, 2, fl(0.2, 0.7)), sparse1d(fl(0.3, 0.6), small=True), planar(3), generic_arrays(min_m=2, max_m=8)))
    m = array_size(arr)
    unit = draw(st.sampled_from(['rad', 'deg', 'sin']))
    k = draw(st.integers(max_k, 9) if large else st.integers(1, max_k))
    s = separated(draw, k, -0.93, 0.93, 0.12)
    loc = {'rad': [math.asin(v) for v in s], 'deg': [math.degrees(math.asin(v)) for v in s], 'sin': s}[unit]
    order = draw(st.permutations(range(k)))
    return {'array': arr, 'perts': draw(st.one_of(st.just([]), pert_list(3))), 'unit': unit, 'loc': [loc[i] for i in order],
            'wl': draw(st.sampled_from([1.0, 1.0, 0.7, 2.0])), 'seed': draw(seeds), 'snr': draw(logfl(0.1, 1e3)), 'scale': draw(st.sampled_from([1.0, 1.0, 1e-3, 1e3])),
            'spread': draw(st.sampled_from([0, 0, 0, 2, 4])), 'corr': draw(st.booleans()), 'n': draw(st.sampled_from([1, 2, 10, 100, 1000])), 'mode': draw(st.sampled_from([None, 'full', 'diag', 'mean_diag']))}


class Setup:
    def __init__(self, c):
        self.m = array_size(c['array'])
        self.k = len(c['loc'])
        self.array = build_array(c['array'], c['perts'])
        self.nom = nominal(c['array'], self.array)
        self.src = build_sources({'type': 'far1d', 'unit': c['unit'], 'loc': c['loc']})
        a = (c['array'], c['perts'], self.m, self.nom, c['unit'], c['loc'], c['wl'])
        self.A, self.D = atoms_at(*a), datoms(*a)
        r = rs(c['seed'])
        self.p = r.uniform(0.3, 2.0, self.k) * c['scale']
        self.P = (herm_pd(r, self.k, 0.2) if c['corr'] else np.diag(r.uniform(0.3, 2.0, self.k)).astype(complex)) * c['scale']
        if c.get('spread'):
            # Sources of very different powers.
            w = 10.0 ** (-c['spread'] * r.rand(self.k))
            self.p = self.p * w
            self.P = np.sqrt(np.outer(w, w)) * self.P
        self.sigma = c['scale'] / c['snr']


def reduced(X, mode):
    return X if mode in (None, 'full') else np.diag(X) if mode == 'diag' else np.mean(np.diag(X))


def compare(got, ref, cond, mode, what):
    """Relative comparison in units of the bound's own standard deviations."""
    d = np.sqrt(np.diag(ref))
    tol = 1e-7 + 1e-12 * cond
    if mode in (None, 'full'):
        require(np.shape(got) == ref.shape, '{}: shape {}', what, np.shape(got))
        close(np.asarray(got) / np.outer(d, d), ref / np.outer(d, d), what, 0, tol)
        close(got / np.outer(d, d), np.asarray(got).T / np.outer(d, d), what + ' (symmetry)', 0, 1e-9 + 1e-12 * cond)
    else:
        e = reduced(ref, mode)
        require(np.shape(got) == np.shape(e), '{}: shape {}', what, np.shape(got))
        close(np.asarray(got) / e, np.ones(np.shape(e)), what, 0, tol)
