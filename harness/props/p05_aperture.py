from hypothesis import strategies as st

from ..common import *
from ..core import Sub

ID = 'P05'
TITLE = 'Sparse designs deliver their guaranteed contiguous coarray aperture'
PROP = {
    'statement': 'A nested (N1, N2) array has a hole-free difference coarray with exactly N2(N1+1) contiguous nonnegative lags; a co-prime array with the doubled subarray has at least MN+M, and one without it at least M+N. Every minimum redundancy preset from 1 to 20 elements is available, has that many distinct elements and a hole-free coarray whose aperture is optimal up to 9 elements and no smaller than the published construction beyond. The virtual uniform array derived from any of them has exactly that many elements at the same base spacing.',
    'quantifier': {'over': ['inputs', 'configurations'], 'text': 'all admissible design parameters'},
    'why_tests_cant': 'Tests compare stored element positions of single instances; the degrees-of-freedom guarantee is a statement over the whole parameter family.',
    'anchors': {'files': ['doatools/model/arrays.py', 'doatools/model/coarray.py', 'doatools/estimation/coarray.py'],
                'mechanism': [{'name': 'element index formulas and MRLA presets', 'where': 'doatools/model/arrays.py'}],
                'observe_at': ['WeightFunction1D.get_central_ula_size', 'CoarrayACMBuilder1D.get_virtual_ula']},
}
RULE = ('Design parameters are generated (all presets, pairs in both orders); the coarray is enumerated. Non-trivial: '
        'every case.')


@st.composite
def wide(draw):
    k = draw(st.sampled_from(['nested', 'nested', 'nested', 'coprime', 'coprime', 'coprime', 'mrla']))
    d0 = draw(logfl(0.1, 3.0))
    if k == 'nested':
        return {'kind': k, 'n1': draw(st.integers(1, 25)), 'n2': draw(st.integers(1, 25)), 'd0': d0}
    if k == 'coprime':
        p = draw(st.sampled_from(coprime_pairs(17)))
        if draw(st.integers(0, 3)) == 0:
            p = (p[1], p[0])
        return {'kind': k, 'm': p[0], 'n': p[1], 'd0': d0, 'mode': draw(st.sampled_from(['2m', 'm']))}
    return {'kind': k, 'd0': d0}  # all presets


def check_aperture(case):
    """Guaranteed contiguous coarrays of the standard sparse designs."""
    from doatools.model.coarray import WeightFunction1D
    spec = case
    if case['kind'] == 'mrla' and 'one' not in case:
        for n in range(1, 21):
            check_aperture({'kind': 'mrla', 'n': n, 'd0': case['d0'], 'one': 1})
        return 'mrla'
    from doatools.estimation.coarray import CoarrayACMBuilder1D
    a = build_array(spec)
    same(np.unique(a.element_indices).size, a.size, 'number of distinct positions')
    w = WeightFunction1D(a)
    mv = w.get_central_ula_size(True)
    k = spec['kind']
    if k == 'nested':
        e = spec['n2'] * (spec['n1'] + 1)
        require(mv == e, 'nested({},{}) has {} contiguous lags instead of {}', spec['n1'], spec['n2'], mv, e)
        require(len(w) == 2 * e - 1, 'nested coarray is not hole-free')
    elif k == 'coprime':
        m, n = sorted((spec['m'], spec['n']))
        if spec['mode'].lower() == '2m':
            require(mv >= m * n + m, 'co-prime 2m ({},{}): {} contiguous lags < mn+m', m, n, mv)
        else:
            require(mv >= m + n or m * n < m + n, 'co-prime m ({},{}): {} contiguous lags < m+n', m, n, mv)
    elif k == 'mrla':
        i = a.element_indices[:, 0]
        ap = int(i.max() - i.min())
        require(mrla_ok(spec['n'], ap), 'MRLA({}) has aperture {}', spec['n'], ap)
        require(mv == ap + 1 and len(w) == 2 * mv - 1, 'MRLA({}): only {} contiguous lags, aperture {}', spec['n'], mv, ap)
        require(a.size == spec['n'] and len(set(i.tolist())) == spec['n'], 'MRLA({}) has wrong elements', spec['n'])
    b = CoarrayACMBuilder1D(a)
    require(b.output_size == mv and b.input_size == a.size, 'augmented covariance size {}', b.output_size)
    v = b.get_virtual_ula()
    close(v.element_locations, np.arange(mv)[:, None] * spec['d0'], 'virtual ULA', 1e-12)
    return k


SUBS = [Sub('aperture', wide(), check_aperture, 1600)]
