"""Shared material for estimator checks: scenarios, covariance matrices and reference spectra."""
import math

import numpy as np
from hypothesis import strategies as st

from .common import *
from .props.p13_grids import grid_spec, build_grid, ref_axes


def grid_sources(g):
    """Reference source spec of the grid points (first axis slowest)."""
    e = ref_axes(g)
    if len(e) == 1:
        return {'type': 'far1d', 'unit': g['unit'], 'loc': list(e[0])}
    return {'type': 'near2d' if g['unit'] == 'm' else 'far2d', 'unit': g['unit'],
            'loc': [[x, y] for x in e[0] for y in e[1]]}


def axes_sources(g, axes):
    if len(axes) == 1:
        return {'type': 'far1d', 'unit': g['unit'], 'loc': list(axes[0])}
    return {'type': 'near2d' if g['unit'] == 'm' else 'far2d', 'unit': g['unit'],
            'loc': [[x, y] for x in axes[0] for y in axes[1]]}


def ref_atoms(spec, perts, m, nom, src, wl, which='known'):
    """Steering matrix from first principles, with known imperfections by default."""
    return ref_perturb(perts, m, ref_steering(apply_ref_perts(perts, m, nom, which), src, wl), which)


def eig_cov(seed, m, k, snr=20.0):
    """Random Hermitian matrix with k dominant eigenvalues."""
    r = rs(seed)
    q, _ = np.linalg.qr(randc(r, m, m))
    lam = np.concatenate((r.uniform(0.5, 1.0, m - k), np.sort(r.uniform(0.5, 1.0, k)) * snr))
    R = (q * lam) @ q.conj().T
    return 0.5 * (R + R.conj().T)


def indefinite(R, case):
    """Now and then (not for MVDR) a Hermitian matrix with negative eigenvalues, such as direct augmentation produces."""
    s = case['seed'] if 'seed' in case else case['cov']['seed']
    if case['method'] == 'mvdr' or s % 5:
        return R
    return R - (0.3, 1.1, 3.0)[s // 5 % 3] * np.linalg.norm(R, 2) * np.eye(R.shape[0])


def noise_projector(R, k):
    """Projector onto the noise subspace, relative eigenvalue gap."""
    v, E = np.linalg.eigh(R)
    m = len(v)
    gap = (v[m - k] - v[m - k - 1]) / max(abs(v[-1]), abs(v[0]), 1e-300)
    S = E[:, m - k:]
    return np.eye(m) - S @ S.conj().T, gap


def quad(A, Q):
    return np.einsum('ij,ik,kj->j', A.conj(), Q, A).real


def ref_null(method, A, R, k):
    """Reciprocal of the reference spectrum (Bartlett: the spectrum itself) and its tolerance."""
    a2 = float(np.max(np.sum(np.abs(A) ** 2, axis=0)))
    if method == 'bartlett':
        return quad(A, R), 1e-11 * a2 * np.linalg.norm(R, 2)
    if method == 'mvdr':
        w = np.linalg.eigvalsh(R)
        if w[0] <= 3e-12 * w[-1]:
            raise Skip()
        return quad(A, np.linalg.inv(R)), a2 / w[0] * (1e-11 + 1e-14 * w[-1] / w[0])
    P, gap = noise_projector(R, k)
    if gap < 1e-4:
        raise Skip()
    if method == 'music':
        return quad(A, P), 1e-11 * a2 / gap
    p = P[0, 0].real
    if p < 1e-3:
        raise Skip()
    d = P[:, 0] / p  # minimum-norm vector of the noise subspace with first entry one
    v = np.abs(d.conj() @ A) ** 2
    return v, 1e-10 * a2 / gap / p ** 2


def close_spectrum(method, sp, null, tol, what):
    got = sp if method == 'bartlett' else 1.0 / sp
    close(got, null, what, 0, tol)


def estimator(method, array, wl, grid, **kw):
    from doatools import estimation as E
    cls = {'bartlett': E.BartlettBeamformer, 'mvdr': E.MVDRBeamformer, 'music': E.MUSIC, 'minnorm': E.MinNorm}[method]
    return cls(array, wl, grid, **kw)


METHODS = ['bartlett', 'mvdr', 'music', 'minnorm']

# How a covariance matrix is handed over: the reference always sees the same values in double precision.
FORMS = ['plain', 'plain', 'nearreal', 'fortran', 'view', 'readonly', 'real', 'real', 'realview', 'int', 'c64', 'f32', 'tiny', 'huge', 'npk']
EXACT_FORMS = [f for f in FORMS if f not in ('c64', 'f32')]


def store(R, form):
    """The same values in another memory layout."""
    if form == 'fortran':
        return np.asfortranarray(R)
    if form in ('view', 'realview'):
        big = np.full(tuple(2 * n + 1 for n in R.shape), 7, dtype=R.dtype)
        v = big[tuple(slice(1, None, 2) for _ in R.shape)]
        v[...] = R
        return v
    R = R.copy()
    if form == 'readonly':
        R.setflags(write=False)
    return R


def present(R, seed, forms=FORMS):
    """(reference values, what is passed, tolerance factor, form) of a Hermitian matrix, chosen by the seed."""
    form = forms[(seed // 5) % len(forms)]
    loose = 1.0
    if form in ('real', 'realview', 'int', 'f32'):
        # A real matrix with the same eigenvalues.
        q, _ = np.linalg.qr(rs(seed + 77).randn(*R.shape))
        R = (q * np.linalg.eigvalsh(R)) @ q.T
        R = 0.5 * (R + R.T)
        if form == 'int':
            R = np.round(R * (1e5 / np.max(np.abs(R)))).astype(int)
    elif form == 'nearreal':
        # Almost a real matrix.
        d = np.exp(10.0 ** -(2 + seed // 70 % 5) * 1j * rs(seed + 78).randn(len(R)))
        q, _ = np.linalg.qr(rs(seed + 77).randn(*R.shape))
        R = ((q * np.linalg.eigvalsh(R)) @ q.T) * np.outer(d, d.conj())
        R = 0.5 * (R + R.conj().T)
    elif form == 'tiny':
        R = R * 2.0 ** -40
    elif form == 'huge':
        R = R * 2.0 ** 40
    if form in ('c64', 'f32'):
        P = R.astype(np.complex64 if form == 'c64' else np.float32)
        return P.astype(complex if form == 'c64' else float), P, 1e6, form
    return (R.astype(float) if form == 'int' else R), store(R, form), loose, form


def as_k(k, form):
    """The number of sources, as a numpy integer in some cases."""
    return np.int64(k) if form in ('npk', 'view', 'int') else k
