"""Reference Fisher information matrices, built numerically from first principles."""
import math

import numpy as np

from .common import *
from .est import ref_atoms


def atoms_at(spec, perts, m, nom, unit, loc, wl, which='all'):
    return ref_atoms(spec, perts, m, nom, {'type': 'far1d', 'unit': unit, 'loc': [float(v) for v in loc]}, wl, which)


def datoms(spec, perts, m, nom, unit, loc, wl, which='all'):
    """Derivative of each column by its own location, in the unit of the sources."""
    loc = np.asarray(loc, dtype=float)
    if unit == 'sin':
        du = np.vstack((np.ones(loc.size), -loc / np.sqrt((1 - loc) * (1 + loc)), np.zeros(loc.size)))
    else:
        q = 1.0 if unit == 'rad' else math.pi / 180
        du = q * np.vstack((np.cos(loc * q), -np.sin(loc * q), np.zeros(loc.size)))
    x = apply_ref_perts(perts, m, nom, which)
    A = ref_steering(x, {'type': 'far1d', 'unit': unit, 'loc': [float(v) for v in loc]}, wl)
    return ref_perturb(perts, m, 2j * math.pi / wl * (pad3(x) @ du) * A, which)


def slepian_bangs(R, dR):
    Ri = np.linalg.inv(R)
    B = [Ri @ d for d in dR]
    n = len(B)
    F = np.zeros((n, n))
    for i in range(n):
        for j in range(i + 1):
            F[i, j] = F[j, i] = np.einsum('ab,ba->', B[i], B[j]).real
    return F


def block_inverse(F, k):
    """Leading k x k block of the inverse, with the condition number of the scaled FIM
    (infinite when it is numerically singular)."""
    g = np.diag(F)
    if not np.all(np.isfinite(F)) or np.min(g) <= 1e-200:
        return None, math.inf
    d = 1.0 / np.sqrt(g)
    S = F * np.outer(d, d)
    c = np.linalg.cond(S)
    if not c < 1e12:
        return None, math.inf
    return np.linalg.inv(S)[:k, :k] * np.outer(d[:k], d[:k]), c


def well_posed(A, D):
    """Ratio of the derivative energy that is left outside of span(A), and conditioning of A."""
    n = np.linalg.norm(A, axis=0)
    sv = np.linalg.svd(A / n, compute_uv=False)
    if A.shape[1] > A.shape[0] or sv[-1] < 1e-3:
        return 0.0
    Q, _ = np.linalg.qr(A)
    W = D - Q @ (Q.conj().T @ D)
    return float(np.min(np.linalg.norm(W, axis=0) / np.maximum(np.linalg.norm(D, axis=0), 1e-300)))


def movement(A, D):
    """Smallest relative change of a_i a_i^H when a source moves."""
    out = []
    for i in range(A.shape[1]):
        T = np.outer(D[:, i], A[:, i].conj())
        out.append(np.linalg.norm(T + T.conj().T) / max(np.linalg.norm(T), 1e-300))
    return min(out)


def fim_sto(A, D, P, sigma):
    m, k = A.shape
    R = A @ P @ A.conj().T + sigma * np.eye(m)
    dR = []
    for i in range(k):
        T = np.outer(D[:, i], P[i, :] @ A.conj().T)
        dR.append(T + T.conj().T)
    for i in range(k):
        for j in range(i + 1):
            if i == j:
                dR.append(np.outer(A[:, i], A[:, i].conj()))
            else:
                T = np.outer(A[:, i], A[:, j].conj())
                dR.append(T + T.conj().T)
                dR.append(1j * (T - T.conj().T))
    dR.append(np.eye(m))
    return slepian_bangs(R, dR)


def fim_stouc(A, D, p, sigma):
    m, k = A.shape
    R = (A * p) @ A.conj().T + sigma * np.eye(m)
    dR = []
    for i in range(k):
        T = p[i] * np.outer(D[:, i], A[:, i].conj())
        dR.append(T + T.conj().T)
    for i in range(k):
        dR.append(np.outer(A[:, i], A[:, i].conj()))
    dR.append(np.eye(m))
    return slepian_bangs(R, dR)


def fim_det(A, D, S, sigma):
    """Unknown deterministic signals S (k x n): parameters theta, Re S, Im S."""
    m, k = A.shape
    n = S.shape[1]
    J = np.zeros((m * n, k + 2 * k * n), dtype=complex)
    for t in range(n):
        rows = slice(t * m, (t + 1) * m)
        J[rows, :k] = D * S[:, t]
        c = k + 2 * k * t
        J[rows, c:c + k] = A
        J[rows, c + k:c + 2 * k] = 1j * A
    return 2.0 / sigma * (J.conj().T @ J).real
