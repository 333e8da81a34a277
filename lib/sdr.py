"""Reference definitions of the slicing and moment based sufficient dimension reduction methods (Li, 2018)."""
import numpy as np


def slices(y, h):
    """ordered slice number (from 1): cut points at every floor(n/h)-th order statistic"""
    y = np.asarray(y, float).ravel()
    n = len(y)
    m = n // h
    s = sorted(y)
    cuts = [s[i * m] for i in range(1, h)]
    return np.array([1 + sum(1 for c in cuts if v >= c) for v in y])


def cov(Z):
    n = len(Z)
    C = Z - np.array([sum(c) / n for c in Z.T])
    return sum(np.outer(r, r) for r in C) / (n - 1)


def root(S, power):
    w, V = np.linalg.eigh((S + S.T) / 2)
    return V @ np.diag(w ** power) @ V.T


def kernel(method, Z, y, labels=None, hessian=True):
    n, p = Z.shape
    y = np.asarray(y, float).ravel()
    I = np.eye(p)
    if method in ("sir", "save", "dr"):
        parts = []
        for l in sorted(set(labels.tolist())):
            R = Z[labels == l]
            m = R.sum(axis=0) / len(R)
            V = cov(R) if len(R) > 1 else I
            parts.append((len(R) / n, m, V))
        if method == "sir":
            return sum(q * np.outer(m, m) for q, m, V in parts)
        if method == "save":
            return sum(q * (V - I) @ (V - I) for q, m, V in parts)
        A = sum(q * (V + np.outer(m, m)) @ (V + np.outer(m, m)) for q, m, V in parts)
        B = sum(q * np.outer(m, m) for q, m, V in parts)
        return 2 * A + 2 * B @ B + 2 * np.trace(B) * B - 2 * I
    yc = y - y.sum() / n
    H = sum(yc[i] * np.outer(Z[i], Z[i]) for i in range(n)) / n
    if method == "phd":
        return H
    Zc = Z - Z.sum(axis=0) / n
    b = Zc.T @ yc / (n - 1)
    K = H if hessian else cov(Z)
    cols = [b]
    for _ in range(1, p):
        cols.append(K @ cols[-1])
    M = np.column_stack(cols)
    return M @ M.T


def leading(K, tol=1e-7):
    """eigenvectors by decreasing eigenvalue, and the set of k for which the leading k-space is well determined"""
    w, V = np.linalg.eigh((K + K.T) / 2)
    w, V = w[::-1], V[:, ::-1]
    span = max(abs(w)) or 1.0
    ok = [False] + [bool(k == len(w) or (w[k - 1] - w[k]) > tol * span) for k in range(1, len(w) + 1)]
    return w, V, ok


def proj(P):
    Q, _ = np.linalg.qr(np.asarray(P, float))
    return Q @ Q.T
