"""Deterministic data alphabets (no randomness).  All base values are dyadic rationals so that
centring and constant columns are exact; positions are generic (no accidental ties)."""
import itertools
import numpy as np


def lcg(seed):
    s = (seed * 2654435761 + 12345) & 0xFFFFFFFF
    while True:
        s = (1664525 * s + 1013904223) & 0xFFFFFFFF
        yield (s >> 8) / float(1 << 24)


def table(n, p, seed=1, spread=4.0):
    """n x p generic table, values k/1024 in about [-spread, spread], bell shaped"""
    g = lcg(seed)
    for _ in range(7):
        next(g)
    X = np.empty((n, p))
    for i in range(n):
        for j in range(p):
            u = sum(next(g) for _ in range(6)) - 3.0
            X[i, j] = np.round(u * spread / 1.5 * 1024) / 1024
    return X


def response(X, seed=3, noise=0.25, coef=None):
    n, p = X.shape
    if coef is None:
        coef = np.array([2.0, -1.0, 0.5, 1.5, -0.75, 0.25, 1.0, -0.5] * 4)[:p]
    e = table(n, 1, seed + 100, 1.0).ravel()
    return np.round((X @ coef + noise * e + 1.25) * 1024) / 1024


def regression(n, p, seed=1, noise=0.5):
    X = table(n, p, seed)
    X = X + 0.25 * np.arange(p)          # columns with different locations
    X = X * (1 + np.arange(p) / 2.0)     # and scales
    X = np.round(X * 1024) / 1024
    y = response(X, seed, noise)
    return X, y


def all_tables(n, p, alphabet):
    for c in itertools.product(alphabet, repeat=n * p):
        yield np.array(c, dtype=float).reshape(n, p)


def bend(X, eps=1e-9):
    """tiny perturbation that maps equal values to equal values (keeps ties and constants),
    used as conditioning guard"""
    X = np.asarray(X, dtype=float)
    if X.ndim == 1:
        return X * (1 + eps) + eps * np.sin(3.7 * X)
    out = X.copy()
    for j in range(X.shape[1]):
        c = X[:, j]
        s = np.nanmax(np.abs(c)) if c.size else 1.0
        out[:, j] = c + eps * (s + 1e-12) * np.sin(2.3 * (j + 1) + 3.1 * c)
    return out
