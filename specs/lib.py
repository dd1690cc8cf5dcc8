"""Helpers for obligations (abstractly interpreted, like the repository's code)."""
import numpy as np


def pick(a, k):
    if isinstance(a, np.ndarray) or isinstance(a, list):
        return a[k]
    return a


def each(ref, n, *args):
    """scalar reference applied element by element; tuples of results become tuples of lists"""
    rs = [ref(*[pick(a, k) for a in args]) for k in range(n)]
    if isinstance(rs[0], tuple):
        return tuple([r[j] for r in rs] for j in range(len(rs[0])))
    return rs


def vti6(a, b, c, d, e):
    """C11, C33, C13, C44, C66"""
    f = a - 2*e
    return np.array([[a, f, c, 0, 0, 0], [f, a, c, 0, 0, 0], [c, c, b, 0, 0, 0], [0, 0, 0, d, 0, 0], [0, 0, 0, 0, d, 0], [0, 0, 0, 0, 0, e]])


def hti6(a, b, c, d, e):
    """C11, C33, C13, C44, C55"""
    f = b - 2*d
    return np.array([[a, c, c, 0, 0, 0], [c, b, f, 0, 0, 0], [c, f, b, 0, 0, 0], [0, 0, 0, d, 0, 0], [0, 0, 0, 0, e, 0], [0, 0, 0, 0, 0, e]])


def svti6(a, b, c, d, e):
    """S11, S33, S13, S44, S66"""
    f = a - e/2
    return np.array([[a, f, c, 0, 0, 0], [f, a, c, 0, 0, 0], [c, c, b, 0, 0, 0], [0, 0, 0, d, 0, 0], [0, 0, 0, 0, d, 0], [0, 0, 0, 0, 0, e]])


def rows(r, k):
    """k-th element of every array in a result"""
    if isinstance(r, tuple):
        return tuple([rows(x, k) for x in r])
    if isinstance(r, np.ndarray):
        if r.ndim > 0:
            return r[k]
    return r


def lens(r, n):
    """every array in the result has n elements along its first and only axis"""
    if isinstance(r, tuple):
        return all([lens(x, n) for x in r])
    if isinstance(r, np.ndarray):
        return r.shape == () or r.shape == (n,)
    return True
