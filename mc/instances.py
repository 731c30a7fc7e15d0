"""Enumerated input alphabets shared by the checks (deterministic, no randomness)."""
import functools
import itertools

import numpy as np


@functools.lru_cache(maxsize=None)
def vertices(a, b):
    """All vertices of the transportation polytope U(a, b), integer a, b (exact)."""
    n, m = len(a), len(b)
    rows = [i for i in range(n) if a[i] > 0]
    cols = [j for j in range(m) if b[j] > 0]
    out = set()

    # enumerate by branching on greedy "min" assignments: every vertex is reached by
    # some elimination order of its spanning forest leaves
    seen = set()

    def rec(ra, rb, alloc):
        key = (ra, rb, alloc)
        if key in seen:
            return
        seen.add(key)
        if not any(ra):
            out.add(alloc)
            return
        for i in rows:
            if ra[i] == 0:
                continue
            for j in cols:
                if rb[j] == 0:
                    continue
                x = min(ra[i], rb[j])
                na = ra[:i] + (ra[i] - x,) + ra[i + 1:]
                nb = rb[:j] + (rb[j] - x,) + rb[j + 1:]
                k = i * m + j
                rec(na, nb, alloc[:k] + (x,) + alloc[k + 1:])

    rec(tuple(a), tuple(b), (0,) * (n * m))
    return np.array(sorted(out), dtype=np.int64)


@functools.lru_cache(maxsize=None)
def all_costs(n, m, alphabet):
    return np.array(list(itertools.product(alphabet, repeat=n * m)), dtype=np.int64)


@functools.lru_cache(maxsize=None)
def optimal_costs(a, b, alphabet):
    """Exact optimal cost for every cost matrix over the alphabet, at once."""
    V = vertices(a, b)
    C = all_costs(len(a), len(b), alphabet)
    return (C @ V.T).min(1)


def lcg(seed, n):
    """n deterministic numbers in (0,1), the same on every platform."""
    x = (seed * 2654435761 + 12345) % (1 << 31)
    out = np.empty(n)
    for i in range(n):
        x = (1103515245 * x + 12345) % (1 << 31)
        out[i] = (x + 0.5) / (1 << 31)
    return out


def weights(kind, n, seed=1):
    """Histograms of total mass 1."""
    if kind == "uniform":
        return np.ones(n) / n
    if kind == "ramp":
        w = np.arange(1, n + 1, dtype=float)
    elif kind == "lcg":
        w = 0.1 + lcg(seed + 7 * n, n)
    elif kind == "zeros":  # some exact zeros, first and last included when possible
        w = 1.0 + np.arange(n) % 3
        if n > 1:
            w[::3] = 0
        if n > 4:
            w[-1] = 0
    elif kind == "zero_end":
        w = 1.0 + np.arange(n) % 2
        if n > 1:
            w[-1] = 0
    elif kind == "dirac":
        w = np.zeros(n)
        w[n // 2] = 1
    elif kind == "spiky":
        w = np.where(np.arange(n) % 2 == 0, 1.0, 1e-4)
    elif kind == "dyadic":
        w = 2.0 ** -(np.arange(n) % 5)
    else:
        raise KeyError(kind)
    return w / w.sum()


def cost(kind, n, m, seed=1):
    i, j = np.arange(n)[:, None], np.arange(m)[None, :]
    if kind == "lcg":
        return lcg(seed + 31 * n + m, n * m).reshape(n, m)
    if kind == "line":
        return (i / max(n, 1) - j / max(m, 1)) ** 2 + 0.0
    if kind == "absline":
        return np.abs(i * 2.0 - j * 3.0)
    if kind == "ties":
        return ((i * 3 + j * 5) % 4).astype(float)
    if kind == "const":
        return np.full((n, m), 2.0)
    if kind == "zero":
        return np.zeros((n, m))
    if kind == "neg":
        return -lcg(seed + 17 * n + m, n * m).reshape(n, m) * 5
    if kind == "mixed":
        return 10 * lcg(seed + 13 * n + m, n * m).reshape(n, m) - 5
    if kind == "big":
        return 1e4 * lcg(seed + 3 * n + m, n * m).reshape(n, m)
    if kind == "tiny":
        return 1e-4 * lcg(seed + 5 * n + m, n * m).reshape(n, m)
    if kind == "negconst":
        return np.full((n, m), -10.0)
    if kind == "rank1":
        return (i + 1.0) * (j + 1.0)
    if kind == "antirank1":
        return -(i + 1.0) * (j + 1.0)
    if kind == "intcost":
        return ((i * i * 7 + j * 11 + i * j) % 13).astype(float)
    raise KeyError(kind)


def points(kind, n, d, seed=1):
    if kind == "lcg":
        return lcg(seed + 101 * n + d, n * d).reshape(n, d)
    if kind == "grid":
        return np.array([[((i * (k + 2) + k) % 5) * 1.0 for k in range(d)] for i in range(n)]).reshape(n, d)
    if kind == "dup":
        return np.array([[((i // 2) + k) % 3 * 1.0 for k in range(d)] for i in range(n)]).reshape(n, d)
    if kind == "shifted":
        return 2.0 + lcg(seed + 57 * n + d, n * d).reshape(n, d)
    if kind == "signed":
        return 4 * lcg(seed + 11 * n + d, n * d).reshape(n, d) - 2
    if kind == "same":
        return np.ones((n, d))
    raise KeyError(kind)


LAYOUTS = ["C", "F", "strided", "reversed", "view"]


def layout(x, how):
    """The same values in another memory layout."""
    x = np.asarray(x)
    if how == "C":
        return np.ascontiguousarray(x).copy()
    if how == "F":
        return np.asfortranarray(x).copy(order="F")
    if how == "strided":
        big = np.zeros(tuple(2 * s for s in x.shape), dtype=x.dtype)
        sl = tuple(slice(None, None, 2) for _ in x.shape)
        big[sl] = x
        return big[sl]
    if how == "reversed":
        sl = tuple(slice(None, None, -1) for _ in x.shape)
        return np.ascontiguousarray(x[sl])[sl]
    if how == "view":
        big = np.full(tuple(s + 2 for s in x.shape), 7, dtype=x.dtype)
        sl = tuple(slice(1, -1) for _ in x.shape)
        big[sl] = x
        return big[sl]
    raise KeyError(how)
