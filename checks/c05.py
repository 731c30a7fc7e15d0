"""C05: no input drives the native solvers outside their memory (ASan/UBSan build of the real extensions)."""
BACKENDS = ()
OMP = 2
ASAN = True
import itertools

import numpy as np
import ot
import scipy.sparse as sp

from mc import instances as I
from mc.engine import Fail, Scope

ASSUMPTIONS = ("only accesses the ASan/UBSan runtime instruments are seen; numpy's own small-buffer cache can hide overflows of a few bytes",)
ACCEPT = (ValueError, AssertionError, IndexError, TypeError, ZeroDivisionError, AttributeError)


def shapes(tier):
    s = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (3, 3), (2, 5), (5, 5), (4, 7), (10, 10), (11, 1), (1, 17), (16, 16), (7, 23), (33, 31), (60, 12)]
    return s + [(100, 100), (128, 3), (3, 257), (200, 150)] if tier == "thorough" else s


def gen_dense(ctx):
    ctx.choose("shape", shapes(TIER))
    ctx.choose("cost", ["lcg", "ties", "zero", "neg", "const"])
    ctx.choose("a", ["uniform", "zeros", "dirac", "allzero", "negative"])
    ctx.choose("b", ["uniform", "zeros", "dirac"])


def W(kind, n, seed):
    if kind == "allzero":
        return np.zeros(n)
    if kind == "negative":
        w = np.ones(n) / n
        w[0] -= 2.0 / n
        w[-1] += 2.0 / n
        return w
    return I.weights(kind, n, seed)


def finite_ok(sig, *arrs):
    for x in arrs:
        if x is not None and np.asarray(x).size and np.isnan(np.asarray(x, float)).any():
            raise Fail(sig, "NaN in the result")


def run_dense(case):
    n, m = case["shape"]
    a, b = W(case["a"], n, 1), W(case["b"], m, 2)
    M = I.cost(case["cost"], n, m)
    inner = 0
    pots = (M.min(1), np.zeros(m)), (np.zeros(n), M.min(0)), (I.lcg(1, n) * 5, I.lcg(2, m) * -5)
    for threads in (1, 2, 3):
        for cap in (1, 2, 3, 7, 100000):
            if cap in (2, 7) and threads > 1:
                continue
            G, log = ot.emd(a, b, M, numItermax=cap, log=True, numThreads=threads, check_marginals=False)
            inner += 1
    for p in pots:
        for cap in (1, 2, 5, 100000):
            ot.emd(a, b, M, numItermax=cap, log=True, potentials_init=p, check_marginals=False)
            inner += 1
    ot.emd2(a, np.stack([b, np.ones(m) / m], 1), M, processes=1) if case["a"] != "allzero" else None
    return dict(inner=inner, states=inner, transitions=inner, outcome=case["cost"])


def gen_pots(ctx):
    ctx.choose("shape", [(1, 1), (3, 3), (9, 14), (40, 30)])
    ctx.choose("la", ["short", "ok", "long", "empty", "scalar", "2d", "strided"])
    ctx.choose("lb", ["short", "ok", "long", "empty", "2d", "strided"])
    ctx.choose("route", ["emd", "emd2", "lazy"])
    ctx.choose("w", ["uniform", "zeros"])
    ctx.choose("val", ["normal", "nan", "inf", "huge"])


def pot(kind, n, val):
    x = I.lcg(n, n) * {"normal": 1, "nan": 1, "inf": 1, "huge": 1e300}[val]
    if val in ("nan", "inf"):
        x[n // 2] = float(val)
    return {"short": x[: n // 2], "ok": x, "long": np.r_[x, x], "empty": x[:0], "scalar": np.float64(1.0), "2d": x[:, None],
            "strided": np.repeat(x, 2)[::2]}[kind]


def run_pots(case):
    n, m = case["shape"]
    a, b = I.weights(case["w"], n, 1), I.weights(case["w"], m, 2)
    X, Y = I.points("lcg", n, 3), I.points("signed", m, 3)
    M = ot.dist(X, Y)
    p = (pot(case["la"], n, case["val"]), pot(case["lb"], m, case["val"]))
    try:
        if case["route"] == "emd":
            ot.emd(a, b, M, potentials_init=p, numItermax=1000)
        elif case["route"] == "emd2":
            ot.emd2(a, b, M, potentials_init=p, numItermax=1000)
        else:
            ot.lp.emd2_lazy(X, Y, a, b, potentials_init=p, numItermax=1000)
    except ACCEPT as e:
        return type(e).__name__
    return "ok"


def gen_sparse(ctx):
    ctx.choose("shape", shapes(TIER))
    ctx.choose("pattern", ["full", "diag", "tri", "band", "emptyrows", "emptycols", "one", "none", "dup", "checker"])
    ctx.choose("cost", ["lcg", "neg", "zero"])
    ctx.choose("w", ["uniform", "zeros", "dirac", "allzero"])
    ctx.choose("fmt", ["coo", "csr"])


def run_sparse(case):
    n, m = case["shape"]
    i, j = np.arange(n)[:, None], np.arange(m)[None, :]
    p = case["pattern"]
    mask = {"full": i + j >= 0, "diag": i % m == j % n, "tri": i * m >= j * n, "band": abs(i - j) <= 1, "emptyrows": (i % 2 == 1) & (j >= 0),
            "emptycols": (j % 2 == 1) & (i >= 0), "one": (i == n - 1) & (j == m - 1), "none": i + j < 0, "dup": i + j >= 0,
            "checker": (i + j) % 2 == 0}[p]
    r, c = np.nonzero(mask & np.ones((n, m), bool))
    v = I.cost(case["cost"], n, m)[r, c]
    if p == "dup":
        r, c, v = np.r_[r, r], np.r_[c, c], np.r_[v, v]
    S = sp.coo_matrix((v, (r, c)), shape=(n, m))
    if case["fmt"] == "csr":
        S = S.tocsr()
    a, b = W(case["w"], n, 1), W(case["w"], m, 2)
    inner = 0
    for cap in (1, 2, 5, 100000):
        try:
            ot.emd(a, b, S, numItermax=cap, log=True, check_marginals=False)
            ot.emd2(a, b, S, numItermax=cap, log=True, return_matrix=True, check_marginals=False)
        except ACCEPT:
            pass
        inner += 1
    return dict(inner=inner, states=inner, transitions=inner, outcome=p)


def gen_lazy(ctx):
    ctx.choose("shape", shapes(TIER))
    ctx.choose("d", [0, 1, 2, 7])
    ctx.choose("pts", ["lcg", "same"])
    ctx.choose("w", ["uniform", "zeros", "dirac", "allzero"])
    ctx.choose("metric", ["sqeuclidean", "euclidean", "cityblock"])


def run_lazy(case):
    n, m = case["shape"]
    X = I.points(case["pts"], n, case["d"])
    Y = I.points(case["pts"], m, case["d"], 4)
    a, b = W(case["w"], n, 1), W(case["w"], m, 2)
    inner = 0
    for cap in (1, 2, 5, 100000):
        for lay in ("C", "F", "strided"):
            try:
                ot.lp.emd2_lazy(I.layout(X, lay), I.layout(Y, lay), I.layout(a, lay), I.layout(b, lay), metric=case["metric"], numItermax=cap, log=True)
            except ACCEPT:
                pass
            inner += 1
    return dict(inner=inner, states=inner, transitions=inner, outcome=case["metric"])


def gen_1d(ctx):
    n = ctx.choose("n", list(range(1, 8)) + [16, 33])
    ctx.choose("m", list(range(1, 8)) + [16, 33])
    ctx.choose("w", ["uniform", "zeros", "dirac", "spiky", "allzero", "bad"])
    ctx.choose("pts", ["lcg", "dup", "same", "nan"])


def run_1d(case):
    n, m = case["n"], case["m"]
    pk = "lcg" if case["pts"] == "nan" else case["pts"]
    x, y = I.points(pk, n, 1)[:, 0].copy(), I.points(pk, m, 1, 3)[:, 0].copy()
    if case["pts"] == "nan":
        x[0] = np.nan
    if case["w"] == "bad":  # masses that do not match
        a, b = np.ones(n), np.ones(m) * 0.25
    else:
        a, b = W(case["w"], n, 1), W(case["w"], m, 2)
    inner = 0
    for metric in ("sqeuclidean", "euclidean", "minkowski"):
        for aa, bb in ((a, b), (b if len(b) != len(a) else a, b)):
            try:
                ot.emd_1d(x, y, aa, bb, metric=metric, p=2.5, dense=False, log=True, check_marginals=False)
                ot.emd2_1d(x, y, aa, bb, metric=metric, p=0.5)
            except ACCEPT:
                pass
            inner += 1
    ks = [None] + list(range(0, min(n, m) + 2))
    for k in ks:
        for p in (1, 2, 3):
            try:
                ot.partial.partial_wasserstein_1d(x, y, k, p)
            except ACCEPT:
                pass
            inner += 1
    return dict(inner=inner, states=inner, transitions=inner, outcome=case["w"])


def gen_p1d(ctx):
    ctx.choose("n", [1, 2, 3, 4, 5] + ([6] if TIER == "thorough" else []))
    ctx.choose("m", [1, 2, 3, 4, 5] + ([6] if TIER == "thorough" else []))
    ctx.choose("p", [1, 2])


def run_p1d(case):
    """every interleaving of n source and m target points on the line, with every tie pattern of two"""
    n, m, p = case["n"], case["m"], case["p"]
    inner = 0
    for pos in itertools.combinations(range(n + m), n):
        xs = np.array(pos, float)
        ys = np.array([k for k in range(n + m) if k not in pos], float)
        for sc in (1.0, 0.5):  # 0.5 with floor: pairs of points coincide
            x, y = (xs, ys) if sc == 1.0 else (np.floor(xs * sc), np.floor(ys * sc))
            for k in list(range(1, min(n, m) + 1)):
                ia, ib, mc = ot.partial.partial_wasserstein_1d(x, y, k, p)
                inner += 1
                if len(ia) != len(ib) or len(set(ia.tolist())) != len(ia) or (len(ia) and (ia.min() < 0 or ia.max() >= n)):
                    raise Fail("p1d:index", "invalid index sets %r %r" % (ia, ib))
                if len(ib) and (ib.min() < 0 or ib.max() >= m):
                    raise Fail("p1d:index", "invalid index sets %r %r" % (ia, ib))
    return dict(inner=inner, states=inner, transitions=inner, outcome=(n, m))


def scopes(tier):
    global TIER
    TIER = tier
    return [
        Scope("dense", gen_dense, run_dense, doc="all shapes x costs x weight kinds (valid and invalid), 1-3 threads, interrupted at several pivots, warm starts"),
        Scope("potentials", gen_pots, run_pots, doc="warm-start potentials of every wrong shape and special value"),
        Scope("sparse", gen_sparse, run_sparse),
        Scope("lazy", gen_lazy, run_lazy),
        Scope("1d", gen_1d, run_1d),
        Scope("partial-1d", gen_p1d, run_p1d, doc="all interleavings of two point sets"),
    ]
