"""C06: one-dimensional OT is exact."""
BACKENDS = ()
OMP = 1
import itertools

import numpy as np
import ot

from mc import instances as I
from mc import oracle
from mc.engine import Fail, Scope

ASSUMPTIONS = ("positions are floating point (integer position arrays are documented as unsupported)", "small scopes use an exact enumeration of all vertices of the transportation polytope, larger ones HiGHS",)
GRID = (0, 1, 3)


def pairs(tier):
    out = []
    shapes = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3)] + ([(3, 4), (4, 3), (4, 4)] if tier == "thorough" else [])
    for n, m in shapes:
        T = {1: 2, 2: 4, 3: 5, 4: 5}[max(n, m)]
        if (n, m) == (3, 3):
            T = 4
        if max(n, m) == 4:
            T = 4
        for a in oracle.compositions(T, n):
            for b in oracle.compositions(T, m):
                out.append((a, b))
    return out


def gen_int(ctx):
    ctx.choose("pair", pairs(TIER))
    ctx.choose("p", [1, 2, 3])


def run_int(case):
    a, b = case["pair"]
    p = case["p"]
    n, m = len(a), len(b)
    T = float(sum(a))
    V = I.vertices(tuple(a), tuple(b))
    g = GRID if max(n, m) < 4 else (0, 2)
    xs = np.array(list(itertools.product(g, repeat=n)), float)
    ys = np.array(list(itertools.product(g, repeat=m)), float)
    X = np.repeat(xs, len(ys), 0)
    Y = np.tile(ys, (len(xs), 1))
    C = np.abs(X[:, :, None] - Y[:, None, :]) ** p
    want = (C.reshape(len(X), -1) @ V.T).min(1) / T
    af, bf = np.array(a) / T, np.array(b) / T
    # batched over all placements at once
    got = ot.wasserstein_1d(np.ascontiguousarray(X.T), np.ascontiguousarray(Y.T), af, bf, p=p)
    bad = np.flatnonzero(np.abs(got - want) > 1e-9 * (1 + want))
    if len(bad):
        k = bad[0]
        raise Fail("1d:wasserstein:batched", "x=%s y=%s a=%s b=%s p=%d: %r, optimum %r" % (X[k], Y[k], a, b, p, got[k], want[k]))
    W2 = np.tile(af[:, None], (1, len(X)))
    got2, plans = ot.wasserstein_1d(X.T.copy(), Y.T.copy(), W2, bf, p=p, return_plans=True)
    if np.abs(got2 - got).max() > 1e-12:
        raise Fail("1d:wasserstein:weights2d", "weights given per batch column change the value")
    for k in range(0, len(X), 1 if TIER == "thorough" or len(X) <= 81 else 7):
        G = plans[k].toarray()
        oracle.check_coupling(Fail, "1d:plan", G, af, bf)
        if abs((G * C[k]).sum() - want[k]) > 1e-9 * (1 + want[k]):
            raise Fail("1d:plan:cost", "x=%s y=%s a=%s b=%s p=%d: plan costs %r, optimum %r" % (X[k], Y[k], a, b, p, (G * C[k]).sum(), want[k]))
    metric = {1: "cityblock", 2: "sqeuclidean", 3: "minkowski"}[p]
    for k in range(0, len(X), 1 if TIER == "thorough" or len(X) <= 81 else 4):
        G, log = ot.emd_1d(X[k], Y[k], af, bf, metric=metric, p=p, log=True)
        what = "x=%s y=%s a=%s b=%s metric=%s" % (X[k], Y[k], a, b, metric)
        oracle.check_coupling(Fail, "1d:emd", G, af, bf)
        if abs((G * C[k]).sum() - want[k]) > 1e-9 * (1 + want[k]) or abs(log["cost"] - want[k]) > 1e-9 * (1 + want[k]):
            raise Fail("1d:emd:cost", "%s: plan %r, log %r, optimum %r" % (what, (G * C[k]).sum(), log["cost"], want[k]))
        if k % 8 == 0:
            v = ot.emd2_1d(X[k][:, None], Y[k], af, bf, metric=metric if p != 1 else "euclidean", p=p)
            if abs(v - want[k]) > 1e-9 * (1 + want[k]):
                raise Fail("1d:emd2:cost", "%s: %r, optimum %r" % (what, v, want[k]))
    return dict(inner=3 * len(X), states=len(X), transitions=3 * len(X), outcome=(a, b, p))


def gen_big(ctx):
    ctx.choose("shape", [(1, 7), (5, 5), (6, 9), (40, 23)] + ([(200, 150)] if TIER == "thorough" else []))
    ctx.choose("pts", ["lcg", "dup", "signed", "same"])
    ctx.choose("wa", ["none", "uniform", "lcg", "zeros", "spiky", "dirac"])
    ctx.choose("wb", ["none", "lcg", "zeros", "dyadic"])
    ctx.choose("p", [1, 1.5, 2, 4])
    ctx.dev("layout", ["C", "F", "strided", "reversed", "view"])
    ctx.dev("dtype", ["float64", "float32", "list"])
    ctx.dev("order", ["any", "sorted", "reversed"])


def run_big(case):
    n, m = case["shape"]
    p = case["p"]
    x, y = I.points(case["pts"], n, 1, 1)[:, 0], I.points(case["pts"], m, 1, 5)[:, 0] + 0.25
    if case["order"] != "any":
        x, y = np.sort(x), np.sort(y)
    if case["order"] == "reversed":
        x, y = x[::-1].copy(), y[::-1].copy()
    a = None if case["wa"] == "none" else I.weights(case["wa"], n, 1)
    b = None if case["wb"] == "none" else I.weights(case["wb"], m, 2)
    ax, bx = (np.ones(n) / n if a is None else a), (np.ones(m) / m if b is None else b)
    C = np.abs(x[:, None] * 1.0 - y[None]) ** p
    want = oracle.transport_lp(ax, bx, C)
    L = lambda v: None if v is None else I.layout(v, case["layout"])
    tol = 1e-7 * (1 + np.abs(C).max())
    xx, yy, aa, bb = L(x), L(y), L(a), L(b)
    if case["dtype"] == "float32":
        xx, yy = xx.astype("float32"), yy.astype("float32")
        aa, bb = (None if v is None else v.astype("float32") for v in (aa, bb))
        tol = 2e-5 * (1 + np.abs(C).max())
    outs = {}
    xl, yl, al, bl = xx, yy, aa, bb
    if case["dtype"] == "list":
        xl, yl = xx.tolist(), yy.tolist()
        al, bl = (None if v is None else v.tolist() for v in (aa, bb))
    metric = {1: "euclidean", 2: "sqeuclidean"}.get(p, "minkowski")
    G, log = ot.emd_1d(xl, yl, al, bl, metric=metric, p=p, log=True)
    oracle.check_coupling(Fail, "big:emd_1d", np.asarray(G, float), ax, bx, tol=1e-9 if case["dtype"] != "float32" else 1e-5)
    outs["emd_1d"], outs["emd_1d plan"] = log["cost"], (np.asarray(G, float) * C).sum()
    S, log = ot.emd_1d(xl, yl, al, bl, metric="minkowski", p=p, log=True, dense=False)
    outs["emd_1d sparse"] = (S.toarray() * C).sum()
    outs["emd2_1d"] = ot.emd2_1d(xl, yl, al, bl, metric=metric, p=p)
    v, log = ot.emd2_1d(xl, yl, al, bl, metric=metric, p=p, log=True)
    outs["emd2_1d log"], outs["emd2_1d G"] = v, (np.asarray(log["G"], float) * C).sum()
    if case["dtype"] != "list":
        outs["wasserstein_1d"] = ot.wasserstein_1d(xx, yy, aa, bb, p=p)
        two = ot.wasserstein_1d(np.stack([xx, xx[::-1], xx + 3], 1), np.stack([yy, yy, yy + 3], 1),
                                None if aa is None else np.stack([aa, aa[::-1], aa], 1), bb, p=p)
        for k in range(3):
            outs["wasserstein_1d batch %d" % k] = two[k]
        w, pl = ot.wasserstein_1d(xx, yy, aa, bb, p=p, return_plans="coo_tuple")
        D = np.zeros((n, m))
        np.add.at(D, (pl[0].rows, pl[0].cols), pl[0].data)
        oracle.check_coupling(Fail, "big:tuple-plan", D, ax, bx, tol=1e-9 if case["dtype"] != "float32" else 1e-5)
        outs["wasserstein_1d plan"] = (D * C).sum()
        if case["order"] == "sorted":
            outs["presorted"] = ot.wasserstein_1d(xx, yy, aa, bb, p=p, require_sort=False)
            w, pl = ot.wasserstein_1d(np.stack([xx, xx], 1), np.stack([yy, yy], 1), aa, bb, p=p, require_sort=False, return_plans=True)
            outs["presorted batch"] = w[1]
            outs["presorted plan"] = (pl[1].toarray() * C).sum()
    for k, v in outs.items():
        if not np.isfinite(v) or abs(float(v) - want) > tol:
            raise Fail("big:" + k.split(" batch")[0].replace(" ", "-"), "%s: %r, optimum %r" % (k, float(v), want))
    return dict(inner=len(outs), states=len(outs), transitions=len(outs), outcome=round(want, 6))


def gen_bad(ctx):
    ctx.choose("what", ["mass", "metric", "2d", "p"])
    ctx.choose("n", [2, 3, 5])


def run_bad(case):
    n = case["n"]
    x, y = np.arange(n) * 1.0, np.arange(n) + 0.5
    a, b = np.ones(n) / n, np.ones(n) / n
    w = case["what"]
    try:
        if w == "mass":
            ot.emd_1d(x, y, a, 2 * b)
        elif w == "metric":
            ot.emd_1d(x, y, a, b, metric="cosine")
        elif w == "2d":
            ot.emd_1d(np.ones((n, 2)), y, a, b)
        else:
            ot.wasserstein_1d(x, y, a, b, p=0.5)
    except (AssertionError, ValueError):
        return w
    raise Fail("1d:accepts:" + w, "invalid input accepted")


def scopes(tier):
    global TIER
    TIER = tier
    return [
        Scope("integer-lines", gen_int, run_int, doc="all placements on a 3-point grid x all integer weights x p, against all polytope vertices"),
        Scope("larger", gen_big, run_big, dev=1, thorough_dev=2),
        Scope("invalid", gen_bad, run_bad),
    ]
