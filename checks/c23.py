"""C23: sliced OT distances and plans are the average / extremum of exact one-dimensional problems."""
BACKENDS = ()
OMP = 1
import itertools

import numpy as np
import ot

from mc import instances as I
from mc import oracle
from mc.engine import Fail, Scope

ASSUMPTIONS = ("projections are enumerated and passed explicitly; the Monte-Carlo error of random directions is outside the property",
               "total mass is one")


TIER = "quick"


def dirs(kind, d):
    """columns = directions"""
    if kind == "axis":
        return np.eye(d)
    if kind == "signs":
        P = np.array([s for s in itertools.product((-1.0, 1.0), repeat=d)]).T
        return P / np.linalg.norm(P, axis=0)
    if kind == "lcg":
        P = I.lcg(77, d * 5).reshape(d, 5) - 0.5
        return P / np.linalg.norm(P, axis=0)
    if kind == "one":
        return np.eye(d)[:, -1:]
    raise KeyError(kind)


def w1d(x, y, a, b, p):
    """independent exact 1-D OT: two-pointer on sorted atoms; returns value and plan"""
    i, j = np.argsort(x, kind="stable"), np.argsort(y, kind="stable")
    G = np.zeros((len(x), len(y)))
    ra, rb = list(a[i]), list(b[j])
    s = t = 0
    while s < len(i) and t < len(j):
        q = min(ra[s], rb[t])
        G[i[s], j[t]] += q
        ra[s] -= q
        rb[t] -= q
        if ra[s] <= rb[t]:
            s += 1
        else:
            t += 1
    return (G * np.abs(x[:, None] - y[None]) ** p).sum(), G


def gen(ctx):
    ctx.choose("shape", [(1, 1), (2, 2), (3, 3), (4, 6), (9, 9), (7, 3), (20, 20)])
    ctx.choose("d", [3, 1] if TIER == "quick" else [1, 2, 3])
    ctx.choose("dirs", ["axis", "signs", "lcg", "one"])
    ctx.dev("pts", ["lcg", "grid", "dup", "signed"])
    ctx.dev("wa", ["none", "uniform", "lcg", "zeros", "dirac"])
    ctx.dev("wb", ["none", "uniform", "lcg", "zeros", "ramp"])
    ctx.dev("lay", ["C", "F", "strided"])


def get(case):
    (n, m), d = case["shape"], case["d"]
    X, Y = I.points(case["pts"], n, d, 1), I.points(case["pts"], m, d, 4) + 0.125
    if n == m and case["pts"] == "dup":
        Y = X[::-1].copy()
    a = None if case["wa"] == "none" else I.weights(case["wa"], n, 1)
    b = None if case["wb"] == "none" else I.weights(case["wb"], m, 2)
    return X, Y, a, b, (np.ones(n) / n if a is None else a), (np.ones(m) / m if b is None else b), dirs(case["dirs"], d)


def run_dist(case):
    X, Y, a, b, ax, bx, P = get(case)
    X, Y = I.layout(X, case["lay"]), I.layout(Y, case["lay"])
    K = P.shape[1]
    inner = 0
    for p in (1, 2, 3):
        v = np.array([w1d(X @ P[:, k], Y @ P[:, k], ax, bx, p)[0] for k in range(K)])
        want, mx = v.mean() ** (1 / p), v.max() ** (1 / p)
        got, log = ot.sliced_wasserstein_distance(X, Y, a, b, p=p, projections=P, log=True)
        g2 = ot.sliced_wasserstein_distance(X, Y, a, b, n_projections=3, p=p, projections=P, seed=4)
        g3, l3 = ot.max_sliced_wasserstein_distance(X, Y, a, b, p=p, projections=P, log=True)
        g4 = ot.sliced_wasserstein_distance(Y, X, b, a, p=p, projections=P)
        g5 = ot.sliced_wasserstein_distance(X * 2, Y * 2, a, b, p=p, projections=P, scaler=lambda Z: Z / 2)
        inner += 5
        sc = 1 + v.max()
        # p-th roots amplify rounding near zero: compare the p-th powers
        for nm, g, w in (("sliced", got, want), ("sliced:projections-only", g2, want), ("max", g3, mx), ("swap", g4, want), ("scaler", g5, want)):
            if not abs(g**p - w**p) < 1e-9 * sc:
                raise Fail("sliced:" + nm, "p=%r: %r, expected %r" % (p, g, w))
        if np.abs(log["projected_emds"] - v).max() > 1e-9 * sc or np.abs(l3["projected_emds"] - v).max() > 1e-9 * sc:
            raise Fail("sliced:log", "projected values %r expected %r" % (log["projected_emds"], v))
    return dict(inner=inner, states=inner, transitions=inner, outcome=round(float(want), 8))


METR = ["sqeuclidean", "euclidean", "cityblock", "minkowski"]


def cost(metric, X, Y, p):
    D = np.abs(X[:, None] - Y[None])
    return {"sqeuclidean": (D**2).sum(-1), "euclidean": np.sqrt((D**2).sum(-1)), "cityblock": D.sum(-1), "minkowski": (D**p).sum(-1) ** (1 / p)}[metric]


def gen_plan(ctx):
    ctx.choose("shape", [(1, 1), (2, 2), (3, 3), (4, 6), (9, 9), (7, 3)])
    ctx.choose("d", [3, 1] if TIER == "quick" else [1, 2, 3])
    ctx.choose("dirs", ["axis", "signs", "lcg", "one"])
    ctx.dev("pts", ["lcg", "grid", "signed"])
    ctx.dev("wa", ["none", "uniform", "lcg", "zeros", "dirac"])
    ctx.dev("wb", ["none", "uniform", "lcg", "zeros", "ramp"])
    ctx.dev("metric", METR)
    ctx.dev("p", [2, 1, 3])
    ctx.dev("batch", [None, 1, 2, 5, 1000])
    ctx.dev("dense", [True, False])
    ctx.dev("nproj", [None, 2, 50])
    ctx.dev("beta", [0.0, 1.0, -0.5, 20.0])


def run_plan(case):
    X, Y, a, b, ax, bx, P = get(case)
    n, m = len(X), len(Y)
    K = P.shape[1]
    M = cost(case["metric"], X, Y, case["p"])
    kw = dict(metric=case["metric"], p=case["p"], projections=P, batch_size=case["batch"], n_projections=case["nproj"])
    plans, costs = ot.sliced.sliced_plans(X, Y, a, b, **kw)
    if len(plans) != K or len(costs) != K:
        raise Fail("plans:count", "%d plans and %d costs for %d directions" % (len(plans), len(costs), K))
    Gs = []
    sc = 1 + M.max()
    for k in range(K):
        G = np.zeros((n, m))
        np.add.at(G, (np.asarray(plans[k].rows), np.asarray(plans[k].cols)), np.asarray(plans[k].data))
        oracle.check_coupling(Fail, "plans", G, ax, bx)
        x, y = X @ P[:, k], Y @ P[:, k]
        v, _ = w1d(x, y, ax, bx, 2)
        if abs((G * (x[:, None] - y) ** 2).sum() - v) > 1e-9 * (1 + v):
            raise Fail("plans:not-optimal", "direction %d: projected cost %r, optimum %r" % (k, (G * (x[:, None] - y) ** 2).sum(), v))
        if abs((G * M).sum() - costs[k]) > 1e-9 * sc:
            raise Fail("plans:cost", "direction %d: reported cost %r, cost of the plan %r" % (k, costs[k], (G * M).sum()))
        Gs.append(G)
    den = lambda G: np.asarray(G.todense()) if hasattr(G, "todense") else np.asarray(G)
    Gm, cm, log = ot.min_sliced_transport_plan(X, Y, a, b, dense=case["dense"], log=True, **kw)
    Gm = den(Gm)
    oracle.check_coupling(Fail, "min", Gm, ax, bx)
    if abs(cm - min(costs)) > 1e-9 * sc or abs((Gm * M).sum() - cm) > 1e-9 * sc:
        raise Fail("min:cost", "cost %r, plan %r, best direction %r" % (cm, (Gm * M).sum(), min(costs)))
    j = int(np.argmin(np.asarray(log["costs"])))
    if np.abs(np.asarray(log["min_projection"]) - P[:, j]).max() > 1e-12:
        raise Fail("min:log", "min_projection is not the direction of the smallest cost")
    Ge, ce, le = ot.expected_sliced_plan(X, Y, a, b, beta=case["beta"], dense=case["dense"], log=True, **kw)
    Ge = den(Ge)
    z = -case["beta"] * np.asarray(costs)
    w = np.exp(z - z.max())
    w /= w.sum()
    want = sum(w[k] * Gs[k] for k in range(K))
    if np.abs(Ge - want).max() > 1e-9:
        raise Fail("expected:plan", "expected plan is not the weighted mean of the slices (error %g)" % np.abs(Ge - want).max())
    if abs(ce - (want * M).sum()) > 1e-9 * sc:
        raise Fail("expected:cost", "cost %r, cost of the plan %r" % (ce, (want * M).sum()))
    if not ((want * M).sum() >= oracle.transport_lp(ax, bx, M) - 1e-9 * sc):
        raise Fail("expected:below-ot", "a sliced plan beats exact OT")
    return round(float(ce), 8)


def gen_sph(ctx):
    ctx.choose("shape", [(1, 1), (2, 3), (5, 5), (12, 7)])
    ctx.choose("d", [3, 4])
    ctx.choose("k", [1, 3, 6])
    ctx.choose("nproj", [50, 2])
    ctx.choose("wa", ["none", "lcg", "zeros"])
    ctx.choose("wb", ["none", "ramp"])


def frames(k, d):
    Z = I.lcg(5 + k, k * d * 2).reshape(k, d, 2) - 0.5
    return np.stack([np.linalg.qr(z)[0] for z in Z])


def run_sph(case):
    from checks import c07

    (n, m), d = case["shape"], case["d"]
    X, Y = I.points("signed", n, d, 1), I.points("lcg", m, d, 2) - 0.4
    X, Y = X / np.linalg.norm(X, axis=1, keepdims=True), Y / np.linalg.norm(Y, axis=1, keepdims=True)
    a = None if case["wa"] == "none" else I.weights(case["wa"], n, 1)
    b = None if case["wb"] == "none" else I.weights(case["wb"], m, 2)
    ax, bx = (np.ones(n) / n if a is None else a), (np.ones(m) / m if b is None else b)
    P = frames(case["k"], d)

    def coords(Z):
        out = []
        for U in P:
            q = Z @ U
            out.append((np.arctan2(-q[:, 1], -q[:, 0]) + np.pi) / (2 * np.pi))
        return np.array(out)

    cx, cy = coords(X), coords(Y)
    for p in (1, 2):
        v = np.array([oracle.transport_lp(ax, bx, c07.circ(cx[k], cy[k], p)) for k in range(len(P))])
        g, log = ot.sliced_wasserstein_sphere(X, Y, a, b, n_projections=case["nproj"], p=p, projections=P, log=True)
        if not abs(g**p - v.mean()) < 2e-5:
            raise Fail("sphere:value", "p=%d: %r, expected %r" % (p, g, v.mean() ** (1 / p)))
        if np.abs(log["projected_emds"] - v).max() > 2e-5:
            raise Fail("sphere:log", "projected values")
    v = np.array([c07.w2unif(cx[k] % 1, ax) for k in range(len(P))])
    g = ot.sliced_wasserstein_sphere_unif(X, a, n_projections=case["nproj"], projections=P)
    if not abs(g**2 - v.mean()) < 1e-8:
        raise Fail("sphere:unif", "%r, expected %r" % (g, v.mean() ** 0.5))
    v = np.array([ot.linear_circular_ot(cx[k], cy[k], a, b)[0] for k in range(len(P))])
    g = ot.linear_sliced_wasserstein_sphere(X, Y, a, b, n_projections=case["nproj"], projections=P)
    if not abs(g**2 - v.mean()) < 1e-8:
        raise Fail("sphere:linear", "%r, expected %r" % (g, v.mean() ** 0.5))
    g = ot.linear_sliced_wasserstein_sphere(X, a=a, n_projections=case["nproj"], projections=P)
    v = np.array([ot.linear_circular_ot(cx[k], u_weights=a)[0] for k in range(len(P))])
    if not abs(g**2 - v.mean()) < 1e-8:
        raise Fail("sphere:linear-unif", "%r, expected %r" % (g, v.mean() ** 0.5))
    return round(float(g), 8)


def gen_seed(ctx):
    ctx.choose("seed", [0, 1, 42, "rs"])
    ctx.choose("fn", ["swd", "max", "sphere", "unif", "linear", "min", "expected", "proj", "sproj"])
    ctx.choose("np", [1, 7])


def run_seed(case):
    s = lambda: np.random.RandomState(3) if case["seed"] == "rs" else case["seed"]
    X, Y = I.points("signed", 6, 3, 1), I.points("lcg", 5, 3, 2)
    Xs, Ys = X / np.linalg.norm(X, axis=1, keepdims=True), Y / np.linalg.norm(Y, axis=1, keepdims=True)
    f, k = case["fn"], case["np"]
    calls = dict(
        swd=lambda: ot.sliced_wasserstein_distance(X, Y, n_projections=k, seed=s(), log=True),
        max=lambda: ot.max_sliced_wasserstein_distance(X, Y, n_projections=k, seed=s(), log=True),
        sphere=lambda: ot.sliced_wasserstein_sphere(Xs, Ys, n_projections=k, seed=s(), log=True),
        unif=lambda: ot.sliced_wasserstein_sphere_unif(Xs, n_projections=k, seed=s(), log=True),
        linear=lambda: ot.linear_sliced_wasserstein_sphere(Xs, Ys, n_projections=k, seed=s(), log=True),
        min=lambda: ot.min_sliced_transport_plan(X, Y, n_projections=k, seed=s(), log=True)[1:],
        expected=lambda: ot.expected_sliced_plan(X, Y, n_projections=k, seed=s(), log=True)[1:],
        proj=lambda: (0, dict(projections=ot.sliced.get_random_projections(3, k, s()))),
        sproj=lambda: (0, dict(projections=ot.sliced.get_projections_sphere(3, k, s()))),
    )
    v1, l1 = calls[f]()
    np.random.rand(5)
    v2, l2 = calls[f]()
    P = np.asarray(l1["projections"])
    if not np.array_equal(P, np.asarray(l2["projections"])) or v1 != v2:
        raise Fail("seed:" + f, "the same seed gives different results")
    if f in ("sphere", "unif", "linear", "sproj"):
        if P.shape != (k, 3, 2) or np.abs(np.einsum("kij,kil->kjl", P, P) - np.eye(2)).max() > 1e-9:
            raise Fail("seed:frame:" + f, "projections are not %d orthonormal frames" % k)
    elif P.shape != (3, k) or np.abs((P**2).sum(0) - 1).max() > 1e-9:
        raise Fail("seed:norm:" + f, "projections are not %d unit vectors" % k)
    return round(float(v1), 10)


def scopes(tier):
    global TIER
    TIER = tier
    return [
        Scope("distances", gen, run_dist, dev=2, thorough_dev=3),
        Scope("plans", gen_plan, run_plan, dev=2, thorough_dev=3),
        Scope("sphere", gen_sph, run_sph),
        Scope("seeds", gen_seed, run_seed),
    ]
