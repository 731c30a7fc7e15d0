"""C10: unbalanced OT plans satisfy the optimality conditions of the documented problem, and costs are those of the plan."""
BACKENDS = ("torch", "jax")
OMP = 1
import warnings

import numpy as np
import ot

from mc import instances as I
from mc.engine import Fail, Scope

ASSUMPTIONS = ("regularisation and marginal penalties between 0.05 and 50 times the cost scale",)
TIER = "quick"
inf = float("inf")
METHODS = ["sinkhorn", "sinkhorn_stabilized", "sinkhorn_translation_invariant"]


def call(f, *a, **k):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = f(*a, **k)
    return r, [str(x.message) for x in w if "onverge" in str(x.message) or "umerical error" in str(x.message)]


def cost(kind, n, m):
    M = I.cost(kind, n, m, 5)
    return M / max(np.abs(M).max(), 1e-300)


def kl(p, q):
    p, q = np.asarray(p, float), np.asarray(q, float)
    with np.errstate(all="ignore"):
        t = np.where(p > 0, p * (np.log(np.where(p > 0, p, 1)) - np.log(np.where(q > 0, q, 1e-300))), 0.0)
    return float(t.sum() - p.sum() + q.sum())


def total(G, M, a, b, c, reg, r1, r2, div="kl", mdiv="kl"):
    D = {"kl": kl, "l2": lambda p, q: 0.5 * ((p - q) ** 2).sum(), "tv": lambda p, q: np.abs(p - q).sum(),
         "entropy": lambda p, q: float((np.where(p > 0, p * np.log(np.where(p > 0, p, 1)), 0.0)).sum() - p.sum())}
    v = (G * M).sum()
    if reg:
        v += reg * D[div](G, c)
    if r1 != inf:
        v += r1 * D[mdiv](G.sum(1), a)
    if r2 != inf:
        v += r2 * D[mdiv](G.sum(0), b)
    return float(v)


def stationarity(G, M, a, b, c, reg, r1, r2):
    """Largest violation of the first order conditions, on entries that may carry mass (entropic case)."""
    I_, J = np.flatnonzero(a > 0), np.flatnonzero(b > 0)
    P, C, D = G[np.ix_(I_, J)], M[np.ix_(I_, J)], c[np.ix_(I_, J)]
    if not (P > 0).all():
        return inf
    R = C + reg * np.log(P / D)
    e = 0.0
    if r1 != inf:
        R = R + r1 * np.log(P.sum(1) / a[I_])[:, None]
    else:
        e = max(e, np.abs(P.sum(1) - a[I_]).max())
    if r2 != inf:
        R = R + r2 * np.log(P.sum(0) / b[J])[None]
    else:
        e = max(e, np.abs(P.sum(0) - b[J]).max())
    if r1 == inf and r2 == inf:
        R = R - R.mean(1, keepdims=True) - R.mean(0, keepdims=True) + R.mean()
    elif r1 == inf:
        R = R - R.mean(1, keepdims=True)
    elif r2 == inf:
        R = R - R.mean(0, keepdims=True)
    return max(e, np.abs(R).max())


REGM = [1.0, 0.3, (0.5, 2.0), (2.0, 0.5), (0.7,), 10.0, (inf, 1.0), (0.5, inf), (inf, inf), inf]


def pair(r):
    r = r if isinstance(r, tuple) else (r,)
    return (r[0], r[0]) if len(r) == 1 else r


def gen(ctx):
    ctx.choose("shape", [(1, 1), (2, 2), (3, 4)] if TIER == "quick" else [(1, 1), (2, 2), (1, 3), (4, 1), (3, 4), (6, 5), (12, 13)])
    ctx.choose("method", METHODS)
    ctx.choose("reg_m", REGM if TIER != "quick" else [1.0, (0.5, 2.0), (0.7,), (inf, 1.0), (0.5, inf), inf])
    ctx.dev("reg", [0.5, 0.2, 2.0])
    ctx.dev("c", ["none", "given", "entropy", "ENTROPY", "KL"])
    ctx.dev("mass", [(1.0, 1.0), (2.0, 0.5), (0.3, 3.0)])
    ctx.dev("w", [("lcg", "lcg"), ("uniform", "uniform"), ("zeros", "lcg"), ("lcg", "zeros"), ("ramp", "spiky"), ("none", "none"), ("none", "lcg"), ("lcg", "none")])
    ctx.dev("cost", ["lcg", "ties", "neg", "zero", "rank1", "mixed"])
    ctx.dev("warm", [0, 1, 2])
    ctx.dev("lay", ["C", "F", "strided", "list", "f32"])
    ctx.dev("tau", [None, 1.2, 5.0, 100.0])


def run(case):
    n, m = case["shape"]
    reg, (r1, r2) = case["reg"], pair(case["reg_m"])
    meth = case["method"]
    ma, mb = case["mass"]
    if r1 == inf and r2 == inf:
        mb = ma
    a, b = [np.ones(k) / k if w == "none" else I.weights(w, k, s) * q for w, k, s, q in zip(case["w"], (n, m), (1, 2), (1.0 if "none" in case["w"] and r1 == r2 == inf else ma, 1.0 if "none" in case["w"] and r1 == r2 == inf else mb))]
    M = cost(case["cost"], n, m)
    c = np.outer(a, b)
    kw = {}
    if case["c"] == "given":
        if "zeros" in case["w"]:
            c = np.outer(a, b) * (0.5 + I.cost("lcg", n, m, 9))
        else:
            c = 0.1 + I.cost("lcg", n, m, 9)
        kw["c"] = c
    elif case["c"].lower() == "entropy":
        c = np.ones((n, m))
        kw["reg_type"] = case["c"]
    elif case["c"] == "KL":
        kw["reg_type"] = "KL"
    if case["warm"]:
        s = 0.3 * case["warm"]
        kw["warmstart"] = (s * (np.arange(n) - 1.0), 0.2 - s * np.arange(m))
    if case["tau"] and meth == "sinkhorn_stabilized":
        kw["tau"] = case["tau"]
    if case["lay"] == "f32":
        if "c" in kw:
            kw["c"] = kw["c"].astype(np.float32)
        if "warmstart" in kw:
            kw["warmstart"] = tuple(x.astype(np.float32) for x in kw["warmstart"])
    cv = lambda z: z.tolist() if case["lay"] == "list" else z.astype(np.float32) if case["lay"] == "f32" else (I.layout(z, case["lay"]) if (case["lay"] != "F" or z.ndim == 2) else z)
    ar = [[] if w == "none" else cv(z) for w, z in zip(case["w"], (a, b))] + [cv(M)]
    f32 = case["lay"] == "f32"
    kw.update(method=meth, numItermax=50000, stopThr=1e-7 if f32 else 1e-13)
    rm = case["reg_m"]
    (G, log), w = call(ot.unbalanced.sinkhorn_unbalanced, *ar, reg, rm, log=True, **kw)
    G = np.asarray(G)
    if G.shape != (n, m) or not np.isfinite(G).all() or G.min() < 0:
        if w:
            return "warned"
        raise Fail("plan:invalid:" + meth, "%r" % G)
    if G.dtype != (np.float32 if f32 else np.float64):
        raise Fail("plan:dtype:" + meth, "dtype %s" % G.dtype)
    if w and (case["tau"] or 100) < 100:
        return "warned"  # constant absorption restarts the iteration
    if w:
        raise Fail("plan:no-convergence:" + meth, "%s" % w[:2])
    z = G[a == 0].sum() + G[:, b == 0].sum()
    if z > 1e-12:
        raise Fail("plan:zero-bin:" + meth, "mass %g on bins of zero weight" % z)
    e = stationarity(G.astype(float), M, a, b, c, reg, r1, r2)
    scale = reg + (r1 if r1 != inf else 0) + (r2 if r2 != inf else 0)
    if not e <= (2e-4 if f32 else 1e-6) * max(1, scale):
        raise Fail("plan:optimal:" + meth, "first order conditions violated by %g" % e)
    if f32:
        return "f32"
    want = total(G, M, a, b, c, reg, r1, r2, "entropy" if case["c"].lower() == "entropy" else "kl")
    lin = float((G * M).sum())
    tol = 1e-8 * (1 + scale)
    if abs(log["cost"] - lin) > tol:
        raise Fail("plan:log-cost:" + meth, "log['cost'] %r, plan cost %r" % (log["cost"], lin))
    if not abs(log["total_cost"] - want) <= tol:
        raise Fail("plan:log-total:" + meth, "log['total_cost'] %r, objective of the plan %r" % (log["total_cost"], want))
    G2, _ = call(ot.unbalanced.sinkhorn_unbalanced, *ar, reg, rm, **kw)
    if not np.array_equal(G, G2):
        raise Fail("plan:log-flag:" + meth, "log=True changes the plan")
    for rc, wv in (("linear", lin), ("total", want)):
        v, _ = call(ot.unbalanced.sinkhorn_unbalanced2, *ar, reg, rm, returnCost=rc, **kw)
        v2, l2 = call(ot.unbalanced.sinkhorn_unbalanced2, *ar, reg, rm, returnCost=rc, log=True, **kw)[0]
        if not (abs(v - wv) <= tol and v == v2):
            raise Fail("plan:value:%s:%s" % (rc, meth), "%r %r expected %r" % (v, v2, wv))
    lu, lv = np.asarray(log["logu"]), np.asarray(log["logv"])
    with np.errstate(all="ignore"):
        Q = np.exp(lu[:, None] + lv[None] - M / reg) * c
    Q[a == 0] = 0
    Q[:, b == 0] = 0
    if not np.abs(Q - G).max() <= 1e-7 * (1 + G.max()):
        raise Fail("plan:potentials:" + meth, "exp(logu + logv) K c is not the plan (%g)" % np.abs(Q - G).max())
    return round(lin, 7)


def gen_hist(ctx):
    ctx.choose("shape", [(2, 2), (4, 3)])
    ctx.choose("k", [1, 3])
    ctx.choose("method", METHODS)
    ctx.choose("reg_m", [1.0, (0.5, 2.0), (inf, 1.0), (0.5, inf), inf])
    ctx.dev("fn", ["sinkhorn_unbalanced2", "sinkhorn_unbalanced"])
    ctx.dev("warm", [0, 1])
    ctx.dev("cost", ["lcg", "ties"])
    ctx.dev("tau", [1e5, 1.5, 1e3])


def run_hist(case):
    n, m = case["shape"]
    k, meth = case["k"], case["method"]
    reg = 0.5
    M = cost(case["cost"], n, m)
    r1, r2 = pair(case["reg_m"])
    a = I.weights("lcg", n, 1)
    B = np.stack([I.weights("lcg", m, 3 + q) * (1 if r1 == r2 == inf else 1 + 0.7 * q) for q in range(k)], 1)
    kw = dict(method=meth, numItermax=50000, stopThr=1e-13, reg_type="entropy")
    want = np.array([(M * np.asarray(call(ot.unbalanced.sinkhorn_unbalanced, a, B[:, q], M, reg, case["reg_m"], numItermax=50000, stopThr=1e-13, reg_type="entropy")[0])).sum() for q in range(k)])
    if case["warm"]:
        kw["warmstart"] = (np.zeros((n, k)) + 0.1, np.zeros((m, k)) - 0.2 * np.arange(m)[:, None])
    if meth == "sinkhorn_stabilized":
        kw["tau"] = case["tau"]
    f = getattr(ot.unbalanced, case["fn"])
    v, w = call(f, a, B, M, reg, case["reg_m"], **kw)
    v = np.asarray(v)
    if w and case["tau"] < 100:
        return "warned"
    if w:
        raise Fail("hist:no-convergence:" + meth, "%s" % w[:2])
    if v.shape != (k,):
        raise Fail("hist:shape:" + meth, "%r for %d histograms" % (v.shape, k))
    if not np.abs(v - want).max() <= 1e-7 * (1 + want.max()):
        raise Fail("hist:value:" + meth, "together %r, one by one %r" % (v, want))
    v2, log = call(f, a, B, M, reg, case["reg_m"], log=True, **kw)[0]
    if not np.array_equal(v, np.asarray(v2)):
        raise Fail("hist:log-flag:" + meth, "log=True changes the values")
    return round(float(v.sum()), 7)


def gen_mm(ctx):
    ctx.choose("shape", [(1, 1), (3, 4)] if TIER == "quick" else [(1, 1), (2, 2), (3, 4), (5, 4)])
    ctx.choose("solver", ["mm", "lbfgsb"])
    ctx.choose("mdiv", ["kl", "l2", "tv", "KL"])
    ctx.choose("reg", [0, 0.3])
    ctx.choose("reg_m", [2.0, (1.0, 3.0)] if TIER == "quick" else [2.0, (1.0, 3.0), (0.8,)])
    ctx.dev("div", ["same", "kl", "l2", "entropy", "fun"])
    ctx.dev("c", ["none", "given"])
    ctx.dev("w", [("lcg", "lcg"), ("uniform", "ramp"), ("none", "none"), ("none", "lcg"), ("lcg", "none"), ("zeros", "lcg"), ("lcg", "zeros"), ("zeros", "zeros")])
    ctx.dev("mass", [(1.0, 1.0), (2.0, 0.5)])
    ctx.dev("cost", ["lcg", "ties", "rank1", "big3", "mixed"])
    ctx.dev("G0", [0, 1])
    ctx.dev("lay", ["C", "F", "strided", "list"])


def run_mm(case):
    n, m = case["shape"]
    ma, mb = case["mass"]
    a, b = [np.ones(k) / k if w == "none" else I.weights(w, k, s) * q for w, k, s, q in zip(case["w"], (n, m), (1, 2), (ma, mb))]
    M = cost("lcg" if case["cost"] == "big3" else case["cost"], n, m) * (3 if case["cost"] == "big3" else 1)
    reg = case["reg"]
    r1, r2 = pair(case["reg_m"])
    md = case["mdiv"].lower()
    sv = case["solver"]
    div = md if case["div"] == "same" else case["div"]
    if md == "tv" and case["div"] == "same":
        div = "kl"
    if sv == "mm" and (md == "tv" or div != md):
        return "n/a"
    c = np.outer(a, b) if case["c"] == "none" else 0.05 + 0.1 * I.cost("lcg", n, m, 9)
    kw = dict(c=None if case["c"] == "none" else c, log=True)
    if case["G0"]:
        kw["G0"] = 0.1 + 0.3 * I.cost("lcg", n, m, 4)
    cv = lambda z: z.tolist() if case["lay"] == "list" else (I.layout(z, case["lay"]) if (case["lay"] != "F" or z.ndim == 2) else z)
    ar = [[] if w == "none" else cv(z) for w, z in zip(case["w"], (a, b))] + [cv(M)]
    if sv == "mm":
        kw.update(reg=reg, div=case["mdiv"], numItermax=20000, stopThr=1e-13)
        (G, log), _ = call(ot.unbalanced.mm_unbalanced, *ar, case["reg_m"], **kw)
    else:
        rd = div
        if div == "fun":
            rd = (lambda G: 0.5 * np.sum((G - c) ** 2), lambda G: G - c)
        kw.update(reg_div=rd, regm_div=case["mdiv"], numItermax=5000, stopThr=1e-15)
        (G, log), _ = call(ot.unbalanced.lbfgsb_unbalanced, *ar, reg, case["reg_m"], **kw)
    G = np.asarray(G)
    if G.shape != (n, m) or not np.isfinite(G).all() or G.min() < 0:
        raise Fail("gen:invalid:" + sv, "%r" % G)
    dv = "l2" if div == "fun" else div
    want = total(G, M, a, b, c, reg, r1, r2, dv, md)
    lin = float((G * M).sum())
    if abs(log["cost"] - lin) > 1e-9 or abs(log["total_cost"] - want) > 1e-7:
        raise Fail("gen:costs:" + sv, "cost %r total %r, plan gives %r %r" % (log["cost"], log["total_cost"], lin, want))
    kw2 = {k: v for k, v in kw.items() if k != "log"}
    f, f2 = (ot.unbalanced.mm_unbalanced, ot.unbalanced.mm_unbalanced2) if sv == "mm" else (ot.unbalanced.lbfgsb_unbalanced, ot.unbalanced.lbfgsb_unbalanced2)
    args = (*ar, case["reg_m"]) if sv == "mm" else (*ar, reg, case["reg_m"])
    G2, _ = call(f, *args, **kw2)
    if not np.array_equal(G, np.asarray(G2)):
        raise Fail("gen:log-flag:" + sv, "log=True changes the plan")
    for rc, wv in (("linear", lin), ("total", want)):
        v, _ = call(f2, *args, returnCost=rc, **kw2)
        v2, _ = call(f2, *args, returnCost=rc, **kw)[0]
        if abs(v - wv) > 1e-7 or v != v2:
            raise Fail("gen:value:%s:%s" % (rc, sv), "%r %r expected %r" % (v, v2, wv))
    # optimality: the objective is convex, so no perturbation along single entries, rows, columns or towards 0 may improve it
    obj = lambda H: total(H, M, a, b, c, reg, r1, r2, dv, md)
    best = obj(G)
    dirs = []
    for i in range(n):
        for j in range(m):
            E = np.zeros((n, m))
            E[i, j] = 1
            dirs.append(E)
    for i in range(n):
        E = np.zeros((n, m))
        E[i] = 1
        dirs.append(E)
    for j in range(m):
        E = np.zeros((n, m))
        E[:, j] = 1
        dirs.append(E)
    dirs += [np.ones((n, m)), G, np.outer(a, b)]
    # cycles keep both marginals (they matter for the total variation)
    for i in range(n - 1):
        for j in range(m - 1):
            E = np.zeros((n, m))
            E[i, j] = E[i + 1, j + 1] = 1
            E[i, j + 1] = E[i + 1, j] = -1
            dirs.append(E)
    gain, wh = 0.0, None
    for E in dirs:
        for t in (1e-2, -1e-2, 1e-3, -1e-3, 0.1):
            H = np.maximum(G + t * E, 0)
            g = best - obj(H)
            if g > gain:
                gain, wh = g, (E, t)
    tol = {"kl": 2e-5, "l2": 2e-5, "tv": 1e9}[md]
    if gain > tol * (1 + abs(best)):
        raise Fail("gen:optimal:%s:%s" % (sv, md), "the objective %r improves by %g" % (best, gain))
    return round(best, 5)


def gen_bary(ctx):
    ctx.choose("d", [1, 2, 5])
    ctx.choose("k", [1, 2, 3])
    ctx.choose("method", ["sinkhorn", "sinkhorn_stabilized", "sinkhorn_reg_scaling"])
    ctx.choose("reg", [0.5, 0.1])
    ctx.choose("reg_m", [1.0, 0.2, 5.0])
    ctx.dev("wts", ["none", "lcg", "dirac"])
    ctx.dev("mass", [1.0, 2.0])
    ctx.dev("zeros", [0, 1])
    ctx.dev("tau", [1e3, 2.0])


def run_bary(case):
    d, k = case["d"], case["k"]
    A = np.stack([I.weights("zeros" if case["zeros"] and q == 0 else "lcg", d, 1 + q) * (1 + (case["mass"] - 1) * q) for q in range(k)], 1)
    x = np.arange(d) / max(d - 1, 1)
    M = (x[:, None] - x[None]) ** 2 + 0.2 * np.abs(np.sin(np.outer(1 + x, x)))  # not symmetric on purpose
    w = None if case["wts"] == "none" else I.weights(case["wts"], k, 3)
    wt = np.ones(k) / k if w is None else w
    reg, rm = case["reg"], case["reg_m"]
    kw = dict(method=case["method"], weights=w, numItermax=20000, stopThr=1e-13)
    if case["method"] == "sinkhorn_stabilized":
        kw["tau"] = case["tau"]
    (q, log), wr = call(ot.unbalanced.barycenter_unbalanced, A, M, reg, rm, log=True, **kw)
    q = np.asarray(q)
    if wr:
        raise Fail("bary:no-convergence:" + case["method"], "%s" % wr[:2])
    if q.shape != (d,) or not np.isfinite(q).all() or q.min() < 0:
        raise Fail("bary:invalid:" + case["method"], "%r" % q)
    # optimality in q of sum_k w_k UOT(A_k, q): the transported mass, averaged, is the barycenter
    R = np.zeros(d)
    for s in range(k):
        # G minimises <M,G> + reg E(G) + rm KL(G1|A_s) + rm KL(G'1|q), by fixed point
        K = np.exp(-M / reg)
        u, v = np.ones(d), np.ones(d)
        fi = rm / (rm + reg)
        for _ in range(20000):
            u = (A[:, s] / (K @ v)) ** fi
            v2 = (q / (K.T @ u)) ** fi
            if np.abs(v2 - v).max() <= 1e-14 * np.abs(v2).max():
                break
            v = v2
        R += wt[s] * (u[:, None] * K * v2[None]).sum(0)
    if not np.abs(R - q).max() <= 1e-6 * q.max():
        raise Fail("bary:optimal:" + case["method"], "barycenter %r, average transported mass %r" % (q, R))
    q2, _ = call(ot.unbalanced.barycenter_unbalanced, A, M, reg, rm, **kw)
    if not np.array_equal(q, np.asarray(q2)):
        raise Fail("bary:log-flag:" + case["method"], "log=True changes the result")
    return round(float(q.sum()), 7)


def gen_1d(ctx):
    ctx.choose("shape", [(3, 3), (4, 6), (1, 2)])
    ctx.choose("reg_m", [1.0, (0.5, 2.0), (inf, 1.0), (1.0, inf), inf])
    ctx.choose("batch", [0, 3] if TIER == "quick" else [0, 1, 3])
    ctx.dev("p", [2, 1])
    ctx.choose("backend", ["torch"] if TIER == "quick" else ["torch", "jax"])
    ctx.dev("sort", [True, False])
    ctx.dev("w", ["none", "lcg", "ramp", "full"])
    ctx.dev("rev", [0, 1])


def run_1d(case):
    from ot.backend import get_backend_list
    nx = [x for x in get_backend_list() if x.__name__ == case["backend"]][0]
    n, m = case["shape"]
    k = case["batch"]
    r1, r2 = pair(case["reg_m"])
    x = np.sort(I.points("signed", n, max(k, 1), 1), 0)
    y = np.sort(I.points("signed", m, max(k, 1), 2), 0) + 0.5
    a = np.ones(n) / n
    b = np.ones(m) / m
    if case["w"] != "none":
        wk = "lcg" if case["w"] == "full" else case["w"]
        a, b = I.weights(wk, n, 1), I.weights(wk, m, 2)
        if r1 != inf or r2 != inf:
            b = b * 1.5
    if case["rev"] and case["sort"]:
        x, y = x[::-1].copy(), y[::-1].copy()
    rm = case["reg_m"]
    T = lambda z: nx.from_numpy(z)
    X, Y = (x, y) if k else (x[:, 0], y[:, 0])
    if case["w"] == "none":
        ua = ub = None
    elif case["w"] == "full":
        ua, ub = (T(np.repeat(a[:, None], k, 1)), T(np.repeat(b[:, None], k, 1))) if k else (T(a), T(b))
    else:
        ua, ub = T(a), T(b)
    kw = dict(p=case["p"], require_sort=case["sort"], numItermax=120 if TIER == "quick" else 2000)
    u, v, tot, log = ot.unbalanced.uot_1d(T(X), T(Y), rm, ua, ub, returnCost="total", log=True, **kw)
    u, v, tot, lin = [np.asarray(nx.to_numpy(z)) for z in (u, v, tot, log["linear_cost"])]
    if k and (u.shape != (n, k) or v.shape != (m, k) or tot.shape != (k,)):
        raise Fail("1d:shape", "%r %r %r" % (u.shape, v.shape, tot.shape))
    u, v, tot, lin = (u, v, tot, lin) if k else (u[:, None], v[:, None], tot[None], lin[None])
    l1 = np.asarray(nx.to_numpy(ot.unbalanced.uot_1d(T(X), T(Y), rm, ua, ub, **kw)[2])).reshape(-1)
    if not np.allclose(l1, lin, atol=1e-12):
        raise Fail("1d:linear", "returnCost='linear' %r, logged %r" % (l1, lin))
    for q in range(max(k, 1)):
        if abs(u[:, q].sum() - v[:, q].sum()) > 1e-9 * (1 + u[:, q].sum()):
            raise Fail("1d:mass", "reweighted marginals have masses %r and %r" % (u[:, q].sum(), v[:, q].sum()))
        D = np.abs(x[:, q][:, None] - y[:, q][None]) ** case["p"]
        ww = ot.emd2(u[:, q] / u[:, q].sum(), v[:, q] / v[:, q].sum(), D) * u[:, q].sum()
        if abs(ww - lin[q]) > 1e-8 * (1 + ww):
            raise Fail("1d:linear-value", "linear cost %r, transport of the reweighted marginals %r" % (lin[q], ww))
        obj = ww + (r1 * kl(u[:, q], a) if r1 != inf else 0) + (r2 * kl(v[:, q], b) if r2 != inf else 0)
        if abs(obj - tot[q]) > 1e-8 * (1 + obj):
            raise Fail("1d:total-value", "total cost %r, objective of the returned marginals %r" % (tot[q], obj))
        if r1 == inf and np.abs(u[:, q] - a).max() > 1e-9 or r2 == inf and np.abs(v[:, q] - b).max() > 1e-9:
            raise Fail("1d:constraint", "an infinite penalty does not keep the marginal")
        # optimal value, by majorisation-minimisation on the plan / exact transport
        ref = ref_uot(a, b, D, r1, r2)
        # Frank-Wolfe is approximate; it may not beat the optimum nor miss it by much
        if tot[q] < ref - 1e-6 or tot[q] > ref + (0.06 if TIER == "quick" else 0.01) * (1 + ref):
            raise Fail("1d:optimal", "total cost %r, optimum %r" % (tot[q], ref))
    return round(float(tot.sum()), 5)


_cache = {}


def ref_uot(a, b, D, r1, r2):
    key = (a.tobytes(), b.tobytes(), D.tobytes(), r1, r2)
    if key not in _cache:
        n, m = D.shape
        if r1 == inf and r2 == inf:
            v = ot.emd2(a, b, D)
        elif r1 != inf and r2 != inf:
            G = np.outer(a, b)
            for _ in range(3000):
                s = r1 + r2
                G = (a[:, None] / G.sum(1, keepdims=True)) ** (r1 / s) * (b[None] / np.maximum(G.sum(0), 1e-300)) ** (r2 / s) * np.exp(-D / s) * G
            v = total(G, D, a, b, None, 0, r1, r2)
        else:
            rho = r2 if r1 == inf else r1
            if r1 == inf:
                a, b, D = b, a, D.T
            # second marginal fixed, first relaxed: mirror descent on columns
            G = np.outer(a, b)
            G *= b / G.sum(0)
            for _ in range(6000):
                G = G * (a[:, None] / G.sum(1, keepdims=True)) * np.exp(-D / rho)
                G *= b / G.sum(0)
            v = float((G * D).sum() + rho * kl(G.sum(1), a))
        _cache[key] = v
    return _cache[key]


def gen_sl(ctx):
    ctx.choose("shape", [(3, 3), (5, 4)])
    ctx.choose("fn", ["sliced_unbalanced_ot", "unbalanced_sliced_ot"])
    ctx.choose("reg_m", [1.0, (0.5, 2.0), (inf, 1.0), (1.0, inf), inf])
    ctx.choose("proj", [1, 3, 8])
    ctx.dev("w", ["none", "lcg"])
    ctx.dev("p", [2, 1])
    ctx.dev("how", ["given", "seed", "both"])


def run_sl(case):
    import torch
    n, m = case["shape"]
    r1, r2 = pair(case["reg_m"])
    X, Y = torch.tensor(I.points("signed", n, 2, 1)), torch.tensor(I.points("signed", m, 2, 2) + 0.5)
    a, b = (np.ones(n) / n, np.ones(m) / m) if case["w"] == "none" else (I.weights("lcg", n, 1), I.weights("lcg", m, 2) * (1 if r1 == r2 == inf else 1.5))
    ta, tb = (None, None) if case["w"] == "none" else (torch.tensor(a), torch.tensor(b))
    P = ot.sliced.get_random_projections(2, case["proj"], 5, backend=None, type_as=None)
    kw = dict(projections=torch.tensor(P))
    if case["how"] == "seed":
        kw = dict(n_projections=case["proj"], seed=5)
    elif case["how"] == "both":
        kw["n_projections"] = 50
    f = getattr(ot.unbalanced, case["fn"])
    r = f(X, Y, case["reg_m"], ta, tb, p=case["p"], numItermax=50, log=True, **kw)
    P = r[-1]["projections"].numpy()
    Xp, Yp = X.numpy() @ P, Y.numpy() @ P
    if case["fn"] == "sliced_unbalanced_ot":
        res, log = r
        one = []
        for l in range(case["proj"]):
            _, _, t = ot.unbalanced.uot_1d(torch.tensor(Xp[:, l]), torch.tensor(Yp[:, l]), case["reg_m"], ta, tb, p=case["p"], numItermax=50, returnCost="total")
            one.append(float(t))
        if abs(float(res) - np.mean(one)) > 1e-8 * (1 + abs(np.mean(one))):
            raise Fail("sliced:mean", "%r, mean of the one-dimensional problems %r" % (float(res), np.mean(one)))
        v = float(f(X, Y, case["reg_m"], ta, tb, p=case["p"], numItermax=50, **kw))
        if v != float(res):
            raise Fail("sliced:log-flag", "log=True changes the value")
        return round(v, 6)
    ra, rb, loss, log = r
    ra, rb, loss = ra.numpy(), rb.numpy(), float(loss)
    if ra.shape != (n,) or rb.shape != (m,) or abs(ra.sum() - rb.sum()) > 1e-8:
        raise Fail("usot:marginals", "%r %r" % (ra, rb))
    W = np.mean([ot.emd2(ra / ra.sum(), rb / rb.sum(), np.abs(Xp[:, l][:, None] - Yp[:, l][None]) ** case["p"]) * ra.sum() for l in range(case["proj"])])
    want = W + (r1 * kl(ra, a) if r1 != inf else 0) + (r2 * kl(rb, b) if r2 != inf else 0)
    if abs(loss - want) > 1e-7 * (1 + abs(want)):
        raise Fail("usot:value", "%r, objective of the returned marginals %r" % (loss, want))
    # the dual step may not leave the objective above that of the initial marginals when both are comparable
    if r1 != inf and r2 != inf:
        base = abs(a.sum() - b.sum())
        W0 = np.mean([ot.emd2(a / a.sum(), b / b.sum(), np.abs(Xp[:, l][:, None] - Yp[:, l][None]) ** case["p"]) for l in range(case["proj"])])
        s = min(W0 * t + r1 * kl(a / a.sum() * t, a) + r2 * kl(b / b.sum() * t, b) for t in np.linspace(0.05, 2, 40))
        if loss > s + 0.02 * (1 + s):
            raise Fail("usot:optimal", "objective %r, but rescaled inputs reach %r" % (loss, s))
    return round(loss, 6)


def scopes(tier):
    global TIER
    TIER = tier
    return [
        Scope("entropic", gen, run, dev=1, thorough_dev=2, doc="method x penalties x options; first order conditions of the documented problem"),
        Scope("histograms", gen_hist, run_hist, dev=2, thorough_dev=2),
        Scope("mm_lbfgs", gen_mm, run_mm, dev=1, thorough_dev=2),
        Scope("barycenter", gen_bary, run_bary, dev=1, thorough_dev=2),
        Scope("one_d", gen_1d, run_1d, dev=1, thorough_dev=2),
        Scope("sliced", gen_sl, run_sl, dev=1, thorough_dev=2),
    ]
