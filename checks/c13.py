"""C13: ot.solve_sample agrees with the problem on the cost of the samples, for every method, metric and option."""
BACKENDS = ("torch", "jax", "geomloss")
OMP = 2
import warnings

import numpy as np
import ot
from scipy.spatial.distance import cdist

from mc import instances as I
from mc import oracle
from mc.engine import Fail, Scope

ASSUMPTIONS = ("geomloss, Nystroem and factored solvers are approximate: only the invariants they guarantee are required",)
TIER = "quick"
inf = float("inf")


def call(f, *a, **k):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = f(*a, **k)
    return r, [str(x.message) for x in w if "onverge" in str(x.message) or "umerical error" in str(x.message)]


def backend(arr):
    import ot.backend as B
    if arr == "jax":
        import jax
        jax.config.update("jax_enable_x64", True)
        return B.JaxBackend()
    return B.TorchBackend() if arr.startswith("torch") else B.NumpyBackend()


def samples(case):
    n, m, d = case["shape"]
    X, Y = I.points(case.get("pts", "signed"), n, d, 1), I.points(case.get("pts", "signed"), m, d, 2) + 0.25
    a, b = [np.ones(k) / k if w == "none" else I.weights(w, k, s) for w, k, s in zip(case["w"], (n, m), (1, 2))]
    return X, Y, a, b


def conv(case, z):
    arr = case["arr"]
    if z is None:
        return None
    if arr in ("C", "F", "strided"):
        return I.layout(z, arr) if (arr != "F" or z.ndim == 2) else z
    return backend(arr).from_numpy(z)


def num(case, z):
    nx = backend(case["arr"])
    if isinstance(z, float):
        return np.asarray(z)
    return np.asarray(nx.to_numpy(nx.detach(z)) if case["arr"][0] in "tj" else z, float)


W = [("lcg", "lcg"), ("none", "none"), ("none", "ramp"), ("ramp", "none"), ("zeros", "lcg"), ("lcg", "zeros"), ("spiky", "uniform")]
METRICS = ["sqeuclidean", "euclidean", "cityblock", "cosine", "chebyshev"]


def gen(ctx):
    ctx.choose("lazy", [False, True])
    ctx.choose("metric", METRICS if not ctx.case["lazy"] else METRICS[:3] + ["cosine"])
    ctx.choose("prob", ["exact", "KL", "entropy", "L2", "ub", "ub-reg"] if not ctx.case["lazy"] else ["exact", "KL", "entropy"])
    ctx.dev("shape", [(4, 3, 2), (1, 1, 1), (6, 5, 1), (3, 8, 3), (13, 12, 2)])
    ctx.dev("w", W)
    ctx.dev("arr", ["C", "F", "strided", "torch", "jax"])
    ctx.dev("batch", [None, 1, 2, 100])
    ctx.dev("threads", [1, 2])
    ctx.dev("pts", ["signed", "grid", "dup"])


def run(case):
    X, Y, a, b = samples(case)
    lazy, metric, prob = case["lazy"], case["metric"], case["prob"]
    if metric == "cosine":
        X, Y = X + 3, Y + 3
    if lazy and prob == "exact" and (metric == "cosine" or case["arr"] in ("jax",) or (X.shape[0] == 0)):
        return "n/a"
    if metric == "chebyshev" and case["arr"][0] in "tj":
        return "n/a"
    eps = 1e-5 if prob == "L2" else 1e-7
    C = cdist(X, Y, metric)
    reg = {"exact": None, "KL": 0.5, "entropy": 0.5, "L2": 0.5, "ub": None, "ub-reg": 0.5}[prob] 
    if reg:
        reg = reg * C.max() if C.max() > 0 else reg
    kw = dict(reg=reg, metric=metric, lazy=lazy, n_threads=case["threads"])
    if prob in ("KL", "entropy", "L2"):
        kw["reg_type"] = prob
    if prob.startswith("ub"):
        kw["unbalanced"] = 1.0
    if case["batch"]:
        kw["batch_size"] = case["batch"]
    if reg or prob == "ub":
        kw.update(max_iter=20000, tol=1e-11)
    ar = [conv(case, X), conv(case, Y)] + [None if w == "none" else conv(case, z) for w, z in zip(case["w"], (a, b))]
    tag = "%s:%s:%s" % (prob, "lazy" if lazy else "dense", metric)
    if case["arr"] != "C":
        tag += ":" + case["arr"]
    try:
        res, w = call(ot.solve_sample, *ar, **kw)
    except Exception as e:
        raise Fail("raised:" + tag, repr(e)[:300])
    if w:
        raise Fail("warned:" + tag, "%s" % w[:2])
    ref, _ = call(ot.solve, C, a, b, **{k: v for k, v in kw.items() if k not in ("metric", "lazy", "batch_size")})
    lin = float(num(case, res.value_linear))
    sc = 1 + C.max()
    if abs(lin - float(ref.value_linear)) > eps * sc:
        raise Fail("value:" + tag, "value_linear %r, on the cost matrix %r" % (lin, float(ref.value_linear)))
    if res.value is not None:
        v = float(num(case, res.value))
        if abs(v - float(ref.value)) > eps * sc:
            raise Fail("value:" + tag, "value %r, on the cost matrix %r" % (v, float(ref.value)))
    elif not lazy:
        raise Fail("value:" + tag, "no value")
    if lazy and prob != "exact":
        L = res.lazy_plan
        P = num(case, L[:])
        if res.plan is not None:
            raise Fail("fields:" + tag, "a lazy call has a dense plan")
        if P.shape != C.shape or np.abs(P - np.asarray(ref.plan)).max() > 1e-7:
            raise Fail("plan:" + tag, "lazy plan differs by %g" % np.abs(P - np.asarray(ref.plan)).max())
        ma, mb = num(case, res.marginal_a), num(case, res.marginal_b)
        if np.abs(ma - P.sum(1)).max() > 1e-9 or np.abs(mb - P.sum(0)).max() > 1e-9:
            raise Fail("marginals:" + tag, "lazy marginals %r %r" % (ma, mb))
        u, v = [num(case, z) for z in res.potentials]
        with np.errstate(all="ignore"):
            Q = np.exp(u[:, None] + v[None] - C / reg)
        Q[a == 0] = 0
        Q[:, b == 0] = 0
        if np.abs(Q - P).max() > 1e-7:
            raise Fail("potentials:" + tag, "the potentials give another plan (%g)" % np.abs(Q - P).max())
    else:
        P = num(case, res.plan)
        if P.shape != C.shape or P.min() < 0 or abs((P * C).sum() - lin) > eps * sc:
            raise Fail("plan:" + tag, "plan of cost %r, value %r" % ((P * C).sum(), lin))
        if prob == "exact":
            if max(np.abs(P.sum(1) - a).max(), np.abs(P.sum(0) - b).max()) > 1e-9:
                raise Fail("marginals:" + tag, "%r %r" % (P.sum(1), P.sum(0)))
            u, v = [num(case, z) for z in res.potentials]
            S = (u[:, None] + v[None] - C)[np.ix_(a > 0, b > 0)]
            if S.max() > 1e-8 * sc or abs(u @ a + v @ b - lin) > 1e-8 * sc:
                raise Fail("potentials:" + tag, "infeasible by %g, gap %g" % (S.max(), u @ a + v @ b - lin))
            if res.status != "Converged":
                raise Fail("status:" + tag, "%r" % (res.status,))
        elif np.abs(P - np.asarray(ref.plan)).max() > 10 * eps:
            raise Fail("plan:" + tag, "plan differs by %g" % np.abs(P - np.asarray(ref.plan)).max())
    return round(lin, 6)


def gen_m(ctx):
    ctx.choose("method", ["1d", "gaussian", "factored", "lowrank", "nystroem", "geomloss", "geomloss_tensorized"])
    ctx.choose("metric", ["sqeuclidean", "euclidean", "cityblock"])
    ctx.dev("shape", [(5, 4, 2), (4, 4, 1), (7, 3, 3), (13, 12, 2)])
    ctx.dev("w", W)
    ctx.dev("lazy", [False, True])
    ctx.dev("reg", [1.0, 0.2, 3.0] if ctx.case["method"].startswith("geomloss") else [None, 1.0, 3.0])
    ctx.dev("rank", [100, 2, 3])
    ctx.dev("case", ["lower", "upper"])
    ctx.dev("arr", ["C", "F", "torch"])


def sqrtm(S):
    w, V = np.linalg.eigh(S)
    return (V * np.sqrt(np.maximum(w, 0))) @ V.T


def run_m(case):
    X, Y, a, b = samples(case)
    meth, metric = case["method"], case["metric"]
    reg, lazy = case["reg"], case["lazy"]
    if meth.startswith("geomloss"):
        if reg is None or metric == "cityblock":
            return "n/a"
    C = cdist(X, Y, metric)
    kw = dict(metric=metric, method=meth if case["case"] == "lower" else meth.upper(), lazy=lazy, reg=reg, rank=case["rank"])
    if meth in ("nystroem", "lowrank"):
        kw["random_state"] = 3
        kw.update(max_iter=20000 if meth == "nystroem" else 3000)
    if meth == "factored":
        kw["X_init"] = conv(case, 0.5 * (I.points("signed", case["rank"], X.shape[1], 7)))
        kw["max_iter"] = 30
    ar = [conv(case, X), conv(case, Y)] + [None if w == "none" else conv(case, z) for w, z in zip(case["w"], (a, b))]
    tag = meth
    zero = "zeros" in case["w"]
    if meth in ("gaussian", "factored", "lowrank", "nystroem") and metric != "sqeuclidean":
        try:
            call(ot.solve_sample, *ar, **kw)
        except NotImplementedError:
            return "rejected"
        raise Fail("metric:" + tag, "metric %s accepted" % metric)
    if zero and meth in ("lowrank", "geomloss", "geomloss_tensorized"):
        return "n/a"
    if meth == "factored" and (reg or case["rank"] == 100):
        if case["rank"] == 100 and not reg:
            pass
    try:
        res, w = call(ot.solve_sample, *ar, **kw)
    except Exception as e:
        raise Fail("raised:" + tag, repr(e)[:300])
    if meth == "1d":
        p = 2 if metric == "sqeuclidean" else 1
        v = num(case, res.value).ravel()
        want = [oracle.line_cost(X[:, k], Y[:, k], a, b, p) for k in range(X.shape[1])]
        if v.shape != (X.shape[1],) or np.abs(v - want).max() > 1e-9 * (1 + max(want)):
            raise Fail("value:" + tag, "%r, exact %r" % (v, want))
        return round(float(v.sum()), 6)
    if meth == "gaussian":
        r = 1e-6 if reg is None else reg
        d = X.shape[1]
        mx, my = a @ X, b @ Y
        S, T = [(Z - mu).T @ ((Z - mu) * q[:, None]) + r * np.eye(d) for Z, mu, q in ((X, mx, a), (Y, my, b))]
        h = sqrtm(S)
        want = ((mx - my) ** 2).sum() + np.trace(S + T - 2 * sqrtm(h @ T @ h))
        v = float(num(case, res.value))
        if abs(v - want) > 1e-6 * (1 + want):
            raise Fail("value:" + tag, "%r, weighted Bures-Wasserstein %r" % (v, want))
        return round(v, 6)
    P = num(case, res.lazy_plan[:])
    if P.shape != C.shape or not np.isfinite(P).all() or P.min() < -1e-7:
        raise Fail("plan:" + tag, "%r" % P)
    if (res.plan is None) != lazy or (not lazy and np.abs(num(case, res.plan) - P).max() > 1e-12):
        raise Fail("fields:" + tag, "plan given: %r for lazy=%r" % (res.plan is not None, lazy))
    ma, mb = num(case, res.marginal_a), num(case, res.marginal_b)
    if np.abs(ma - P.sum(1)).max() > 1e-9 or np.abs(mb - P.sum(0)).max() > 1e-9:
        raise Fail("fields:marginals:" + tag, "%r %r" % (ma, mb))
    err = max(np.abs(P.sum(1) - a).max(), np.abs(P.sum(0) - b).max())
    if not w and err > {"factored": 1e-6 if reg else 1e-9, "lowrank": 1e-4, "nystroem": 1e-4}.get(meth, 5e-2):
        raise Fail("marginals:" + tag, "%r %r for %r %r" % (P.sum(1), P.sum(0), a, b))
    v = float(num(case, res.value)) if res.value is not None else None
    if meth == "lowrank":
        lin = float(num(case, res.value_linear))
        if abs(lin - (P * C).sum()) > 1e-7 * (1 + C.max()):
            raise Fail("value:" + tag, "value_linear %r, cost of the plan %r" % (lin, (P * C).sum()))
        if np.linalg.matrix_rank(P, tol=1e-9) > case["rank"]:
            raise Fail("rank:" + tag, "rank %d" % np.linalg.matrix_rank(P, tol=1e-9))
        return round(lin, 5)
    if meth == "factored":
        lin = float(num(case, res.value_linear))
        if np.linalg.matrix_rank(P, tol=1e-9) > case["rank"]:
            raise Fail("rank:" + tag, "rank %d" % np.linalg.matrix_rank(P, tol=1e-9))
        lo = oracle.transport_lp(a, b, C)
        if lin < lo / 2 - 1e-6 * (1 + lo) or abs(v - lin) > 0:
            raise Fail("value:" + tag, "value %r, below half of the optimum %r" % (lin, lo))
        if not reg and case["rank"] == 100 and lin > lo * 1.2 + 0.3 * C.max():
            raise Fail("value:" + tag, "value %r far above the optimum %r" % (lin, lo))
        return round(lin, 5)
    if meth == "nystroem":
        if case["rank"] == 100:  # all the points are anchors: the kernel is exact
            r = 1.0 if reg is None else reg
            ref, _ = call(ot.bregman.sinkhorn_log, a, b, C, r, numItermax=50000, stopThr=1e-12)
            if np.abs(P - np.asarray(ref)).max() > 1e-4:
                raise Fail("plan:" + tag, "differs from the entropic plan by %g" % np.abs(P - np.asarray(ref)).max())
            if abs(v - (P * C).sum()) > 1e-4 * (1 + C.max()):
                raise Fail("value:" + tag, "%r, plan cost %r" % (v, (P * C).sum()))
        return round(v, 4)
    # geomloss: entropic with Kullback-Leibler reference, approximate
    K = C
    G = ot.bregman.sinkhorn_log(a, b, K, reg, numItermax=50000, stopThr=1e-12, warn=False)
    with np.errstate(all="ignore"):
        want = (G * K).sum() + reg * np.where(G > 0, G * np.log(G / np.outer(a, b)), 0).sum()
    if (abs(v - want) > 0.05 * (1 + abs(want)) or np.abs(P - G).max() > 0.1):
        raise Fail("value:" + tag, "%r, entropic value %r; plans differ by %g" % (v, want, np.abs(P - G).max()))
    return round(v, 3)


def scopes(tier):
    global TIER
    TIER = tier
    return [
        Scope("routes", gen, run, dev=1, thorough_dev=2, doc="lazy x metric x problem x options against the dense problem"),
        Scope("methods", gen_m, run_m, dev=1, thorough_dev=2, doc="special solvers against what they guarantee"),
    ]
