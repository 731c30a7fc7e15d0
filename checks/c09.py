"""C09: every Sinkhorn variant returns the entropic OT plan, or says it did not."""
BACKENDS = ()
OMP = 1
import itertools
import functools
import itertools
import warnings

import numpy as np
import ot

from mc import instances as I
from mc import oracle
from mc.engine import Fail, Scope

ASSUMPTIONS = ("cost/regularisation ratios up to 30 in the convergence scopes; smaller regularisation is only required to end with a correct plan or a warning",)
TIER = "quick"
METHODS = ["sinkhorn", "sinkhorn_log", "greenkhorn", "sinkhorn_stabilized", "sinkhorn_epsilon_scaling"]


@functools.lru_cache(maxsize=4000)
def _ref(key):
    wa, wb, cost, n, m, reg, scale = key
    return oracle.sinkhorn_ref(I.weights(wa, n, 1), I.weights(wb, m, 2), mk_cost(cost, n, m) * scale, reg)


def mk_cost(kind, n, m):
    M = I.cost(kind, n, m, 5)
    return M / max(np.abs(M).max(), 1e-300)


def call(f, *a, **k):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = f(*a, **k)
    txt = [str(x.message) for x in w if "converge" in str(x.message) or "umerical error" in str(x.message)]
    return r, txt


def gen(ctx):
    ctx.choose("shape", [(1, 1), (2, 2), (1, 4), (3, 4), (6, 5), (13, 11)])
    ctx.choose("method", METHODS)
    ctx.choose("reg", [0.3, 0.1] if TIER == "quick" else [0.3, 1.0, 0.1, 10.0])
    ctx.dev("cost", ["lcg", "ties", "neg", "zero", "rank1", "mixed"])
    wa, wb = ctx.dev("w", [("lcg", "lcg"), ("uniform", "uniform"), ("zeros", "lcg"), ("lcg", "zeros"), ("zeros", "zeros"), ("zero_end", "zeros"), ("zeros", "zero_end"),
                           ("dirac", "ramp"), ("lcg", "dirac"), ("dirac", "dirac"), ("ramp", "spiky"), ("zeros", "dirac")])
    ctx.case.update(wa=wa, wb=wb)
    ctx.dev("scale", [1.0, 3.0, 0.05])
    ctx.dev("lay", ["C", "F", "strided", "list"])
    ctx.dev("warm", ["none", "lin", "const", "big"])
    ctx.dev("tau", [None, 1.5, 10.0])


def run(case):
    n, m = case["shape"]
    meth, reg = case["method"], case["reg"]
    a, b, M = I.weights(case["wa"], n, 1), I.weights(case["wb"], m, 2), mk_cost(case["cost"], n, m) * case["scale"]
    want = _ref((case["wa"], case["wb"], case["cost"], n, m, reg, case["scale"]))
    kw = dict(numItermax=20000, stopThr=1e-11, method=meth)
    if meth == "greenkhorn":
        kw.update(numItermax=50000, stopThr=1e-8)  # its marginal errors are updated incrementally
    if case["tau"] is not None and meth in ("sinkhorn_stabilized", "sinkhorn_epsilon_scaling"):
        kw["tau"] = case["tau"]
    if meth == "sinkhorn_epsilon_scaling":
        kw["numItermax"] = 100
        kw["numInnerItermax"] = 500
    if case["warm"] != "none":
        s = {"lin": 0.2, "const": 0.0, "big": 2.0}[case["warm"]]
        kw["warmstart"] = (np.arange(n) * s - 0.3 * (s == 0), 0.5 - np.arange(m) * s)
    ar = [z.tolist() if case["lay"] == "list" else (I.layout(z, case["lay"]) if (case["lay"] != "F" or z.ndim == 2) else z) for z in (a, b, M)]
    (G, log), w = call(ot.sinkhorn, *ar, reg, log=True, **kw)
    G = np.asarray(G)
    if w and meth == "greenkhorn" and min(a.min(), b.min()) < 1e-2:
        return "slow"  # the greedy rule visits a bin without mass last; announced
    if w:
        raise Fail("plan:no-convergence:" + meth, "%s does not converge on a mild problem: %s" % (meth, w[:2]))
    if G.shape != (n, m) or not np.all(np.isfinite(G)) or G.min() < 0:
        raise Fail("plan:invalid:" + meth, "%s: %r" % (meth, G))
    tol = 1e-6 if meth != "greenkhorn" else 1e-5
    if np.abs(G.sum(1) - a).max() > tol or np.abs(G.sum(0) - b).max() > tol:
        raise Fail("plan:marginals:" + meth, "%s: marginal error %g %g" % (meth, np.abs(G.sum(1) - a).max(), np.abs(G.sum(0) - b).max()))
    if np.abs(G - want).max() > tol:
        raise Fail("plan:optimal:" + meth, "%s: distance to the entropic plan %g" % (meth, np.abs(G - want).max()))
    G2, _ = call(ot.sinkhorn, *ar, reg, **kw)
    if not np.array_equal(np.asarray(G2), G):
        raise Fail("plan:log-flag:" + meth, "log=True changes the plan")
    # the potentials in the log reproduce the plan
    if meth in ("sinkhorn", "sinkhorn_log", "greenkhorn"):
        K = np.asarray(log["u"])[:, None] * np.exp(-M / reg) * np.asarray(log["v"])[None]
    else:
        K = np.exp((np.asarray(log["alpha"])[:, None] + np.asarray(log["beta"])[None] - M) / reg)
    if np.abs(K - G).max() > 1e-6:
        raise Fail("plan:potentials:" + meth, "logged scalings do not reproduce the plan (%g)" % np.abs(K - G).max())
    if meth in ("sinkhorn", "sinkhorn_log", "sinkhorn_stabilized"):
        v, _ = call(ot.sinkhorn2, *ar, reg, **kw)
        if abs(v - (want * M).sum()) > 1e-6 * (1 + np.abs(M).max()):
            raise Fail("plan:value:" + meth, "sinkhorn2 %r, plan cost %r" % (v, (want * M).sum()))
    return round(float((G * M).sum()), 7)


CAPS = list(range(1, 13)) + [20, 21, 22, 31, 50, 101, 200]


def gen_cap(ctx):
    ctx.choose("shape", [(2, 2), (4, 3)] if TIER == "quick" else [(2, 2), (4, 3), (9, 10)])
    ctx.choose("cost", ["lcg", "ties"])
    ctx.choose("reg", [1.0, 0.1, 0.001])
    ctx.choose("method", METHODS)
    ctx.choose("w", ["lcg", "zeros"])


def run_cap(case):
    n, m = case["shape"]
    a, b, M = I.weights(case["w"], n, 1), I.weights(case["w"], m, 2), mk_cost(case["cost"], n, m)
    kw = dict(method=case["method"])
    if case["method"] == "sinkhorn_epsilon_scaling":
        kw.update(numInnerItermax=5)
    ok = 0
    for cap in CAPS:
        # a cheap stopping threshold, so that some budgets are met and others are not
        for thr in (1e-9, 1e-3):
            (G, log), w = call(ot.sinkhorn, a, b, M, case["reg"], numItermax=cap, stopThr=thr, log=True, **kw)
            G = np.asarray(G)
            if not w:
                ok += 1
                if not np.all(np.isfinite(G)) or G.min() < 0:
                    raise Fail("caps:finite:" + case["method"], "no warning but the plan is %r" % G)
                e = max(np.abs(G.sum(1) - a).max(), np.abs(G.sum(0) - b).max())
                if e > np.sqrt(thr) * 1.1 if case["method"] == "sinkhorn_epsilon_scaling" else e > 2.1 * thr + 1e-12:
                    raise Fail("caps:silent:" + case["method"], "%s stops after numItermax=%d, stopThr=%g without a warning; marginal error %g" % (case["method"], cap, thr, e))
            _, w2 = call(ot.sinkhorn, a, b, M, case["reg"], numItermax=cap, stopThr=thr, warn=False, **kw)
            if any("converge" in x for x in w2):
                raise Fail("caps:warn-false:" + case["method"], "a convergence warning in spite of warn=False")
            if bool(w) and not all("umerical" in x for x in w) and "err" in log and len(log["err"]) and log["err"][-1] <= thr and cap % 10 == 1 and case["method"] in ("sinkhorn", "sinkhorn_log"):
                raise Fail("caps:spurious:" + case["method"], "warns although the last logged error is %g" % log["err"][-1])
    return dict(inner=len(CAPS) * 4, states=len(CAPS) * 4, transitions=len(CAPS) * 4, outcome=(ok, case["method"], case["reg"]))


def gen_hist(ctx):
    ctx.choose("shape", [(2, 2), (4, 3), (9, 12)])
    ctx.choose("k", [1, 3] if TIER == "quick" else [1, 2, 3, 5])
    ctx.choose("cost", ["lcg", "ties", "rank1"])
    ctx.choose("reg", [0.3, 0.1])
    ctx.choose("method", ["sinkhorn", "sinkhorn_log", "sinkhorn_stabilized"])
    ctx.dev("fn", ["sinkhorn2", "sinkhorn"])
    ctx.dev("tau", [1e3, 10.0])
    ctx.choose("wb", ["lcg", "zeros", "mix"])


def run_hist(case):
    n, m = case["shape"]
    k = case["k"]
    a, M = I.weights("lcg", n, 1), mk_cost(case["cost"], n, m)
    B = np.stack([I.weights(case["wb"] if case["wb"] != "mix" else ["lcg", "spiky", "dirac", "ramp", "zeros"][q], m, q + 1) for q in range(k)], 1)
    f = getattr(ot, case["fn"])
    known = []
    (v, log), w = call(f, a, B, M, case["reg"], method=case["method"], numItermax=5000, stopThr=1e-11, log=True, tau=case["tau"])
    v = np.asarray(v)
    want = np.array([(oracle.sinkhorn_ref(a, B[:, q], M, case["reg"]) * M).sum() for q in range(k)])
    if v.shape != (k,):
        raise Fail("hist:shape:" + case["method"], "%d histograms give a result of shape %r" % (k, v.shape))
    bad = not np.all(np.isfinite(v)) or np.abs(v - want).max() > 1e-6
    if bad and not w:
        raise Fail("hist:value:" + case["method"], "values %r, one by one %r" % (v, want))
    if w and case["tau"] == 1e3 and case["reg"] > 0.2 and (B > 0).all():
        raise Fail("hist:no-convergence:" + case["method"], "%s" % w[:2])
    v2, _ = call(f, a, B, M, case["reg"], method=case["method"], numItermax=5000, stopThr=1e-11, tau=case["tau"])
    if not np.array_equal(np.asarray(v2), v, equal_nan=True):
        raise Fail("hist:log-flag:" + case["method"], "log=True changes the values")
    return dict(outcome=(round(float(v.sum()), 7), bool(w)), known=known)


def gen_emp(ctx):
    ctx.choose("shape", [(1, 1), (3, 2), (7, 9), (25, 20)])
    ctx.choose("d", [1, 2, 3])
    ctx.choose("metric", ["sqeuclidean", "euclidean", "cityblock"])
    ctx.dev("reg", [0.5, 2.0, 0.2])
    ctx.dev("wa", ["none", "lcg", "ramp"])
    ctx.dev("wb", ["none", "lcg", "zeros"])
    ctx.dev("batch", [100, 1, 4, 7, (3, 5), (1, 100), 9])
    ctx.dev("pts", ["lcg", "dup", "signed"])
    ctx.dev("lay", ["C", "F", "strided", "list"])


def run_emp(case):
    n, m = case["shape"]
    X, Y = I.points(case["pts"], n, case["d"], 1), I.points(case["pts"], m, case["d"], 2)
    if case["pts"] == "signed":
        X, Y = X / 2, Y / 2
    a = None if case["wa"] == "none" else I.weights(case["wa"], n, 1)
    b = None if case["wb"] == "none" else I.weights(case["wb"], m, 2)
    ax, bx = (np.ones(n) / n if a is None else a), (np.ones(m) / m if b is None else b)
    c = lambda U, V: {"sqeuclidean": ((U[:, None] - V) ** 2).sum(-1), "euclidean": np.sqrt(((U[:, None] - V) ** 2).sum(-1)), "cityblock": np.abs(U[:, None] - V).sum(-1)}[case["metric"]]
    reg = case["reg"]
    M = c(X, Y)
    P = oracle.sinkhorn_ref(ax, bx, M, reg)
    val = (P * M).sum()
    Xl, Yl = (X.tolist(), Y.tolist()) if case["lay"] == "list" else (I.layout(X, case["lay"]), I.layout(Y, case["lay"]))
    kw = dict(metric=case["metric"], numIterMax=20000, stopThr=1e-11)
    tol = 1e-6 * (1 + M.max())
    G, w = call(ot.bregman.empirical_sinkhorn, Xl, Yl, reg, a, b, **kw)
    if w or np.abs(np.asarray(G) - P).max() > 1e-6:
        raise Fail("emp:plan", "dense: %s, error %g" % (w, np.abs(np.asarray(G) - P).max()))
    (f, g, log), w = call(ot.bregman.empirical_sinkhorn, Xl, Yl, reg, a, b, isLazy=True, batchSize=case["batch"], log=True, **kw)
    with np.errstate(all="ignore"):
        Q = np.exp(np.asarray(f)[:, None] + np.asarray(g)[None] - M / reg)
    if w or not np.abs(Q - P).max() <= 1e-6:
        raise Fail("emp:lazy-potentials", "batch %r: %s, error %g" % (case["batch"], w, np.abs(Q - P).max()))
    T = log["lazy_plan"]
    if tuple(T.shape) != (n, m) or not np.abs(np.asarray(T[:]) - P).max() <= 1e-6:
        raise Fail("emp:lazy-plan", "lazy plan")
    for i, j in ((0, 0), (n - 1, m - 1)):
        if abs(float(np.asarray(T[i, j]).reshape(-1)[0]) - P[i, j]) > 1e-6:
            raise Fail("emp:lazy-item", "T[%d,%d]" % (i, j))
    if np.abs(np.asarray(T[n // 2:, : m // 2 + 1]) - P[n // 2:, : m // 2 + 1]).max() > 1e-6:
        raise Fail("emp:lazy-slice", "sliced lazy plan")
    for lazy in (False, True):
        v, w = call(ot.bregman.empirical_sinkhorn2, Xl, Yl, reg, a, b, isLazy=lazy, batchSize=case["batch"], **kw)
        if w or not abs(v - val) <= tol:
            raise Fail("emp:value:lazy=%s" % lazy, "batch %r: %r, expected %r %s" % (case["batch"], v, val, w))
        (v, lg), w = call(ot.bregman.empirical_sinkhorn2, Xl, Yl, reg, a, b, isLazy=lazy, batchSize=case["batch"], log=True, **kw)
        if w or not abs(v - val) <= tol:
            raise Fail("emp:value-log:lazy=%s" % lazy, "batch %r: %r, expected %r" % (case["batch"], v, val))
    Ma, Mb = c(X, X), c(Y, Y)
    div = val - 0.5 * ((oracle.sinkhorn_ref(ax, ax, Ma, reg) * Ma).sum() + (oracle.sinkhorn_ref(bx, bx, Mb, reg) * Mb).sum())
    (d, lg), w = call(ot.bregman.empirical_sinkhorn_divergence, Xl, Yl, reg, a, b, log=True, **kw)
    d2, _ = call(ot.bregman.empirical_sinkhorn_divergence, Xl, Yl, reg, a, b, **kw)
    if w and max(M.max(), Ma.max(), Mb.max()) > 8 * reg:
        pass  # slow convergence, announced
    elif w or abs(d - max(div, 0)) > 2 * tol or d2 != d:
        raise Fail("emp:divergence", "%r %r, expected %r %s" % (d, d2, max(div, 0), w))
    if case["metric"] == "sqeuclidean" and reg >= 0.5 and case["pts"] != "dup" and n * m <= 63:
        # enough anchors: the Nystroem kernel is the kernel
        Xn, Yn = np.asarray(X), np.asarray(Y)
        (T, lg), w = call(ot.bregman.empirical_sinkhorn_nystroem, Xn, Yn, reg, anchors=4 * max(n, m, 1), a=a, b=b, numItermax=20000, stopThr=1e-10, random_state=3, log=True)
        v, _ = call(ot.bregman.empirical_sinkhorn_nystroem2, Xn, Yn, reg, anchors=4 * max(n, m, 1), a=a, b=b, numItermax=20000, stopThr=1e-10, random_state=3)
        if np.abs(np.asarray(T[:]) - P).max() > 1e-3 or abs(v - val) > 1e-3 * (1 + M.max()):
            raise Fail("emp:nystroem", "plan error %g, value %r expected %r" % (np.abs(np.asarray(T[:]) - P).max(), v, val))
    return round(float(val), 7)


def gen_misc(ctx):
    ctx.choose("shape", [(2, 2), (4, 3), (10, 9)])
    ctx.choose("cost", ["lcg", "ties", "rank1"])
    ctx.choose("reg", [1.0, 0.3, 0.1])
    ctx.choose("w", ["uniform", "lcg", "ramp"])
    ctx.choose("what", ["screen", "lowrank", "proj", "defaults", "dtype", "resume"])


def run_misc(case):
    n, m = case["shape"]
    a, b, M = I.weights(case["w"], n, 1), I.weights(case["w"], m, 2), mk_cost(case["cost"], n, m)
    reg = case["reg"]
    P = oracle.sinkhorn_ref(a, b, M, reg)
    w = case["what"]
    known = []
    if w == "screen":
        G, log = call(ot.bregman.screenkhorn, a, b, M, reg, ns_budget=n, nt_budget=m, log=True)[0]
        if np.abs(G - P).max() > (5e-3 if reg > 0.2 else 3e-2):
            raise Fail("screen:full", "full budgets: error %g" % np.abs(G - P).max())
        for fr, uni, res, Mf in itertools.product((0.5, 0.8), (False, True), (True, False), (M, M * 0 + 0.7)):
                if uni and case["w"] != "uniform":
                    continue
                try:
                    G = call(ot.bregman.screenkhorn, a, b, Mf, reg, ns_budget=max(1, int(fr * n)), nt_budget=max(1, int(fr * m)), uniform=uni, restricted=res)[0]
                except ValueError as e:
                    if "lower bounds" not in str(e):
                        raise
                    known.append(("screen:bounds", str(e)))
                    continue
                if not np.all(np.isfinite(G)) or G.min() < 0 or abs(G.sum() - 1) > 1e-9:
                    raise Fail("screen:sane", "budget %g: sum %r" % (fr, G.sum()))
    elif w == "lowrank":
        K = np.exp(-M / reg)
        U, S, Vt = np.linalg.svd(K, full_matrices=False)
        (u, v, log), wr = call(ot.lowrank.sinkhorn_low_rank_kernel, U * S, Vt.T.copy(), a, b, numItermax=20000, stopThr=1e-11, log=True)
        G = u[:, None] * K * v[None]
        if np.abs(G - P).max() > 1e-6 or np.abs(np.asarray(log["lazy_plan"][:]) - P).max() > 1e-6 or wr:
            raise Fail("lowrank:kernel", "error %g %s" % (np.abs(G - P).max(), wr))
    elif w == "proj":
        G = ot.bregman.projR(M + 1.5, a)
        H = ot.bregman.projC(M + 1.5, b)
        if np.abs(G.sum(1) - a).max() > 1e-12 or np.abs(H.sum(0) - b).max() > 1e-12:
            raise Fail("proj", "projections")
    elif w == "defaults":
        P0 = oracle.sinkhorn_ref(np.ones(n) / n, np.ones(m) / m, M, reg)
        for meth in METHODS:
            G, wr = call(ot.sinkhorn, [], [], M, reg, method=meth, numItermax=100000 if meth == "greenkhorn" else 5000 if "eps" not in meth else 100, stopThr=1e-11)
            if wr or np.abs(np.asarray(G) - P0).max() > 1e-6:
                raise Fail("defaults:" + meth, "empty weights: error %g %s" % (np.abs(np.asarray(G) - P0).max(), wr))
        Mi = np.rint(M * 3).astype(int)
        Pi = oracle.sinkhorn_ref(a, b, Mi, 1.0)
        for meth in METHODS:
            for nm, (aa, bb, want) in dict(given=(a, b, Pi), empty=([], [], oracle.sinkhorn_ref(np.ones(n) / n, np.ones(m) / m, Mi, 1.0))).items():
                G, wr = call(ot.sinkhorn, aa, bb, Mi, 1.0, method=meth, numItermax=100000 if meth == "greenkhorn" else 5000 if "eps" not in meth else 100, stopThr=1e-11)
                if wr or not np.abs(np.asarray(G) - want).max() <= 1e-6:
                    raise Fail("integer-cost:%s:%s" % (nm, meth), "integer cost matrix: error %g %s" % (np.abs(np.asarray(G) - want).max(), wr))
    elif w == "dtype":
        for meth in METHODS:
            G, _ = call(ot.sinkhorn, a.astype(np.float32), b.astype(np.float32), M.astype(np.float32), reg, method=meth, numItermax=3000 if "eps" not in meth else 100, stopThr=1e-6)
            if np.asarray(G).dtype != np.float32 and "eps" not in meth:
                raise Fail("dtype:" + meth, "float32 inputs give a %s plan" % np.asarray(G).dtype)
            if np.abs(np.asarray(G) - P).max() > 2e-3:
                raise Fail("float32:" + meth, "error %g" % np.abs(np.asarray(G) - P).max())
    elif w == "resume":
        for meth in ("sinkhorn", "sinkhorn_log", "sinkhorn_stabilized", "greenkhorn"):
            for cut in (1, 3, 11, 25):
                kw = dict(method=meth, stopThr=1e-11)
                (G, log), _ = call(ot.sinkhorn, a, b, M, reg, numItermax=cut, log=True, **kw)
                if meth == "sinkhorn_stabilized":
                    ws = log["warmstart"]
                elif meth == "sinkhorn_log":
                    ws = (log["log_u"], log["log_v"])
                else:
                    ws = (np.log(log["u"]), np.log(log["v"]))
                (G2, l2), wr = call(ot.sinkhorn, a, b, M, reg, numItermax=100000, log=True, warmstart=ws, **kw)
                if wr or np.abs(np.asarray(G2) - P).max() > 1e-6:
                    raise Fail("resume:" + meth, "resumed after %d iterations: error %g" % (cut, np.abs(np.asarray(G2) - P).max()))
    return dict(outcome=(case["shape"], case["cost"], reg, w), known=known[:1])


def scopes(tier):
    global TIER
    TIER = tier
    return [
        Scope("plans", gen, run, dev=1, thorough_dev=3, doc="method x problem x options against a Newton reference"),
        Scope("budgets", gen_cap, run_cap, doc="an interruption at every iteration budget"),
        Scope("histograms", gen_hist, run_hist, dev=1, thorough_dev=2),
        Scope("empirical", gen_emp, run_emp, dev=1, thorough_dev=3),
        Scope("misc", gen_misc, run_misc),
    ]
