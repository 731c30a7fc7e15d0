"""C11: Wasserstein barycenters: entropic (fixed support, debiased, convolutional), exact, free support, generalized, unmixing, JCPOT."""
BACKENDS = ("torch", "jax", "tf")
OMP = 1
import functools

import numpy as np
import ot
import scipy.sparse as sps
from ot.lp import NorthWestMMGluing, free_support_barycenter, free_support_barycenter_generic_costs, generalized_free_support_barycenter
from scipy.optimize import linprog

from checks.c14 import backend, conv, num
from checks.c15 import call
from mc import instances as I
from mc import oracle
from mc.engine import Fail, Scope

ASSUMPTIONS = ("a converged call is one that does not warn",)


def lse(X, ax):
    mx = X.max(ax, keepdims=True)
    mx = np.where(np.isfinite(mx), mx, 0)
    with np.errstate(all="ignore"):
        return (np.log(np.exp(X - mx).sum(ax, keepdims=True)) + mx).squeeze(ax)


@functools.lru_cache(None)
def ibp_(A, Ms, n, reg, w, deb):
    S = len(w)
    A = np.frombuffer(A).reshape(-1, S)
    L = [-np.frombuffer(M).reshape(A.shape[0], n) / reg for M in Ms]
    with np.errstate(all="ignore"):
        la = np.log(A)
    G, c, lb = np.zeros((S, n)), np.zeros(n), np.zeros(n)
    for t in range(1500 if deb else 8000):
        KU = [lse(L[k] + (la[:, k] - lse(L[k] + G[k][None], 1))[:, None], 0) for k in range(S)]
        nb = sum(w[k] * KU[k] for k in range(S)) + c
        if deb:
            for _ in range(3):
                c = 0.5 * (c + nb - lse(L[0] + c[:, None], 0))
        d = np.abs(nb - lb).max()
        lb, G = nb, np.array([nb - KU[k] for k in range(S)])
        if d < 1e-13:
            break
    return np.exp(lb)


def debiased(A, M, reg, w, b):
    """The debiased objective: sum_k w_k OT_reg(A_k, b) - OT_reg(b, b) / 2 (the reference measures cancel)."""
    def o(a, b):
        P = oracle.sinkhorn_ref(a, b, M, reg)
        return np.sum(P * M) + reg * np.sum(np.where(P > 0, P * np.log(np.maximum(P, 1e-300)), 0))
    b = np.maximum(b, 0) / np.maximum(b, 0).sum()
    b = np.where(b > 1e-13, b, 0)
    b = b / b.sum()
    return sum(wk * o(A[:, k], b) for k, wk in enumerate(w) if wk > 0) - 0.5 * o(b, b)


def ibp(A, Ms, reg, w, deb=False):
    """The entropic barycenter (debiased or not) by log-domain iterative projections run to the end."""
    A = np.ascontiguousarray(A, float)
    return ibp_(A.tobytes(), tuple(np.ascontiguousarray(M, float).tobytes() for M in Ms), Ms[0].shape[1], reg, tuple(w), deb)


def hists(kind, n, S):
    A = np.array([I.weights("lcg" if kind != "uniform" else "uniform", n, 3 * k + 1) for k in range(S)]).T
    if kind == "zeros":
        for k in range(S):
            A[k % n, k] = 0
        A /= A.sum(0)
    if kind == "same":
        A = np.repeat(A[:, :1], S, 1)
    if kind == "diracs":
        A = np.zeros((n, S))
        for k in range(S):
            A[(2 * k) % n, k] = 1
    return A


# ---- entropic, fixed support
def gen(ctx):
    ctx.choose("f", ["sinkhorn", "sinkhorn_log", "sinkhorn_stabilized", "deb", "deb_log"])
    ctx.choose("w", [None, "skew", "zero", "dirac"])
    ctx.choose("reg", [0.3, 1.0, 0.05])
    ctx.dev("n", [5, 2, 1, 12])
    ctx.dev("S", [3, 1, 2])
    ctx.dev("A", ["lcg", "zeros", "same", "diracs", "uniform"])
    ctx.dev("M", ["sq", "abs", "asym", "shift"])
    ctx.dev("arr", ["C", "F", "strided", "torch", "jax", "tf", "torch32", "lists"])
    ctx.dev("tau", [None, 1.5, 10.0, 100.0])
    ctx.dev("it", [5000, 0, 1, 30])
    ctx.dev("direct", [False, True])
    c = ctx.case
    if c["tau"] and c["f"] != "sinkhorn_stabilized" or c["arr"] in ("jax", "tf") and (c["f"].endswith("log") or c["reg"] == 0.05 or c["w"] in ("zero", "dirac")) or c["f"].startswith("deb") and (c["M"] == "asym" or c["reg"] == 1.0 or c["it"] != 5000) or c["f"] == "deb_log" and c["A"] in ("zeros", "diracs"):
        ctx.prune()


def run(case):
    n, S, f, reg, arr = case["n"], case["S"], case["f"], case["reg"], case["arr"]
    if n == 1 and case["A"] == "zeros":
        return "n/a"
    A = hists(case["A"], n, S)
    k = np.arange(n)
    M = {"sq": (k[:, None] - k[None]) ** 2 / max(n - 1, 1) ** 2, "abs": np.abs(k[:, None] - k[None]) / max(n - 1, 1)}.get(case["M"])
    if M is None:
        M = I.cost("lcg", n, n, 3) if case["M"] == "asym" else (k[:, None] - k[None]) ** 2 / max(n - 1, 1) ** 2 + 1.0
    M = np.asarray(M, float)
    if case["w"] == "zero" and S == 1:
        return "n/a"
    w = np.ones(S) / S if case["w"] is None else np.arange(1, S + 1.0) / (S * (S + 1) / 2) if case["w"] == "skew" else np.r_[np.ones(S - 1) / max(S - 1, 1), 0] if case["w"] == "zero" else np.eye(S)[0]
    nx, cv = (backend("C"), (lambda z: z.tolist())) if arr == "lists" else (backend(arr), conv(arr))
    f32 = arr == "torch32"
    deb = f.startswith("deb")
    kw = dict(weights=None if case["w"] is None else (cv(w) if arr != "lists" else w), numItermax=case["it"], stopThr=1e-5 if f32 else 1e-11)
    if deb:
        kw["numItermax"] = 400 if f == "deb_log" else 5000
    if arr == "tf" or arr == "jax":
        kw["numItermax"] = min(case["it"], 300)
    if case["tau"]:
        kw["tau"] = case["tau"]
    g = ot.bregman.barycenter_debiased if deb else ot.bregman.barycenter
    m = {"deb": "sinkhorn", "deb_log": "sinkhorn_log"}.get(f, f)
    args = (cv(A), cv(M), reg)
    if case["direct"] and f in ("sinkhorn", "sinkhorn_stabilized"):
        d = ot.bregman.barycenter_sinkhorn if f == "sinkhorn" else ot.bregman.barycenter_stabilized
        (b, lg), bad = call(d, *args, log=True, **kw)
        b1, _ = call(d, *args, **kw)
    elif case["direct"]:
        return "n/a"
    else:
        if case["it"] == 0:
            return "n/a"
        (b, lg), bad = call(g, *args, method=m, log=True, **kw)
        b1, _ = call(g, *args, method=m, **kw)
    if case["it"] == 0:
        return "n/a"
    tag = "bary:" + f
    B = num(nx, b)
    if not np.array_equal(num(nx, b1), B, equal_nan=True):
        raise Fail(tag + ":log", "the barycenter depends on log")
    if f32 and "float32" not in str(b.dtype):
        raise Fail(tag + ":dtype", "%s" % b.dtype)
    if any("Numerical errors" in x for x in bad):
        if reg >= 0.05 and not f32:
            raise Fail(tag + ":numerical", "numerical errors for a moderate regularization")
        return "numerical"
    if any("did not converge" in x for x in bad) and not deb:
        if case["it"] > 1000 and not f32 and not deb and len(lg["err"]) > 0 and reg >= 0.3 and arr not in ("jax", "tf"):
            raise Fail(tag + ":budget", "no convergence in %d iterations: %r" % (case["it"], lg["err"][-3:]))
        return "warned"
    R = ibp(A, [M] * S, reg, w, deb)
    if deb:
        # the last modes converge slowly and hardly change the objective
        F, Fr = debiased(A, M, reg, w, B), debiased(A, M, reg, w, R)
        if B.shape != (n,) or not np.isfinite(B).all() or abs(B.sum() - 1) > 2e-2 or F > Fr + (2e-3 if f32 or bad else 2e-4):
            raise Fail(tag + ":value", "objective %r, %r for %r" % (F, Fr, R.tolist()))
        return round(float(B[0]), 3)
    tol = 1e-3 if f32 else 1e-6
    if B.shape != (n,) or not np.isfinite(B).all() or np.abs(B - R).max() > tol:
        raise Fail(tag + ":value", "%r expected %r" % (B.tolist(), R.tolist()))
    return round(float(B[0]), 5)


# ---- convolutional
def gen_c(ctx):
    ctx.choose("f", ["sinkhorn", "sinkhorn_log", "deb", "deb_log"])
    ctx.choose("w", [None, "skew", "zero"])
    ctx.choose("reg", [0.3, 0.1, 2.0])
    ctx.dev("wh", [(3, 4), (4, 3), (2, 2), (1, 4), (5, 1)])
    ctx.dev("S", [2, 1, 3])
    ctx.dev("A", ["lcg", "zeros", "same"])
    ctx.dev("arr", ["C", "torch", "jax", "torch32"])
    c = ctx.case
    if c["arr"] == "jax" and (c["f"].endswith("log") or c["reg"] != 0.3) or c["f"].startswith("deb") and c["reg"] == 2.0 or c["f"] == "deb_log" and c["A"] == "zeros":
        ctx.prune()


def run_c(case):
    W, H = case["wh"]
    S, f, reg, arr = case["S"], case["f"], case["reg"], case["arr"]
    A = hists(case["A"], W * H, S)
    x, y = np.linspace(0, 1, W), np.linspace(0, 1, H)
    if W == 1:
        x = np.zeros(1)
    P = np.array([(a, b) for a in x for b in y])
    M = ((P[:, None] - P[None]) ** 2).sum(-1)
    if case["w"] == "zero" and S == 1:
        return "n/a"
    w = np.ones(S) / S if case["w"] is None else np.arange(1, S + 1.0) / (S * (S + 1) / 2) if case["w"] == "skew" else np.r_[np.ones(S - 1) / max(S - 1, 1), 0]
    nx, cv = backend(arr), conv(arr)
    f32 = arr == "torch32"
    deb = f.startswith("deb")
    if arr == "jax" and case["w"] == "zero":
        return "n/a"
    kw = dict(weights=None if case["w"] is None else cv(w), numItermax=300 if arr == "jax" or f == "deb_log" else 3000, stopThr=1e-5 if f32 else 1e-11, method={"deb": "sinkhorn", "deb_log": "sinkhorn_log"}.get(f, f))
    g = ot.bregman.convolutional_barycenter2d_debiased if deb else ot.bregman.convolutional_barycenter2d
    (b, lg), bad = call(g, cv(A.T.reshape(S, W, H).copy()), reg, log=True, **kw)
    tag = "conv:" + f
    B = num(nx, b)
    if B.shape != (W, H):
        raise Fail(tag + ":shape", "%r for images %r" % (B.shape, (W, H)))
    if any("did not converge" in z for z in bad) and not deb:
        return "warned"
    R = ibp(A, [M] * S, reg, w, deb).reshape(W, H)
    if deb:
        F, Fr = debiased(A, M, reg, w, B.ravel()), debiased(A, M, reg, w, R.ravel())
        if not np.isfinite(B).all() or abs(B.sum() - 1) > 2e-2 or F > Fr + (2e-3 if f32 or bad else 2e-4):
            raise Fail(tag + ":value", "objective %r, %r for %r" % (F, Fr, R.tolist()))
        return round(float(B[0, 0]), 3)
    tol = 1e-3 if f32 else 1e-6
    if not np.isfinite(B).all() or np.abs(B - R).max() > tol:
        raise Fail(tag + ":value", "%r expected %r" % (B.tolist(), R.tolist()))
    return round(float(B[0, 0]), 5)


# ---- exact, fixed support
def gen_lp(ctx):
    ctx.choose("n", [3, 4, 1, 2])
    ctx.choose("A", ["lcg", "zeros", "same", "diracs"])
    ctx.choose("w", [None, "skew", "dirac"])
    ctx.choose("M", ["sq", "asym", "neg"])
    ctx.dev("S", [2, 1, 3])
    ctx.dev("solver", ["highs-ipm", "highs", "highs-ds", None])
    ctx.dev("lay", ["C", "F", "strided"])


def run_lp(case):
    n, S = case["n"], case["S"]
    A = hists(case["A"], n, S)
    k = np.arange(n)
    M = ((k[:, None] - k[None]) ** 2).astype(float) if case["M"] == "sq" else I.cost("lcg" if case["M"] == "asym" else "neg", n, n, 3)
    w = np.ones(S) / S if case["w"] is None else np.arange(1, S + 1.0) / (S * (S + 1) / 2) if case["w"] == "skew" else np.eye(S)[0]
    if n == 1 and case["A"] == "zeros":
        return "n/a"
    kw = dict(weights=None if case["w"] is None else w, solver=case["solver"])
    b, lg = ot.lp.barycenter(I.layout(A, case["lay"]), I.layout(M, case["lay"]), log=True, **kw)
    b1 = ot.lp.barycenter(A, M, **kw)
    if not np.allclose(b, b1):
        raise Fail("lp:log", "the barycenter depends on log")
    if b.shape != (n,) or b.min() < -1e-6 or abs(b.sum() - 1) > 1e-6:
        raise Fail("lp:histogram", "%r" % b.tolist())
    # own formulation
    N = n * n
    rows, rhs = [], []
    for s in range(S):
        for i in range(n):
            r = np.zeros(S * N + n)
            r[s * N + i * n:s * N + (i + 1) * n] = 1
            rows.append(r), rhs.append(A[i, s])
        for j in range(n):
            r = np.zeros(S * N + n)
            r[s * N + j:(s + 1) * N:n] = 1
            r[S * N + j] = -1
            rows.append(r), rhs.append(0)
    ref = linprog(np.r_[np.concatenate([w[s] * M.ravel() for s in range(S)]), np.zeros(n)], A_eq=np.array(rows), b_eq=rhs, bounds=(0, None), method="highs").fun
    b = np.where(b > 1e-9, b, 0)
    b /= b.sum()
    got = sum(w[s] * oracle.transport_lp(A[:, s], b, M) for s in range(S))
    if abs(got - ref) > 1e-5 * (1 + np.abs(M).max()):
        raise Fail("lp:optimal", "objective %r, optimum %r" % (got, ref))
    return round(ref, 5)


# ---- free support
def gen_fs(ctx):
    ctx.choose("f", ["exact", "sinkhorn", "general", "L2", "fixed_point"])
    ctx.choose("w", [None, "skew", "dirac"])
    ctx.choose("b", [None, "lcg"])
    ctx.dev("k", [4, 1, 2, 9])
    ctx.dev("d", [2, 1, 3])
    ctx.dev("S", [2, 1, 3])
    ctx.dev("arr", ["C", "F", "torch", "jax", "torch32"])
    ctx.dev("it", [50, 0, 1])
    ctx.dev("aw", ["lcg", "uniform", "zeros"])
    ctx.dev("clean", [False, True])
    c = ctx.case
    if c["f"] in ("L2", "fixed_point") and c["w"] or c["clean"] and c["f"] != "fixed_point" or c["f"] == "fixed_point" and c["arr"] == "jax":
        ctx.prune()


def run_fs(case):
    f, k, d, S, arr = case["f"], case["k"], case["d"], case["S"], case["arr"]
    nx, cv = backend(arr), conv(arr)
    f32 = arr == "torch32"
    ns = [3, 5, 4][:S]
    Ys = [I.points("lcg", n, d, 5 * s + 1) for s, n in enumerate(ns)]
    As = [I.weights(case["aw"], n, s + 1) for s, n in enumerate(ns)]
    X0 = I.points("lcg", k, d, 40)
    w = np.ones(S) / S if case["w"] is None else np.arange(1, S + 1.0) / (S * (S + 1) / 2) if case["w"] == "skew" else np.eye(S)[0]
    b = np.ones(k) / k if case["b"] is None else I.weights("lcg", k, 9)
    sq = lambda X, Y: ((X[:, None] - Y[None]) ** 2).sum(-1)
    e = 1e-4 if f32 else 1e-7
    tag = "free:" + f
    kw = dict(b=None if case["b"] is None else cv(b), weights=None if case["w"] is None else cv(w), numItermax=case["it"], stopThr=1e-10)
    lY, lA = [cv(z) for z in Ys], [cv(z) for z in As]
    if f == "general":
        Ps = [np.eye(d) + 0.3 * I.cost("lcg", d, d, 7 + s) for s in range(S)]
        if d == 2 and S == 2:  # projections on lines
            Ps = [np.array([[1.0, 0.2]]), np.array([[-0.3, 0.8]])]
            Ys = [y[:, :1] for y in Ys]
            lY = [cv(z) for z in Ys]
            if case["w"] == "dirac":
                return "n/a"
        lP = [cv(z) for z in Ps]
        energy = lambda X: sum(wi * oracle.transport_lp(b, a, sq(X @ P.T, y)) for wi, a, y, P in zip(w, As, Ys, Ps))
        X = num(nx, generalized_free_support_barycenter(lY, lA, lP, k, Y_init=cv(X0), **kw))
        Xl, lg = generalized_free_support_barycenter(lY, lA, lP, k, Y_init=cv(X0), log=True, **kw)
        if not np.allclose(num(nx, Xl), X) or X.shape != (k, d):
            raise Fail(tag + ":log", "result depends on log or has shape %r" % (X.shape,))
        E0, E1 = energy(X0), energy(X)
        if case["it"] == 0 and np.abs(X - X0).max() > e * 10:
            raise Fail(tag + ":init", "no iteration moves the initial support by %g" % np.abs(X - X0).max())
        if E1 > E0 + e * 10:
            raise Fail(tag + ":energy", "energy %r above %r at the start" % (E1, E0))
        if case["it"] == 50 and len(lg["displacement_square_norms"]) < 50:
            A_ = sum(wi * P.T @ P for wi, P in zip(w, Ps))
            R = 0
            for wi, a, y, P in zip(w, As, Ys, Ps):
                T = ot.emd(b, a, sq(X @ P.T, y))
                R = R + wi * (T @ y @ P) / b[:, None]
            R = R @ np.linalg.inv(A_)
            Er = energy(R)
            if Er < E1 - (1e-3 if f32 else 1e-5):
                raise Fail(tag + ":stationary", "one more update lowers the energy from %r to %r" % (E1, Er))
        return round(E1, 5)
    if f in ("L2", "fixed_point"):
        if case["it"] == 0:
            return "n/a"
        mean = lambda ys: sum(ys[i] * w[i] for i in range(S))
        cost = lambda x, y: ot.dist(x, y)
        r = free_support_barycenter_generic_costs(lY, lA, cv(X0), cost, mean, a=None if case["b"] is None else cv(b), numItermax=case["it"], method="L2_barycentric_proj" if f == "L2" else "true_fixed_point",
                                                  stopThr=1e-10, log=True, clean_measure=case["clean"])
        X, a, lg = (r[0], cv(b), r[1]) if f == "L2" else r
        X, a = num(nx, X), num(nx, a)
        if a.min() < -e or abs(a.sum() - 1) > 10 * e or len(a) != len(X):
            raise Fail(tag + ":weights", "%r" % a.tolist())
        E = [float(num(nx, z)) for z in lg["V_list"]]
        got = sum(oracle.transport_lp(a, A, sq(X, y)) for A, y in zip(As, Ys))
        if abs(got - E[-1]) > 100 * e:
            raise Fail(tag + ":value", "last energy %r, of the result %r" % (E[-1], got))
        if max(np.diff(E), default=0) > 10 * e and not (f == "L2"):
            raise Fail(tag + ":energy", "energies %r" % E)
        if f == "L2":
            R = X0
            for _ in range(1):
                R = sum(wi * ot.emd(b, A, sq(R, y)) @ y for wi, A, y in zip(w, As, Ys)) / b[:, None]
            if np.abs(num(nx, lg["X_list"][1]) - R).max() > 10 * e:
                raise Fail(tag + ":round", "first update %r expected %r" % (lg["X_list"][1], R))
        D = sq(X, X) + np.eye(len(X))
        if case["clean"] and len(X) > 1 and D.min() < 1e-10:
            raise Fail(tag + ":clean", "points %r remain merged" % X.tolist())
        if (lg["exit_status"] == "Stationary Point") != (len(E) <= case["it"] or E[-2] - E[-1] < 1e-10):
            raise Fail(tag + ":status", "%s after energies %r" % (lg["exit_status"], E))
        return round(got, 5)
    if f == "exact":
        plan = lambda X, y, a: ot.emd(b, a, sq(X, y))
        g = lambda **q: free_support_barycenter(lY, lA, cv(X0), **{**kw, **q})
    else:
        if case["aw"] == "zeros" and arr != "C":
            return "n/a"
        reg = 0.5
        plan = lambda X, y, a: oracle.sinkhorn_ref(b, a, sq(X, y), reg)
        g = lambda **q: ot.bregman.free_support_sinkhorn_barycenter(lY, lA, cv(X0), reg, **{**kw, **q})
    (X, lg), bad = call(g, log=True)
    X1, _ = call(g)
    X = num(nx, X)
    if X.shape != (k, d) or not np.array_equal(num(nx, X1), X):
        raise Fail(tag + ":log", "result depends on log or has shape %r" % (X.shape,))
    step = lambda X: sum(wi * plan(X, y, a) @ y for wi, a, y in zip(w, As, Ys)) / b[:, None]
    if case["it"] <= 1:
        R = step(X0) if case["it"] else X0
        if np.abs(R - X).max() > (1e-4 if f == "sinkhorn" else 10 * e):
            raise Fail(tag + ":round", "%r expected %r" % (X.tolist(), R.tolist()))
        return "round"
    if len(lg["displacement_square_norms"]) < case["it"] and np.abs(step(X) - X).max() > 1e-3:
        raise Fail(tag + ":stationary", "one more update moves the points by %g" % np.abs(step(X) - X).max())
    if f == "exact":
        en = lambda X: sum(wi * oracle.transport_lp(b, a, sq(X, y)) for wi, a, y in zip(w, As, Ys))
        if en(X) > en(X0) + 10 * e:
            raise Fail(tag + ":energy", "energy %r above %r at the start" % (en(X), en(X0)))
    return round(float(X[0, 0]), 5)


# ---- gluing of plans that share their first marginal
def gen_g(ctx):
    ctx.choose("a", [(1, 1), (2, 1), (1, 0, 2), (1, 2, 1)])
    n = sum(ctx.case["a"])
    ctx.choose("K", [1, 2, 3])
    ctx.choose("b1", [(n,), (1, n - 1), (n - 1, 0, 1)])
    ctx.choose("b2", [(n,), (n - 1, 1), (1, 1, n - 2)])
    ctx.dev("arr", ["C", "torch"])
    ctx.dev("scale", [1.0, 0.1])


def run_g(case):
    a = np.array(case["a"], float) * case["scale"]
    bs = [np.array(b, float) * case["scale"] for b in (case["b1"], case["b2"], case["b1"])[:case["K"]]]
    nx, cv = backend(case["arr"]), conv(case["arr"])
    nin = 0
    pis = [list(I.vertices(tuple(case["a"]), tuple(int(x / case["scale"] + 0.5) for x in b)) .reshape(-1, len(a), len(b)) * case["scale"]) + [np.outer(a, b) / a.sum()] for b in bs]
    for k in range(max(len(p) for p in pis)):
        pl = [p[k % len(p)] for p in pis]
        nin += 1
        J, w, lg = NorthWestMMGluing([cv(p) for p in pl], log=True)
        J2, w2 = NorthWestMMGluing([cv(p) for p in pl])
        J, w, G = num(nx, J), num(nx, w), num(nx, lg["gamma"])
        if not (J == np.round(J)).all() or J.shape != (len(w), len(bs)) or w.min() < 0 or not np.allclose(num(nx, w2), w):
            raise Fail("glue:shape", "%r %r" % (J, w))
        for i, b in enumerate(bs):
            m = np.zeros(len(b))
            np.add.at(m, J[:, i].astype(int), w)
            if np.abs(m - b).max() > 1e-9:
                raise Fail("glue:marginal", "marginal %d is %r instead of %r" % (i, m.tolist(), b.tolist()))
            ax = tuple(x for x in range(1, len(bs) + 1) if x != i + 1)
            if np.abs(G.sum(ax) - pl[i]).max() > 1e-9:
                raise Fail("glue:pair", "pair (0, %d) is %r instead of %r" % (i, G.sum(ax).tolist(), pl[i].tolist()))
    return dict(inner=nin, outcome=str(len(w)))


# ---- unmixing and JCPOT
def gen_u(ctx):
    ctx.choose("alpha", [0.5, 0.2, 0.9])
    ctx.choose("reg", [1.0, 0.2])
    ctx.choose("D", ["eye", "mix"])
    ctx.dev("reg0", [None, 0.5])
    ctx.dev("arr", ["C", "F", "torch", "jax", "tf"])
    ctx.dev("h0", ["lcg", "uniform", "zeros"])


def run_u(case):
    n = 5
    nx, cv = backend(case["arr"]), conv(case["arr"])
    M, M0 = I.cost("line", n, n) * 2, I.cost("line", n, n)
    a, h0 = I.weights("lcg", n, 1), I.weights(case["h0"], n, 7)
    reg, al = case["reg"], case["alpha"]
    reg0 = case["reg0"] or reg
    D = np.eye(n)
    if case["D"] == "mix":
        D = 0.2 + I.cost("lcg", n, 3, 4)
        D /= D.sum(0)
        M0 = M0[:3, :3]
        h0 = I.weights("lcg", 3, 7)
    (h, lg), bad = call(ot.bregman.unmix, *map(cv, (a, D, M, M0, h0)), reg, reg0, al, stopThr=1e-12, numItermax=3000, log=True)
    h = num(nx, h)
    if h.shape != h0.shape or not np.isfinite(h).all() or h.min() < 0 or abs(h.sum() - 1) > 1e-5:
        raise Fail("unmix:simplex", "%r" % h.tolist())
    if any("did not converge" in b for b in bad):
        return "warned"
    if case["D"] != "eye" or reg0 != reg:
        return "ok"
    A = np.array([a, h0]).T
    # the prior enters the solver through its columns
    R, Q = [ibp(A, [M, M0.T], reg, (1 - al, al)), ibp(A, [M, M0.T], reg, (al, 1 - al))]
    if np.abs(h - R).max() > 1e-5 and np.abs(h - Q).max() < 1e-5:
        return dict(outcome="inverted", known=[("unmix:alpha", "alpha weights the data term and 1 - alpha the prior, the opposite of the documentation")])
    if np.abs(h - R).max() > 1e-5:
        raise Fail("unmix:value", "%r expected %r" % (h.tolist(), R.tolist()))
    return "ok"


def gen_j(ctx):
    ctx.choose("K", [2, 1, 3])
    ctx.choose("reg", [1.0, 0.3])
    ctx.choose("classes", [2, 3])
    ctx.dev("labels", ["zero", "one", "shuffled"])
    ctx.dev("arr", ["C", "F", "torch", "jax"])
    ctx.dev("metric", ["sqeuclidean", "cityblock"])
    ctx.dev("lists", [False, True])


def run_j(case):
    K, C, reg, arr = case["K"], case["classes"], case["reg"], case["arr"]
    nx, cv = backend(arr), conv(arr)
    Xs = [I.points("lcg", 6 + k, 2, k) for k in range(K)]
    Ys = [np.arange(6 + k) % C + (case["labels"] == "one") for k in range(K)]
    if case["labels"] == "shuffled":
        Ys = [np.sort(y) for y in Ys]
    Xt = I.points("lcg", 5, 2, 60) + 0.3
    ys = [nx.from_numpy(y) if case["arr"] != "F" else y for y in Ys]
    (h, lg), bad = call(ot.bregman.jcpot_barycenter, [cv(x) for x in Xs], [y.tolist() for y in Ys] if case["lists"] and arr == "C" else [y.copy() if isinstance(y, np.ndarray) else y for y in ys], cv(Xt), reg, metric=case["metric"], numItermax=40 if arr == "jax" else 3000, stopThr=1e-11, log=True)
    h = num(nx, h)
    if h.shape != (C,) or h.min() < 0 or abs(h.sum() - 1) > 1e-6:
        raise Fail("jcpot:simplex", "%r" % h.tolist())
    if any("converge" in b for b in bad):
        return "warned"
    from scipy.spatial.distance import cdist
    mass = []
    for k in range(K):
        G = num(nx, lg["gamma"][k])
        y = Ys[k] - Ys[k].min()
        D1 = (y[None] == np.arange(C)[:, None]).astype(float)
        D2 = D1 / D1.sum(1, keepdims=True)
        Z = np.log(G) + cdist(Xs[k], Xt, case["metric"]) / reg
        if np.abs(Z - Z[:, :1] - Z[:1] + Z[0, 0]).max() > 1e-5:
            raise Fail("jcpot:scaling", "plan %d is not a scaling of the kernel" % k)
        if np.abs(G.sum(0) - 1 / 5).max() > 1e-4:
            raise Fail("jcpot:columns", "%r" % G.sum(0).tolist())
        mass.append(G.sum(1))
        if np.abs(G.sum(1) - D2.T @ h).max() > 1e-4:
            raise Fail("jcpot:rows", "%r for proportions %r" % (G.sum(1).tolist(), h.tolist()))
    return round(float(h[0]), 4)


def scopes(tier):
    return [
        Scope("entropic", gen, run, dev=1, thorough_dev=2, doc="methods x weights x regularizations x histograms, layouts, absorptions, budgets"),
        Scope("convolutional", gen_c, run_c, dev=1, thorough_dev=2),
        Scope("exact", gen_lp, run_lp, dev=1, thorough_dev=3),
        Scope("free", gen_fs, run_fs, dev=1, thorough_dev=2),
        Scope("gluing", gen_g, run_g, dev=1, thorough_dev=2),
        Scope("unmix", gen_u, run_u, dev=1, thorough_dev=3),
        Scope("jcpot", gen_j, run_j, dev=1, thorough_dev=3),
    ]
