"""C25: low-rank, factored and weak optimal transport."""
BACKENDS = ("torch", "jax")
OMP = 1
import itertools

import numpy as np
import ot
import ot.gromov as G
import ot.lowrank as Lr
from scipy.special import xlogy

from checks.c14 import backend, conv, num
from checks.c15 import call
from mc import instances as I
from mc import oracle
from mc.engine import Fail, Scope

ASSUMPTIONS = ("sizes up to 6; mirror descent of the low-rank solvers is checked for feasibility, objective, descent and not for global optimality",)


def sq(X, Y):
    return ((X[:, None] - Y[None]) ** 2).sum(-1)


def pair(case, d=2):
    n, m = case.get("size") or case["n"]
    X, Y = I.points(case["pts"], n, d, 3), I.points(case["pts"], m, d, 4)
    X, Y = X * case.get("scale", 1), Y * case.get("scale", 1)
    w = case["w"]
    a, b = (None, None) if w == "none" else (I.weights(w, n, 0), I.weights(w, m, 1))
    return X, Y, a, b


def weights(X, Y, a, b):
    return (np.ones(len(X)) / len(X) if a is None else a), (np.ones(len(Y)) / len(Y) if b is None else b)


def near(sig, got, want, tol, what):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape or not np.allclose(got, want, rtol=tol, atol=tol, equal_nan=True):
        raise Fail(sig, "%s %s, expected %s" % (what, got.round(6).tolist(), want.round(6).tolist()))


# ---- factorisations
def gen_k(ctx):
    ctx.choose("n", [(4, 5), (1, 1), (1, 4), (6, 3), (5, 5)])
    ctx.choose("pts", ["lcg", "signed", "grid", "dup", "shifted", "same"])
    ctx.choose("d", [1, 2, 3])
    ctx.choose("arr", ["C", "torch", "torch32", "jax", "strided"])
    ctx.choose("fun", ["lr", "lr-rescale", "nystroem"])
    ctx.choose("anchors", [2, 5, 8, 40])
    ctx.dev("sigma", [1.0, 0.6])
    if ctx.case["fun"] != "nystroem" and (ctx.case["anchors"] != 2 or ctx.case["sigma"] != 1.0):
        ctx.prune()


def run_k(case):
    case["w"] = "none"
    X, Y, _, _ = pair(case, case["d"])
    nx, cv = backend(case["arr"]), conv(case["arr"])
    tol = 1e-4 if case["arr"] == "torch32" else 1e-8
    if case["fun"] != "nystroem":
        r = case["fun"] == "lr-rescale"
        M1, M2 = (num(nx, z) for z in Lr.compute_lr_sqeuclidean_matrix(cv(X), cv(Y), r))
        if M1.shape != (len(X), case["d"] + 2) or M2.shape != (len(Y), case["d"] + 2):
            raise Fail("lr:shape", "%s %s" % (M1.shape, M2.shape))
        D = sq(X, Y)
        P = M1 @ M2.T
        if r:  # a positive multiple of the distances
            if D.max() < 1e-9:
                return "ok"
            k = (P * D).sum() / (D * D).sum()
            if not k > 0:
                raise Fail("lr:scale", "scale %g" % k)
            D = D * k
        near("lr:product", P, D, tol * (1 + np.abs(X).max() ** 2), "product")
        return "ok"
    A, B = (num(nx, z) for z in Lr.kernel_nystroem(cv(X), cv(Y), anchors=case["anchors"], sigma=case["sigma"], random_state=0))
    k1, k2 = min(len(X), case["anchors"] // 2), min(len(Y), case["anchors"] // 2)
    if A.shape != (len(X), k1 + k2) or B.shape != (len(Y), k1 + k2):
        raise Fail("nystroem:shape", "%s %s" % (A.shape, B.shape))
    K = np.exp(-sq(X, Y) / 2 / case["sigma"] ** 2)
    if k1 == len(X) or k2 == len(Y):  # all the points of one side are anchors: exact
        near("nystroem:exact", A @ B.T, K, 0.2 if case["arr"] == "torch32" else 0.02, "kernel")
    else:  # exact for the anchors, which are rows of the kernel reproduced with all of Y
        ok = [i for i in range(len(X)) if np.allclose((A @ B.T)[i], K[i], atol=0.2 if case["arr"] == "torch32" else 0.02)]
        if len(ok) < k1:
            raise Fail("nystroem:anchors", "only rows %s of the kernel are exact, %d anchors" % (ok, k1))
    return "ok"


# ---- low-rank Sinkhorn
def gen_l(ctx):
    ctx.choose("n", [(4, 5), (5, 1)])
    ctx.choose("rank", [None, 1, 2])
    ctx.choose("reg", [0, 0.5])
    ctx.choose("init", ["random", "deterministic", "kmeans"])
    ctx.dev("w", ["none", "lcg"])
    ctx.dev("pts", ["lcg", "signed", "grid", "same"])
    ctx.dev("arr", ["C", "torch", "jax", "torch32", "strided"])
    ctx.dev("alpha", [1e-10, 0.15])
    ctx.dev("gamma", ["rescale", "theory"])
    ctx.dev("rescale", [True, False])
    ctx.dev("scale", [1, 0.05, 7])
    ctx.dev("seed", [49, 0, 5])
    ctx.dev("size", [None, (1, 3), (6, 6)])
    ctx.dev("its", [80, 400, 3])
    c = ctx.case
    if c["init"] == "kmeans" and c["arr"] in ("jax", "torch32"):
        ctx.prune()


def check_lr(tag, nx, r, L, a, b, rank, f32, tol):
    Q, R, g = (num(nx, z) for z in r[:3])
    n, m = len(a), len(b)
    if Q.shape != (n, rank) or R.shape != (m, rank) or g.shape != (rank,):
        raise Fail(tag + ":shape", "%s %s %s, rank %d" % (Q.shape, R.shape, g.shape, rank))
    if not all(np.isfinite(z).all() and (z >= 0).all() for z in (Q, R, g)):
        raise Fail(tag + ":finite", "Q %s R %s g %s" % (Q.tolist(), R.tolist(), g.tolist()))
    near(tag + ":Qg", Q.sum(0), g, tol, "marginal of Q")
    near(tag + ":Rg", R.sum(0), g, tol, "marginal of R")
    near(tag + ":mass", g.sum(), 1, tol, "mass")
    near(tag + ":Qa", Q.sum(1), a, tol, "source marginal")
    near(tag + ":Rb", R.sum(1), b, tol, "target marginal")
    P = Q / g @ R.T
    lazy = num(nx, L["lazy_plan"][:])
    near(tag + ":lazy", lazy, P, 1e-5 if f32 else 1e-9, "lazy plan")
    if rank == 1:
        near(tag + ":rank1", P, np.outer(a, b), tol, "plan")
    return Q, R, g, P


def run_l(case):
    X, Y, a, b = pair(case)
    nx, cv = backend(case["arr"]), conv(case["arr"])
    kw = dict(reg=case["reg"], rank=case["rank"], alpha=case["alpha"], rescale_cost=case["rescale"], init=case["init"], gamma_init=case["gamma"], seed_init=case["seed"], numItermax=case["its"])
    if a is not None:
        kw.update(a=cv(a), b=cv(b))
    a, b = weights(X, Y, a, b)
    rank = min(len(X), len(Y), case["rank"] or 99)
    if case["alpha"] * rank > 1:
        return "n/a"
    with np.errstate(all="ignore"):
        r, msgs = call(Lr.lowrank_sinkhorn, cv(X), cv(Y), log=True, **kw)
        q = call(Lr.lowrank_sinkhorn, cv(X), cv(Y), **kw)[0] if case["rank"] is None else r
    L = r[3]
    f32 = case["arr"] == "torch32"
    tol = 1e-4 if f32 else 1e-6
    if any("converge" in z for z in msgs) or case["its"] < 50:
        tol = 0.5
    if not all(np.allclose(num(nx, x), num(nx, y)) for x, y in zip(r[:3], q)):
        raise Fail("lowrank:log", "other result without log")
    Q, R, g, P = check_lr("lowrank", nx, r, L, a, b, rank, f32, tol)
    C = sq(X, Y)
    e = 1e-4 if f32 else 1e-7
    lin = (C * P).sum()
    near("lowrank:value_linear", num(nx, L["value_linear"]), lin, e, "linear value")
    ent = sum(xlogy(z, np.maximum(z, 1e-300)).sum() for z in (Q, R, g))
    near("lowrank:value", num(nx, L["value"]), lin + case["reg"] * ent, e, "value")
    if tol < 0.1:
        lp = oracle.transport_lp(a, b, C)
        if lin < lp - 10 * tol * (1 + abs(lp)):
            raise Fail("lowrank:below", "value %g below the optimum %g" % (lin, lp))
        if case["init"] == "random" and case["gamma"] == "rescale" and case["reg"] == 0 and lin > (np.outer(a, b) * C).sum() + 1e-3:
            raise Fail("lowrank:descent", "value %g above the independent coupling %g" % (lin, (np.outer(a, b) * C).sum()))
        if (g < case["alpha"] - 1e-3).any():
            raise Fail("lowrank:alpha", "g %s below alpha" % g.tolist())
    return "tol%g" % tol


# ---- low-rank Gromov-Wasserstein
def gen_g(ctx):
    ctx.choose("n", [(4, 5), (5, 1)])
    ctx.choose("rank", [None, 1, 2])
    ctx.choose("reg", [0, 0.05])
    ctx.choose("w", ["none", "lcg"])
    ctx.dev("fac", ["none", "source", "both"])
    ctx.dev("size", [None, (1, 3), (6, 6)])
    ctx.dev("pts", ["lcg", "signed", "grid", "same"])
    ctx.dev("arr", ["C", "torch", "jax", "torch32", "strided"])
    ctx.dev("alpha", [1e-10, 0.1])
    ctx.dev("gamma", ["rescale", "theory"])
    ctx.dev("rescale", [True, False])
    ctx.dev("scale", [1, 0.05, 7])
    ctx.dev("seed", [49, 0])
    ctx.dev("its", [40, 1, 5])


def run_g(case):
    X, Y, a, b = pair(case)
    nx, cv = backend(case["arr"]), conv(case["arr"])
    kw = dict(reg=case["reg"], rank=case["rank"], alpha=case["alpha"], rescale_cost=case["rescale"], gamma_init=case["gamma"], seed_init=case["seed"], numItermax=case["its"], stopThr_dykstra=1e-8, numItermax_dykstra=600)
    if a is not None:
        kw.update(a=cv(a), b=cv(b))
    a, b = weights(X, Y, a, b)
    f32 = case["arr"] == "torch32"
    f = lambda Z: [num(nx, z) for z in Lr.compute_lr_sqeuclidean_matrix(cv(Z), cv(Z), case["rescale"])]
    A, B = f(X), f(Y)
    Cx, Cy = A[0] @ A[1].T, B[0] @ B[1].T
    if case["fac"] != "none":
        L_ = I.points("lcg", len(X), 2, 9)
        A = [L_, L_ + 0.0]
        Cx = L_ @ L_.T
        kw["cost_factorized_Xs"] = tuple(map(cv, A))
    if case["fac"] == "both":
        L_ = I.points("lcg", len(Y), 3, 10)
        Cy = L_ @ L_.T
        kw["cost_factorized_Xt"] = (cv(L_), cv(L_))
    rank = min(len(X), len(Y), case["rank"] or 99)
    with np.errstate(all="ignore"):
        r, msgs = call(G.lowrank_gromov_wasserstein_samples, cv(X), cv(Y), log=True, warn_dykstra=True, **kw)
        q, _ = call(G.lowrank_gromov_wasserstein_samples, cv(X), cv(Y), **kw)
    L = r[3]
    if not all(np.allclose(num(nx, x), num(nx, y)) for x, y in zip(r, q)):
        raise Fail("lrgw:log", "other result without log")
    tol = 1e-3 if f32 else 1e-6
    if any("Dykstra" in z for z in msgs):
        tol = 0.5
    Q, R, g, P = check_lr("lrgw", nx, r, L, a, b, rank, f32, tol)
    if tol > 0.1:
        return "slow"
    a2, b2 = P.sum(1), P.sum(0)
    gw = sum((Cx[i, k] - Cy[j, l]) ** 2 * P[i, j] * P[k, l] for i, j, k, l in itertools.product(*map(range, (len(X), len(Y)) * 2)))
    e = 1e-3 if f32 else 1e-5
    near("lrgw:value_quad", num(nx, L["value_quad"]), gw, e, "value")
    ent = sum(xlogy(z, np.maximum(z, 1e-300)).sum() for z in (Q, R, g)) if case["reg"] else 0
    near("lrgw:value", num(nx, L["value"]), gw + case["reg"] * ent, e, "value")
    return "ok"


# ---- Sinkhorn with a factored kernel
def gen_s(ctx):
    ctx.choose("n", [(4, 5), (1, 1), (1, 4), (6, 3)])
    ctx.choose("kind", ["feature", "gauss", "nystroem"])
    ctx.choose("w", ["none", "lcg", "zeros", "ramp"])
    ctx.choose("arr", ["C", "torch", "jax", "torch32", "strided"])
    ctx.choose("its", [3000, 1, 7])
    ctx.choose("warm", [False, True])
    ctx.choose("stop", [1e-10, 1e-3])
    if ctx.case["warm"] and ctx.case["w"] == "zeros":
        ctx.prune()


def run_s(case):
    case["pts"] = "lcg"
    X, Y, a, b = pair(case)
    nx, cv = backend(case["arr"]), conv(case["arr"])
    if case["kind"] == "feature":
        K1, K2 = 0.1 + I.cost("lcg", len(X), 3, 2), 0.1 + I.cost("lcg", len(Y), 3, 6)
    elif case["kind"] == "gauss":
        K1, K2 = np.exp(-sq(X, Y)), np.eye(len(Y))
    else:
        K1, K2 = Lr.kernel_nystroem(X, Y, anchors=20, sigma=1.0, random_state=0)
    K = K1 @ K2.T
    kw = dict(numItermax=case["its"], stopThr=case["stop"])
    if a is not None:
        kw.update(a=cv(a), b=cv(b))
    a, b = weights(X, Y, a, b)
    v = np.ones(len(b)) / len(b)
    u = np.ones(len(a)) / len(a)
    if case["warm"]:
        u = 0.3 + I.weights("lcg", len(a), 7)
        v = 0.3 + I.weights("lcg", len(b), 8)
        kw["warmstart"] = (cv(np.log(u)), cv(np.log(v)))
    with np.errstate(all="ignore"):
        r, msgs = call(Lr.sinkhorn_low_rank_kernel, cv(K1), cv(K2), log=True, **kw)
        q, _ = call(Lr.sinkhorn_low_rank_kernel, cv(K1), cv(K2), **kw)
    f32 = case["arr"] == "torch32"
    gu, gv, L = num(nx, r[0]), num(nx, r[1]), r[2]
    if not (np.allclose(gu, num(nx, q[0])) and np.allclose(gv, num(nx, q[1]))):
        raise Fail("kernel:log", "other scalings without log")
    P = gu[:, None] * K * gv
    tol = 1e-4 if f32 else 1e-8
    for k in range(int(L["niter"]) + 1):
        v = b / (K.T @ u)
        u = a / (K @ v)
    near("kernel:steps", P, u[:, None] * K * v, 1e-3 if f32 else 1e-7, "plan after %d steps" % (L["niter"] + 1))
    near("kernel:lazy", num(nx, L["lazy_plan"][:]), P, tol, "lazy plan")
    near("kernel:rows", P.sum(1), a, tol, "source marginal")
    if not msgs:
        err = np.linalg.norm(P.sum(0) - b)
        if err > case["stop"] * 1.01 + (1e-5 if f32 else 1e-12):
            raise Fail("kernel:converged", "error %g without a warning" % err)
    elif case["its"] < 3000:
        if L["niter"] != case["its"] - 1 or not any("converge" in m for m in msgs):
            raise Fail("kernel:budget", "%s after %d iterations" % (msgs, L["niter"]))
    elif not f32:
        raise Fail("kernel:warn", "%s" % msgs)
    return "ok"


# ---- weak optimal transport
def gen_w(ctx):
    ctx.choose("n", [(4, 5), (1, 1), (1, 4), (6, 3), (5, 5)])
    ctx.choose("pts", ["lcg", "signed", "grid", "dup", "shifted", "same"])
    ctx.choose("w", ["none", "lcg", "zeros", "ramp", "dirac"])
    ctx.dev("G0", ["none", "emd", "mix"])
    ctx.dev("arr", ["C", "torch", "jax", "torch32", "strided"])
    ctx.dev("its", [400, 1, 5])
    ctx.dev("d", [2, 1, 3])


def run_w(case):
    X, Y, a, b = pair(case, case["d"])
    nx, cv = backend(case["arr"]), conv(case["arr"])
    kw = dict(numItermax=case["its"], stopThr=1e-12, stopThr2=1e-12)
    if a is not None:
        kw.update(a=cv(a), b=cv(b))
    a, b = weights(X, Y, a, b)
    G0 = np.outer(a, b)
    if case["G0"] != "none":
        E = np.array(ot.emd(a, b, sq(X, Y)))
        G0 = E if case["G0"] == "emd" else 0.5 * (E + G0)
        kw["G0"] = cv(G0)
    with np.errstate(all="ignore"):
        r, msgs = call(ot.weak_optimal_transport, cv(X), cv(Y), log=True, **kw)
        q, _ = call(ot.weak_optimal_transport, cv(X), cv(Y), **kw)
    T, L = num(nx, r[0]), r[1]
    if not np.allclose(T, num(nx, q), equal_nan=True):
        raise Fail("weak:log", "other plan without log")
    if not np.isfinite(T).all():
        raise Fail("weak:finite" + (":zeros" if (a == 0).any() else ""), "plan %s" % T.tolist())
    f32 = case["arr"] == "torch32"
    oracle.check_coupling(Fail, "weak:marginals", T, a, b, 1e-5 if f32 else 1e-8)
    ok = a > 0

    def f(T):
        return sum(a[i] * ((X[i] - T[i] @ Y / a[i]) ** 2).sum() for i in range(len(a)) if a[i] > 0)
    v, v0 = f(T), f(G0)
    sc = 1 + np.abs(X).max() ** 2 + np.abs(Y).max() ** 2
    e = 1e-4 if f32 else 1e-8
    if v > v0 + e * sc:
        raise Fail("weak:descent", "%g from %g" % (v, v0))
    near("weak:loss", float(num(nx, L["loss"][-1])), v, e * sc, "last loss")
    if case["its"] == 400 and len(L["loss"]) < 400:
        D = np.zeros_like(T)
        D[ok] = -2 * (X[ok] - T[ok] @ Y / a[ok, None]) @ Y.T
        gap = (D * T).sum() - oracle.transport_lp(a, b, D)
        if gap > 1e-3 * sc:
            raise Fail("weak:optimal", "Frank-Wolfe gap %g, value %g" % (gap, v))
        if case["pts"] == "same" and case["n"][0] == case["n"][1] and np.allclose(X, Y) and v > 1e-3 * sc:
            raise Fail("weak:same", "value %g between equal measures" % v)
        return "optimal"
    return "ok"


# ---- factored optimal transport
def gen_f(ctx):
    ctx.choose("n", [(4, 5), (1, 1), (1, 4), (6, 3), (5, 5)])
    ctx.choose("r", [1, 2, 7])
    ctx.choose("reg", [0, 0.5])
    ctx.choose("X0", ["given", "random"])
    ctx.choose("its", [100, 1])
    ctx.dev("w", ["none", "lcg"])
    ctx.dev("pts", ["lcg", "signed", "grid", "dup", "same"])
    ctx.dev("arr", ["C", "torch", "jax", "torch32", "strided"])


def run_f(case):
    X, Y, a, b = pair(case)
    nx, cv = backend(case["arr"]), conv(case["arr"])
    kw = dict(reg=case["reg"], r=case["r"], numItermax=case["its"], stopThr=1e-7)
    if case["reg"]:
        kw["stopThr"] = 1e-7
    if a is not None:
        kw.update(a=cv(a), b=cv(b))
    a, b = weights(X, Y, a, b)
    Z0 = None
    if case["X0"] == "given":
        Z0 = I.points("signed", case["r"], 2, 8)
        kw["X0"] = cv(Z0)
    np.random.seed(0)
    ot.backend.get_backend(cv(X)).seed(0)
    with np.errstate(all="ignore"):
        r, msgs = call(ot.factored_optimal_transport, cv(X), cv(Y), log=True, **kw)
        ot.backend.get_backend(cv(X)).seed(0)
        np.random.seed(0)
        q, _ = call(ot.factored_optimal_transport, cv(X), cv(Y), **kw)
    Ga, Gb, Z, L = num(nx, r[0]), num(nx, r[1]), num(nx, r[2]), r[3]
    if not all(np.allclose(num(nx, z), y, atol=1e-6) for z, y in zip(q, (Ga, Gb, Z))):
        raise Fail("factored:log", "other result without log")
    k = case["r"]
    w = np.ones(k) / k
    f32 = case["arr"] == "torch32"
    slow = any("converge" in m for m in msgs)
    tol = 1e-4 if f32 else 1e-2 if slow else 1e-7
    oracle.check_coupling(Fail, "factored:Ga", Ga, a, w, tol)
    oracle.check_coupling(Fail, "factored:Gb", Gb, w, b, tol)
    near("factored:X", Z, 0.5 * k * (Ga.T @ X + Gb @ Y), 1e-5 if f32 else 1e-9, "barycenter")
    P = num(nx, L["lazy_plan"][:])
    near("factored:lazy", P, Ga * k @ Gb, 1e-5 if f32 else 1e-9, "lazy plan")
    D = L["delta_iter"]
    Zp = None
    if case["its"] == 1:
        Zp = Z0
    elif len(D) < case["its"] and case["its"] == 100:
        Zp = Z
    if Zp is None:
        return "ok"
    e = (1e-3 if f32 else 1e-2 if slow else 1e-5) * 10
    for tag, S, T, p1, p2, g, c in (("a", X, Zp, a, w, Ga, L["costa"]), ("b", Zp, Y, w, b, Gb, L["costb"])):
        M = sq(S, T)
        near("factored:cost" + tag, float(num(nx, c)), (M * g).sum(), e, "cost")
        if case["reg"] == 0:
            gap = (M * g).sum() - oracle.transport_lp(p1, p2, M)
        else:
            R = oracle.sinkhorn_ref(p1, p2, M, case["reg"])
            gap = np.abs(R - g).max()
        if gap > e:
            raise Fail("factored:opt" + tag, "plan %s the optimum by %g" % ("away from" if case["reg"] else "above", gap))
    return "fixed"


def scopes(tier):
    return [
        Scope("factorisations", gen_k, run_k, doc="low-rank factors of squared distances and Nystroem kernels against dense matrices"),
        Scope("lowrank", gen_l, run_l, dev=1, thorough_dev=2, doc="low-rank Sinkhorn: factors, marginals, values, lazy plan, rank one"),
        Scope("lowrank-gw", gen_g, run_g, dev=1, thorough_dev=2, doc="low-rank Gromov-Wasserstein: factors, marginals, explicit objective"),
        Scope("kernel", gen_s, run_s, doc="Sinkhorn with a factored kernel against its own steps"),
        Scope("weak", gen_w, run_w, dev=1, thorough_dev=2, doc="weak OT: marginals, objective, optimality by linear programming"),
        Scope("factored", gen_f, run_f, dev=1, thorough_dev=2, doc="factored OT: both plans optimal, barycenter, fixed point"),
    ]
