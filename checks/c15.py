"""C15: semi-relaxed and partial (fused) Gromov-Wasserstein, exact and entropic, and their barycenters."""
BACKENDS = ("torch", "jax")
OMP = 1
import warnings

import numpy as np
import ot
import ot.gromov as g
from scipy.optimize import linprog

from checks.c14 import backend, conv, num, qgrad, quad, structure, tensor
from mc import instances as I
from mc.engine import Fail, Scope

ASSUMPTIONS = ("a converged call is one that stops before its iteration budget",)


def call(f, *a, **k):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = f(*a, **k)
    return r, [str(x.message) for x in w if issubclass(x.category, (RuntimeWarning, UserWarning)) and "same size" not in str(x.message)]


def common(ctx, entropic):
    ctx.choose("fused", [False, True])
    ctx.choose("loss", ["square_loss", "kl_loss"])
    ctx.choose("kind", ["dist", "asym", "signed", "graph", "pos", "posasym", "zero"] if not entropic else ["asym", "graph", "pos", "posasym"])
    if ctx.case["loss"] == "kl_loss" and ctx.case["kind"] not in ("pos", "posasym", "zero"):
        ctx.prune()
    ctx.dev("shape", [(3, 4), (4, 3), (1, 1), (1, 3), (4, 1), (12, 11), (5, 5)])
    ctx.dev("arr", ["C", "F", "strided", "torch", "jax", "torch32"])
    ctx.dev("alpha", [0.5, 0.0, 0.1, 1.0])
    ctx.dev("sym", [None, "given"])
    ctx.dev("M", ["lcg", "neg", "ties", "big"])
    if not ctx.case["fused"] and (ctx.case["M"] != "lcg" or ctx.case["alpha"] != 0.5):
        ctx.prune()


def setup(case, wts, same=False):
    n, m = case["shape"]
    p, q = [np.ones(k) / k if w == "none" else I.weights(w, k, s) for w, k, s in zip(wts, (n, m), (1, 2))]
    C1, C2, M = structure(case["kind"], n, 1), structure(case["kind"], m, 1 if same else 5), I.cost(case["M"], n, m, 3)
    al = case["alpha"]
    lin, w2 = ((1 - al) * M, al) if case["fused"] else (np.zeros((n, m)), 1.0)
    L = tensor(C1, C2, case["loss"])
    kw = dict(loss_fun=case["loss"])
    if case["sym"]:
        kw["symmetric"] = bool(np.allclose(C1, C1.T) and np.allclose(C2, C2.T))
    if case["fused"]:
        kw["alpha"] = al
    return n, m, p, q, C1, C2, M, lin, w2, L, kw


# ---- semi-relaxed
def gen_sr(ctx):
    common(ctx, False)
    ctx.dev("w", ["lcg", "none", "zeros", "spiky"])
    ctx.dev("G0", [None, "array", "product", "random_product", "random", "kmeans", "spectral", "kmeans_soft", "spectral_soft", "fluid", "fluid_soft"])
    ctx.dev("seed", [0, 7])


def rows_ok(sig, G, p, e):
    if not np.isfinite(G).all() or G.min(initial=0) < -e or np.abs(G.sum(1) - p).max() > e:
        raise Fail(sig, "rows %r for %r (min %g)" % (G.sum(1).tolist(), p.tolist(), G.min()))


def run_sr(case):
    n, m, p, q, C1, C2, M, lin, w2, L, kw = setup(case, (case["w"], "none"))
    arr, fused = case["arr"], case["fused"]
    if case["G0"] in ("spectral", "spectral_soft", "fluid", "fluid_soft", "kmeans", "kmeans_soft") and (min(n, m) == 1 or case["kind"] in ("zero", "signed", "asym", "posasym") or case["w"] == "zeros"):
        return "n/a"
    nx, cv = backend(arr), conv(arr)
    f32 = arr == "torch32"
    G0 = np.ones((n, m)) / m * p[:, None]
    if case["G0"] == "array":
        G0 = I.cost("lcg", n, m, 8)
        G0 *= p[:, None] / G0.sum(1, keepdims=True)
        kw["G0"] = cv(G0)
    elif case["G0"] is not None:
        kw["G0"] = case["G0"]
        kw["random_state"] = case["seed"]
    elif case["seed"]:
        return "n/a"
    t = 1e-6 if f32 else 1e-13
    kw.update(max_iter=800, tol_rel=t, tol_abs=t)
    args = ([cv(M)] if fused else []) + [cv(C1), cv(C2), None if case["w"] == "none" else cv(p)]
    f1, f2, key = (g.semirelaxed_fused_gromov_wasserstein, g.semirelaxed_fused_gromov_wasserstein2, "srfgw_dist") if fused else (
        g.semirelaxed_gromov_wasserstein, g.semirelaxed_gromov_wasserstein2, "srgw_dist")
    tag = "sr%s:%s" % ("fgw" if fused else "gw", case["loss"])
    (T, lg), bad = call(f1, *args, log=True, **kw)
    T1, _ = call(f1, *args, **kw)
    (v, lg2), _ = call(f2, *args, log=True, **kw)
    v1, _ = call(f2, *args, **kw)
    if bad:
        raise Fail("warned:" + tag, "%s" % bad[:2])
    G = num(nx, T)
    if f32 and "float32" not in str(T.dtype):
        raise Fail("dtype:" + tag, "plan of type %s" % T.dtype)
    rows_ok("plan:" + tag, G, p, 1e-5 if f32 else 1e-10)
    if not np.array_equal(num(nx, T1), G) or not np.array_equal(num(nx, lg2["T"]), G):
        raise Fail("agree:" + tag, "the plan depends on log or on the function called")
    sc = max(1.0, np.abs(L).max() * w2, np.abs(lin).max())
    tol = (1e-4 if f32 else 1e-8) * sc
    obj = lambda P: float(np.sum(lin * P) + w2 * quad(L, P))
    for x in (v, v1, lg[key], lg2[key], lg["loss"][-1]):
        if not abs(float(num(nx, x)) - obj(G)) <= tol:
            raise Fail("value:" + tag, "value %r, objective of the plan %r" % (float(num(nx, x)), obj(G)))
    if fused:
        ll, lq = float(num(nx, lg2["lin_loss"])), float(num(nx, lg2["quad_loss"]))
        if abs(ll - np.sum(lin * G)) > tol or abs(lq - w2 * quad(L, G)) > tol:
            raise Fail("parts:" + tag, "lin_loss %r quad_loss %r" % (ll, lq))
    ls = np.array([float(num(nx, x)) for x in lg["loss"]])
    if np.diff(ls).max(initial=0) > tol:
        raise Fail("monotone:" + tag, "losses %r" % ls.tolist())
    if case["G0"] in (None, "array", "product") and obj(G) > obj(G0) + tol and not (fused and case["G0"] == "product"):
        raise Fail("ascent:" + tag, "objective %r above %r at the initial plan" % (obj(G), obj(G0)))
    grad = lin + w2 * qgrad(L, G)
    gap = float(np.sum(grad * G) - (p * grad.min(1)).sum())
    lim = (3e-2 if f32 else 1e-3 if len(ls) - 1 < 800 else 3e-2) * sc
    if gap > lim:
        raise Fail("stationary:" + tag, "a linear step improves by %g after %d iterations" % (gap, len(ls) - 1))
    return round(obj(G), 6)


# ---- entropic semi-relaxed
def gen_esr(ctx):
    common(ctx, True)
    ctx.dev("w", ["lcg", "none", "zeros", "spiky"])
    ctx.dev("eps", [1.0, 0.1, 10.0, 1e-3])
    ctx.dev("G0", [None, "array", "product", "random"])
    ctx.dev("it", [1000, 3, 0])


def run_esr(case):
    n, m, p, q, C1, C2, M, lin, w2, L, kw = setup(case, (case["w"], "none"))
    arr, fused = case["arr"], case["fused"]
    nx, cv = backend(arr), conv(arr)
    f32 = arr == "torch32"
    kw.update(epsilon=case["eps"], max_iter=case["it"], tol=1e-6 if f32 else 1e-10)
    G0 = np.ones((n, m)) / m * p[:, None]
    if case["G0"] == "array":
        G0 = I.cost("lcg", n, m, 8)
        G0 *= p[:, None] / G0.sum(1, keepdims=True)
        kw["G0"] = cv(G0)
    elif case["G0"]:
        kw["G0"] = case["G0"]
    args = ([cv(M)] if fused else []) + [cv(C1), cv(C2), None if case["w"] == "none" else cv(p)]
    f1, f2, key = (g.entropic_semirelaxed_fused_gromov_wasserstein, g.entropic_semirelaxed_fused_gromov_wasserstein2, "srfgw_dist") if fused else (
        g.entropic_semirelaxed_gromov_wasserstein, g.entropic_semirelaxed_gromov_wasserstein2, "srgw_dist")
    tag = "esr%s:%s" % ("fgw" if fused else "gw", case["loss"])
    (T, lg), _ = call(f1, *args, log=True, **kw)
    T1, _ = call(f1, *args, **kw)
    (v, lg2), _ = call(f2, *args, log=True, **kw)
    v1, _ = call(f2, *args, **kw)
    G = num(nx, T)
    rows_ok("plan:" + tag, G, p, 1e-5 if f32 else 1e-10)
    if not np.array_equal(num(nx, T1), G) or not np.array_equal(num(nx, lg2["T"]), G):
        raise Fail("agree:" + tag, "the plan depends on log or on the function called")
    sc = max(1.0, np.abs(L).max() * w2, np.abs(lin).max())
    tol = (1e-4 if f32 else 1e-8) * sc
    want = float(np.sum(lin * G) + w2 * quad(L, G))
    for x in (v, v1, lg[key], lg2[key]):
        if not abs(float(num(nx, x)) - want) <= tol:
            raise Fail("value:" + tag, "value %r, objective of the plan %r" % (float(num(nx, x)), want))
    if fused and (abs(float(num(nx, lg2["lin_loss"])) - np.sum(lin * G)) > tol or abs(float(num(nx, lg2["quad_loss"])) - w2 * quad(L, G)) > tol):
        raise Fail("parts:" + tag, "lin_loss %r quad_loss %r" % (lg2["lin_loss"], lg2["quad_loss"]))
    errs = [float(num(nx, e)) for e in lg["err"]]
    if case["it"] <= 3:
        # the first rounds are the mirror steps of the definition
        H = G0
        if case["G0"] in (None, "array") and not f32:
            for _ in range(case["it"]):
                D = lin + w2 * qgrad(L, H)
                H = H * np.exp(-(D - D.min(1, keepdims=True)) / case["eps"])
                s = H.sum(1, keepdims=True)
                H = np.where(s > 0, H * p[:, None] / np.where(s > 0, s, 1), 0)
            if np.abs(H - G).max() > 1e-6:
                raise Fail("steps:" + tag, "%r expected %r" % (G.tolist(), H.tolist()))
    elif errs[-1] <= kw["tol"]:
        D = lin + w2 * qgrad(L, G)
        for i in range(n):
            s = G[i] > 1e-4 * p[i]
            if p[i] > 0 and np.ptp(D[i][s]) > (0.05 if f32 else 1e-3) * max(case["eps"], 0.01) * sc:
                raise Fail("stationary:" + tag, "gradient %r on the support of row %d" % (D[i][s].tolist(), i))
    return round(want, 6)


# ---- partial
def gen_p(ctx):
    common(ctx, False)
    ctx.choose("m", [None, 0.3, 0.7])
    ctx.dev("w", [("lcg", "lcg"), ("none", "none"), ("zeros", "lcg"), ("lcg", "zeros"), ("spiky", "uniform")])
    ctx.dev("mass", [(1.0, 1.0), (1.0, 1.5), (2.0, 1.2)])
    ctx.dev("same", [False, True])
    ctx.dev("dum", [1, 3])
    ctx.dev("G0", [None, "array"])
    ctx.dev("it", [600, 2, 20])


def partial_lp(p, q, m, c):
    n, k = c.shape
    A = np.zeros((n + k, n * k))
    for i in range(n):
        A[i, i * k:(i + 1) * k] = 1
    for j in range(k):
        A[n + j, j::k] = 1
    s = max(np.abs(c).max(), 1e-300)
    r = linprog(c.ravel() / s, A_ub=A, b_ub=np.r_[p, q] * 1000, A_eq=np.ones((1, n * k)), b_eq=[m * 1000 * (1 - 1e-12)], bounds=(0, None), method="highs")
    return r.fun * s / 1000


def partial_ok(sig, G, p, q, m, e):
    if not np.isfinite(G).all() or G.min(initial=0) < -e or (G.sum(1) - p).max() > e or (G.sum(0) - q).max() > e or abs(G.sum() - m) > e:
        raise Fail(sig, "mass %r for %r, rows %r <= %r, columns %r <= %r" % (G.sum(), m, G.sum(1).tolist(), p.tolist(), G.sum(0).tolist(), q.tolist()))


def run_p(case):
    n, k, p, q, C1, C2, M, lin, w2, L, kw = setup(case, case["w"], case["same"])
    if "none" not in case["w"]:
        p, q = p * case["mass"][0], q * case["mass"][1]
    arr, fused = case["arr"], case["fused"]
    nx, cv = backend(arr), conv(arr)
    f32 = arr == "torch32"
    m = min(p.sum(), q.sum()) * (case["m"] or 1.0)
    if case["m"]:
        kw["m"] = m
    G0 = np.outer(p, q) / p.sum() / q.sum() * m
    if case["G0"]:
        G0 = 0.999 * ot.partial.partial_wasserstein(p, q, I.cost("lcg", n, k, 12), m * (1 - 1e-9)) + 0.001 * G0
        kw["G0"] = cv(G0)
    kw.update(nb_dummies=case["dum"], numItermax=case["it"], tol=1e-6 if f32 else 1e-12)
    args = ([cv(M)] if fused else []) + [cv(C1), cv(C2)] + [None if w == "none" else cv(z) for w, z in zip(case["w"], (p, q))]
    f1, f2, key = (g.partial_fused_gromov_wasserstein, g.partial_fused_gromov_wasserstein2, "partial_fgw_dist") if fused else (
        g.partial_gromov_wasserstein, g.partial_gromov_wasserstein2, "partial_gw_dist")
    tag = "p%s:%s" % ("fgw" if fused else "gw", case["loss"])
    (T, lg), bad = call(f1, *args, log=True, **kw)
    T1, _ = call(f1, *args, **kw)
    (v, lg2), _ = call(f2, *args, log=True, **kw)
    v1, _ = call(f2, *args, **kw)
    if bad:
        raise Fail("warned:" + tag, "%s" % bad[:2])
    G = num(nx, T)
    e = 1e-5 if f32 else 1e-8
    partial_ok("plan:" + tag, G, p, q, m, e)
    if not np.array_equal(num(nx, T1), G) or not np.array_equal(num(nx, lg2["T"]), G):
        raise Fail("agree:" + tag, "the plan depends on log or on the function called")
    sc = max(1.0, np.abs(L).max() * w2, np.abs(lin).max()) * max(1, m) ** 2
    tol = (1e-4 if f32 else 1e-8) * sc
    obj = lambda P: float(np.sum(lin * P) + w2 * quad(L, P))
    for x in (v, v1, lg[key], lg2[key], lg["loss"][-1]):
        if not abs(float(num(nx, x)) - obj(G)) <= tol:
            raise Fail("value:" + tag, "value %r, objective of the plan %r" % (float(num(nx, x)), obj(G)))
    if fused:
        ll, lq = float(num(nx, lg2["lin_loss"])), float(num(nx, lg2["quad_loss"]))
        if abs(ll - np.sum(lin * G)) > tol or abs(lq - w2 * quad(L, G)) > tol:
            raise Fail("parts:" + tag, "lin_loss %r quad_loss %r" % (ll, lq))
    ls = np.array([float(x) for x in lg["loss"]])
    if np.diff(ls).max(initial=0) > tol or obj(G) > obj(G0) + tol:
        raise Fail("monotone:" + tag, "losses %r, initial objective %r" % (ls.tolist(), obj(G0)))
    if case["it"] < 600:
        return "short"
    grad = lin + w2 * qgrad(L, G)
    gap = float(np.sum(grad * G) - partial_lp(p, q, m, grad)) if np.abs(grad).max() > 1e-14 else 0.0
    lim = (3e-2 if f32 else 1e-3 if len(ls) - 1 < 600 else 3e-2) * sc
    if gap > lim:
        raise Fail("stationary:" + tag, "a linear step improves by %g after %d iterations" % (gap, len(ls) - 1))
    return round(obj(G), 6)


# ---- entropic partial
def gen_ep(ctx):
    common(ctx, True)
    if ctx.case["kind"] in ("graph", "pos"):
        ctx.prune()
    ctx.choose("m", [0.6, None])
    if ctx.case["m"] is None and ctx.case["kind"] == "asym":
        ctx.prune()
    ctx.dev("w", [("lcg", "lcg"), ("none", "none"), ("spiky", "uniform")])
    ctx.dev("mass", [(1.0, 1.0), (1.0, 1.5)])
    ctx.dev("reg", [1.0, 5.0])
    ctx.dev("G0", [None, "array"])


def run_ep(case):
    n, k, p, q, C1, C2, M, lin, w2, L, kw = setup(case, case["w"])
    if "none" not in case["w"]:
        p, q = p * case["mass"][0], q * case["mass"][1]
    arr, fused = case["arr"], case["fused"]
    if arr == "torch32":
        return "n/a"
    nx, cv = backend(arr), conv(arr)
    sc = max(np.abs(L).max() * w2, np.abs(lin).max(), 1e-9) * max(1, p.sum(), q.sum())
    m = min(p.sum(), q.sum()) * (case["m"] or 1.0)
    reg = case["reg"] * sc
    kw.update(reg=reg, numItermax=21, tol=1e-9)
    if case["m"]:
        kw["m"] = m
    if case["G0"]:
        kw["G0"] = cv(0.5 * np.outer(p, q) / p.sum() / q.sum() * m)
    args = ([cv(M)] if fused else []) + [cv(C1), cv(C2)] + [None if w == "none" else cv(z) for w, z in zip(case["w"], (p, q))]
    f1, f2, key = (g.entropic_partial_fused_gromov_wasserstein, g.entropic_partial_fused_gromov_wasserstein2, "partial_fgw_dist") if fused else (
        g.entropic_partial_gromov_wasserstein, g.entropic_partial_gromov_wasserstein2, "partial_gw_dist")
    tag = "ep%s:%s" % ("fgw" if fused else "gw", case["loss"])
    (v, lg), _ = call(f2, *args, log=True, **kw)
    T = lg["T"]
    v1 = v
    if arr == "F":
        v1, _ = call(f2, *args, **kw)
        (T, lg), _ = call(f1, *args, log=True, **kw)
    G = num(nx, T)
    partial_ok("plan:" + tag, G, p, q, m, 1e-5)
    want = float(np.sum(lin * G) + w2 * quad(L, G))
    for x in (v, v1, lg[key]):
        if not abs(float(num(nx, x)) - want) <= 1e-8 * (1 + sc):
            raise Fail("value:" + tag, "value %r, objective of the plan %r" % (float(num(nx, x)), want))
    errs = [float(num(nx, x)) for x in lg["err"]]
    if errs[-1] > 1e-8:
        return "not converged"
    # first order conditions: log T + grad/reg = c + f_i + g_j, f and g <= 0 and zero on unsaturated rows/columns
    Z = np.log(np.maximum(G, 1e-300)) + (lin + w2 * qgrad(L, G)) / reg
    if np.abs(Z - Z[:, :1] - Z[:1] + Z[0, 0]).max() > 1e-4:
        raise Fail("stationary:" + tag, "log-plan plus gradient is not a sum of row and column terms (%g)" % np.abs(Z - Z[:, :1] - Z[:1] + Z[0, 0]).max())
    for r, s, w in ((Z.mean(1), G.sum(1), p), (Z.mean(0), G.sum(0), q)):
        free = s < w * (1 - 1e-4)
        if free.any() and np.ptp(r[free]) + max(0, r.max() - r[free].max()) > 1e-3:
            raise Fail("stationary:" + tag, "multipliers %r for masses %r of %r" % (r.tolist(), s.tolist(), w.tolist()))
    return round(want, 6)


# ---- gradients
def gen_grad(ctx):
    ctx.choose("f", ["sr", "p"])
    ctx.choose("fused", [None, 0.0, 0.4, "tensor", "tensor0"])
    ctx.choose("loss", ["square_loss", "kl_loss"])
    ctx.choose("kind", ["pos", "posasym"])
    ctx.choose("m", [None, 0.6])
    if ctx.case["f"] == "sr" and ctx.case["m"]:
        ctx.prune()


def run_grad(case):
    import torch
    n, k = 4, 3
    p, q = I.weights("lcg", n, 1), I.weights("lcg", k, 2)
    C1, C2, M = structure(case["kind"], n, 1), structure(case["kind"], k, 5), I.cost("lcg", n, k, 3)
    al = {None: 1.0, "tensor": 0.3, "tensor0": 0.0}.get(case["fused"], case["fused"])
    d = {s: torch.tensor(x, requires_grad=True) for s, x in dict(C1=C1, C2=C2, M=M, alpha=np.array(al)).items()}
    kw = dict(loss_fun=case["loss"], log=True)
    w = [torch.tensor(p)] + ([torch.tensor(q)] if case["f"] == "p" else [])
    if case["m"]:
        kw["m"] = case["m"]
    names = ["C1", "C2"]
    if case["fused"] is not None:
        names.append("M")
        kw["alpha"] = case["fused"]
        if case["fused"] in ("tensor", "tensor0"):
            kw["alpha"] = d["alpha"]
            names.append("alpha")
        f = g.semirelaxed_fused_gromov_wasserstein2 if case["f"] == "sr" else g.partial_fused_gromov_wasserstein2
        (v, lg), _ = call(f, d["M"], d["C1"], d["C2"], *w, **kw)
    else:
        f = g.semirelaxed_gromov_wasserstein2 if case["f"] == "sr" else g.partial_gromov_wasserstein2
        (v, lg), _ = call(f, d["C1"], d["C2"], *w, **kw)
    T = lg["T"].detach().numpy()
    v.backward()
    if case["loss"] == "square_loss":
        D1 = 2 * (C1[:, None, :, None] - C2[None, :, None, :])
        D2 = -D1
    else:
        D1 = np.log(C1[:, None, :, None]) - np.log(C2[None, :, None, :])
        D2 = 1 - C1[:, None, :, None] / C2[None, :, None, :]
    want = dict(C1=al * np.einsum("ijkl,ij,kl->ik", D1, T, T), C2=al * np.einsum("ijkl,ij,kl->jl", D2, T, T), M=(1 - al) * T,
                alpha=quad(tensor(C1, C2, case["loss"]), T) - np.sum(T * M))
    for s in names:
        got = d[s].grad.numpy() if d[s].grad is not None else np.nan
        if not np.abs(got - want[s]).max() <= 1e-7:
            raise Fail("grad:%s:%s%s" % (s, case["f"], "fgw" if case["fused"] is not None else "gw"), "%r expected %r" % (np.asarray(got).tolist(), want[s].tolist()))
    return "ok"


# ---- semi-relaxed barycenters
def gen_b(ctx):
    ctx.choose("fused", [False, True])
    ctx.choose("loss", ["square_loss", "kl_loss"])
    ctx.choose("crit", ["barycenter", "loss"])
    ctx.choose("kind", ["dist", "posasym"])
    ctx.dev("fix", ["none", "structure", "features"])
    ctx.dev("N", [2, 1, 4])
    ctx.dev("lam", ["none", "skew", "one"])
    ctx.dev("w", ["given", "none"])
    ctx.dev("arr", ["C", "torch", "jax", "torch32"])
    ctx.dev("warm", [False, True])
    ctx.dev("G0", ["product", "random", "random_product", "kmeans", "spectral"])
    ctx.dev("init", [True, False])
    if ctx.case["loss"] == "kl_loss" and ctx.case["kind"] == "dist":
        ctx.prune()
    if not ctx.case["fused"] and ctx.case["fix"] != "none":
        ctx.prune()


def run_b(case):
    sizes, N, arr, fused, loss = (4, 3), case["N"], case["arr"], case["fused"], case["loss"]
    nx, cv = backend(arr), conv(arr)
    f32 = arr == "torch32"
    Cs = [structure(case["kind"], k, s + 1) for s, k in enumerate(sizes)]
    Ys = [I.points("signed", k, 2, s + 7) for s, k in enumerate(sizes)]
    lam = {"none": None, "skew": [0.8, 0.2], "one": [1.0, 0.0]}[case["lam"]]
    lm = np.array(lam or [0.5, 0.5])
    ps = [I.weights("ramp", k) if case["w"] == "given" else np.ones(k) / k for k in sizes]
    if case["G0"] in ("spectral",) and (case["kind"] != "dist" or N == 1):
        return "n/a"
    C0, X0 = structure("posasym" if case["kind"] == "posasym" else "pos", N, 9), I.points("lcg", N, 2, 3)
    fixS, fixF = case["fix"] == "structure", case["fix"] == "features"
    if not case["init"] and case["fix"] != "none":
        return "n/a"
    kw = dict(symmetric=case["kind"] != "posasym", loss_fun=loss, stop_criterion=case["crit"], log=True, G0=case["G0"], random_state=3, warmstartT=case["warm"], max_iter=60, tol=1e-6)
    if lam:
        kw["lambdas"] = lam
    if case["w"] == "given":
        kw["ps"] = [cv(x) for x in ps]
    if case["init"]:
        kw["init_C"] = cv(C0)
    tag = "sr%s:%s" % ("fgw" if fused else "gw", loss)
    st = np.random.get_state()[1].copy()
    if fused:
        al = 0.5
        if case["init"]:
            kw["init_X"] = cv(X0)
        (X, C, lg), _ = call(g.semirelaxed_fgw_barycenters, N, [cv(y) for y in Ys], [cv(c) for c in Cs], alpha=al, fixed_structure=fixS, fixed_features=fixF, **kw)
        X = num(nx, X)
    else:
        al = 1.0
        (C, lg), _ = call(g.semirelaxed_gromov_barycenters, N, [cv(c) for c in Cs], **kw)
        X = X0
    if not np.array_equal(st, np.random.get_state()[1]):
        raise Fail("bary:global-rng", "the global generator was reseeded or advanced")
    C = num(nx, C)
    T = [num(nx, t) for t in lg["T"]]
    e = 1e-4 if f32 else 1e-8
    for t, p in zip(T, ps):
        rows_ok("bary:plan:" + tag, t, p, e)
    qs = np.array([t.sum(0) for t in T])
    if np.abs(num(nx, lg["p"]) - qs).max() > e:
        raise Fail("bary:weights:" + tag, "%r expected %r" % (num(nx, lg["p"]), qs))
    # the structure and the features minimise the objective for the returned plans
    den = sum(l * np.outer(z, z) for l, z in zip(lm, qs))
    Cw = sum(l * t.T @ c @ t for l, t, c in zip(lm, T, Cs))
    S = den > 1e-12
    if not fixS and np.abs((C - Cw / np.where(S, den, 1))[S]).max(initial=0) > 10 * e:
        raise Fail("bary:update:" + tag, "structure %r, optimum %r" % (C.tolist(), (Cw / np.where(S, den, 1)).tolist()))
    if fixS and not np.allclose(C, C0, atol=1e-6) or fixF and not np.allclose(X, X0, atol=1e-6):
        raise Fail("bary:fixed:" + tag, "a fixed part changed")
    if fused and not fixF:
        dx = lm @ qs
        Xw = sum(l * t.T @ y for l, t, y in zip(lm, T, Ys)) / np.where(dx > 1e-12, dx, 1)[:, None]
        if np.abs((X - Xw)[dx > 1e-12]).max(initial=0) > 10 * e:
            raise Fail("bary:features:" + tag, "features %r, optimum %r" % (X.tolist(), Xw.tolist()))
    if case["crit"] == "loss":
        ls = [float(num(nx, x)) for x in lg["loss"]]
        if case["warm"] and np.diff(ls).max(initial=0) > 1e-6 * (1 + ls[0]):
            raise Fail("bary:monotone:" + tag, "losses %r" % ls)
        errs = [float(num(nx, x)) for x in lg["err_rel_loss" if fused else "err"]]
        stop = errs[-1] <= 1e-6
    elif fused:
        ef, es = [[float(num(nx, x)) for x in lg[s]] for s in ("err_feature", "err_structure")]
        errs = np.maximum(ef, es).tolist()
        stop = errs[-1] <= 1e-6
    else:
        errs = [float(num(nx, x)) for x in lg["err"]]
        stop = errs[-1] <= 1e-6
    if len(errs) < 60 and not stop and not np.isnan(errs[-1]):
        raise Fail("bary:stop:" + tag, "stopped after %d rounds with errors %r" % (len(errs), errs[-3:]))
    if any(x <= 1e-6 for x in errs[:-1]):
        raise Fail("bary:stop:" + tag, "went on after errors %r" % errs)
    return len(errs)


def scopes(tier):
    return [
        Scope("semirelaxed", gen_sr, run_sr, dev=1, thorough_dev=2, doc="row marginal, value, Frank-Wolfe gap"),
        Scope("entropic-semirelaxed", gen_esr, run_esr, dev=1, thorough_dev=2),
        Scope("partial", gen_p, run_p, dev=1, thorough_dev=2, doc="mass, inequalities, value, Frank-Wolfe gap of the partial LP"),
        Scope("entropic-partial", gen_ep, run_ep, dev=1, thorough_dev=2),
        Scope("gradients", gen_grad, run_grad),
        Scope("barycenters", gen_b, run_b, dev=1, thorough_dev=2),
    ]
