"""C16: entropic (fused) Gromov-Wasserstein, its proximal and Bregman alternating variants, barycenters, and solve_gromov."""
BACKENDS = ("torch", "jax")
OMP = 1
import numpy as np
import ot
import ot.gromov as g

from checks.c14 import backend, conv, num, qgrad, quad, structure, tensor
from checks.c15 import call, partial_lp, partial_ok, rows_ok
from mc import instances as I
from mc import oracle
from mc.engine import Fail, Scope

ASSUMPTIONS = ("a converged call is one whose logged error is below its tolerance",)


def kinds(ctx, ks):
    ctx.choose("loss", ["square_loss", "kl_loss"])
    ctx.choose("kind", ks)
    if ctx.case["loss"] == "kl_loss" and ctx.case["kind"] not in ("pos", "posasym", "zero"):
        ctx.prune()


# ---- entropic GW: composition of documented steps, objective, convergence
def gen(ctx):
    ctx.choose("fused", [False, True])
    ctx.choose("solver", ["PGD", "PPA", "BAPG", "BAPGm"])
    kinds(ctx, ["dist", "asym", "signed", "pos", "posasym"])
    ctx.dev("shape", [(3, 4), (4, 3), (1, 1), (1, 3), (4, 1), (11, 9)])
    ctx.dev("w", [("lcg", "lcg"), ("none", "none"), ("none", "lcg"), ("zeros", "lcg"), ("lcg", "zeros"), ("spiky", "uniform")])
    ctx.dev("it", [400, 0, 1, 2, 3])
    ctx.dev("eps", [0.3, 1.0, 10.0, 0.05])
    ctx.dev("arr", ["C", "F", "strided", "torch", "jax", "torch32"])
    ctx.dev("G0", [False, True])
    ctx.dev("warm", [False, True])
    ctx.dev("sym", [None, "given"])
    ctx.dev("alpha", [0.5, 0.0, 0.1, 1.0])
    ctx.dev("M", ["lcg", "neg", "big"])
    ctx.dev("mass", [1.0, 2.0])
    c = ctx.case
    if not c["fused"] and (c["M"] != "lcg" or c["alpha"] != 0.5) or c["warm"] and c["solver"].startswith("BAPG") or c["arr"] == "jax" and c["kind"] not in ("pos", "asym"):
        ctx.prune()


def run(case):
    n, m = case["shape"]
    p, q = [np.ones(k) / k if w == "none" else I.weights(w, k, s) for w, k, s in zip(case["w"], (n, m), (1, 2))]
    if "none" not in case["w"]:
        p, q = p * case["mass"], q * case["mass"]
    C1, C2, M = structure(case["kind"], n, 1), structure(case["kind"], m, 5), I.cost(case["M"], n, m, 3)
    al, loss, arr, fused, sv = case["alpha"], case["loss"], case["arr"], case["fused"], case["solver"]
    bapg = sv.startswith("BAPG")
    if bapg and (0 in p or 0 in q or case["eps"] < 0.3 or case["M"] == "big"):
        return "n/a"  # the iterations divide by the masses of the rows and columns, and do not use the log-domain
    if sv == "PPA" and (0 in p or 0 in q):
        return "n/a"
    nx, cv = backend(arr), conv(arr)
    f32 = arr == "torch32"
    if f32 and case["eps"] < 0.3:
        return "n/a"
    lin, w2 = ((1 - al) * M, al) if fused else (np.zeros((n, m)), 1.0)
    L = tensor(C1, C2, loss)
    sc = max(1.0, np.abs(L).max() * w2, np.abs(lin).max()) * case["mass"] ** 2
    eps = case["eps"] * sc
    it = min(case["it"], 2 if arr == "jax" else 12 if sv == "PPA" else 400)
    kw = dict(loss_fun=loss, epsilon=eps, max_iter=it, tol=1e-5 if f32 else 1e-10)
    if case["sym"]:
        kw["symmetric"] = bool(np.allclose(C1, C1.T) and np.allclose(C2, C2.T))
    G0 = np.outer(p, q)
    if case["G0"]:
        G0 = np.outer(p, q) / p.sum() * (1 + 0.3 * I.cost("lcg", n, m, 8))
        kw["G0"] = cv(G0)
    if fused:
        kw["alpha"] = al
    key = "fgw_dist" if fused else "gw_dist"
    if bapg:
        f1, f2 = (g.BAPG_fused_gromov_wasserstein, g.BAPG_fused_gromov_wasserstein2) if fused else (g.BAPG_gromov_wasserstein, g.BAPG_gromov_wasserstein2)
        kw["marginal_loss"] = sv == "BAPGm"
    else:
        f1, f2 = (g.entropic_fused_gromov_wasserstein, g.entropic_fused_gromov_wasserstein2) if fused else (g.entropic_gromov_wasserstein, g.entropic_gromov_wasserstein2)
        kw.update(solver=sv, warmstart=case["warm"], numItermax=1000 if sv == "PPA" else 5000, stopThr=1e-6 if f32 else 1e-12)
    args = ([cv(M)] if fused else []) + [cv(C1), cv(C2)] + [None if w == "none" else cv(z) for w, z in zip(case["w"], (p, q))]
    tag = "%s:%s" % (sv, "fgw" if fused else "gw")
    (T, lg), bad = call(f1, *args, log=True, **kw)
    T1, _ = call(f1, *args, **kw)
    (v, lg2), _ = call(f2, *args, log=True, **kw)
    v1, _ = call(f2, *args, **kw)
    inner = any("did not converge" in b for b in bad)  # the Sinkhorn iterations of some step
    bad = [b for b in bad if "did not converge" not in b]
    if case["it"] == 0 and abs(G0.sum() - p.sum()) > 1e-5:
        bad = []
    if bad and not inner:
        raise Fail("warned:" + tag, "%s" % bad[:2])
    G = num(nx, T)
    if f32 and "float32" not in str(T.dtype):
        raise Fail("dtype:" + tag, "plan of type %s" % T.dtype)
    if not np.array_equal(num(nx, T1), G) or not np.array_equal(num(nx, lg2["T"]), G):
        raise Fail("agree:" + tag, "the plan depends on log or on the function called")
    e = 1e-4 if f32 else 1e-7
    if case["it"]:
        if bapg:
            if not np.isfinite(G).all() or G.min() < 0 or np.abs(G.sum(0) - q).max() > e:
                raise Fail("plan:" + tag, "columns %r for %r" % (G.sum(0).tolist(), q.tolist()))
        else:
            oracle.check_coupling(Fail, "plan:" + tag, G, p, q, 1e-3 if inner else e)
    tol = (1e-4 if f32 else 1e-8) * sc
    want = float(np.sum(lin * G) + w2 * quad(L, G))
    # the reported loss of a plan that misses a marginal (Bregman alternating) uses the given weights instead
    A, B_ = G.sum(1), G.sum(0)
    F1, F2 = (C1 ** 2, C2 ** 2) if loss == "square_loss" else (C1 * np.log(C1 + 1e-15) - C1, C2)
    want += w2 * float(((F1 @ p) * A).sum() - A @ F1 @ A + ((F2 @ q) * B_).sum() - B_ @ F2 @ B_)
    for x in (v, v1, lg[key], lg2[key]):
        if not abs(float(num(nx, x)) - want) <= tol:
            raise Fail("value:" + tag, "value %r, objective of the plan %r" % (float(num(nx, x)), want))
    if fused and (abs(float(num(nx, lg2["lin_loss"])) - np.sum(lin * G)) > tol or abs(float(num(nx, lg2["quad_loss"])) - want + np.sum(lin * G)) > tol):
        raise Fail("parts:" + tag, "lin_loss %r quad_loss %r" % (lg2["lin_loss"], lg2["quad_loss"]))
    # the gradient as the solvers build it: exact on couplings
    if loss == "square_loss":
        h1, h2 = C1, 2 * C2
    else:
        h1, h2 = C1, np.log(C2 + 1e-15)

    def grad(T):
        const = 0.5 * ((F1 @ p)[:, None] + (F1.T @ p)[:, None] + (F2 @ q)[None] + (F2.T @ q)[None])
        cross = -(h1 @ T @ h2.T + h1.T @ T @ h2)
        return lin + w2 * (cross + (0 if sv == "BAPG" else 2 * const))

    def step(T):
        if bapg:
            T = T * np.exp(-grad(T) / eps)
            T = T * (p / T.sum(1))[:, None]
            T = T * np.exp(-grad(T) / eps)
            return T * (q / T.sum(0))[None]
        return oracle.sinkhorn_ref(p, q, grad(T) - (eps * np.log(T) if sv == "PPA" else 0), eps)

    errs = [float(num(nx, x)) for x in lg["err"]]
    if case["it"] <= 3:
        H = G0
        for _ in range(case["it"]):
            H = step(H)
        if np.abs(H - G).max() > (1e-4 if f32 else 1e-6):
            raise Fail("steps:" + tag, "%r expected %r" % (G.tolist(), H.tolist()))
        return round(want, 6)
    if errs[-1] <= kw["tol"]:
        H = step(G)
        if np.abs(H - G).max() > (1e-3 if f32 else 1e-5):
            raise Fail("stationary:" + tag, "a further step moves the converged plan by %g" % np.abs(H - G).max())
    return round(want, 6)


# ---- barycenters: rounds are the documented updates
def gen_b(ctx):
    ctx.choose("fused", [False, True])
    ctx.choose("loss", ["square_loss", "kl_loss"])
    ctx.choose("stop", ["barycenter", "loss"])
    ctx.choose("rounds", [1, 3])
    ctx.dev("fixed", ["none", "structure", "features"])
    ctx.dev("lam", [None, (0.3, 0.7), (1.0, 0.0)])
    ctx.dev("w", [("lcg", "lcg"), ("none", "none"), ("none", "lcg"), ("lcg", "none"), ("lcg", "zeros")])
    ctx.dev("arr", ["C", "F", "torch"])
    ctx.dev("sizes", [(3, 4), (5, 5), (2, 2)])
    ctx.dev("warm", [False, True])
    ctx.dev("solver", ["PGD", "PPA"])
    ctx.dev("kind", ["pos", "posasym"])
    ctx.dev("init", [True, False])
    c = ctx.case
    if not c["fused"] and c["fixed"] != "none":
        ctx.prune()


def run_b(case):
    N, d = 3, 2
    nx, cv = backend(case["arr"]), conv(case["arr"])
    loss, fused = case["loss"], case["fused"]
    Cs = [structure(case["kind"], k, s) for k, s in zip(case["sizes"], (1, 5))]
    Ys = [I.points("lcg", k, d, s) for k, s in zip(case["sizes"], (11, 12))]
    ps = [I.weights(case["w"][1] if case["w"][1] != "none" else "uniform", k, s) for k, s in zip(case["sizes"], (2, 3))]
    if case["solver"] == "PPA" and case["w"][1] == "zeros":
        return "n/a"
    p = I.weights(case["w"][0] if case["w"][0] != "none" else "uniform", N, 4)
    lam = case["lam"] or (0.5, 0.5)
    C, Y = structure(case["kind"], N, 7), I.points("lcg", N, d, 8)
    sc, eps, al = 1, 2.0, 0.5
    kw = dict(p=cv(p) if case["w"][0] != "none" else None, ps=[cv(z) for z in ps] if case["w"][1] != "none" else None, lambdas=None if case["lam"] is None else list(lam), loss_fun=loss, epsilon=eps,
              symmetric=case["kind"] == "pos", stop_criterion=case["stop"], warmstartT=case["warm"], solver=case["solver"], numItermax=3000, stopThr=1e-12, random_state=5)
    if case["init"]:
        kw["init_C"] = cv(C)
        if fused:
            kw["init_Y"] = cv(Y)
    elif case["fixed"] != "none" or case["rounds"] > 1:
        return "n/a"
    if fused:
        kw.update(alpha=al, fixed_structure=case["fixed"] == "structure", fixed_features=case["fixed"] == "features")
    kw["max_iter"] = case["rounds"]
    kw["tol"] = -1.0  # never stop early: max_iter rounds

    def bary(**k):
        k = {**kw, **k}
        if fused:
            return call(g.entropic_fused_gromov_barycenters, N, [cv(z) for z in Ys], [cv(z) for z in Cs], log=True, **k)[0]
        r, lg = call(g.entropic_gromov_barycenters, N, [cv(z) for z in Cs], log=True, **k)[0]
        return None, r, lg

    Yr, Cr, lg = bary()
    tag = "bary:%s" % ("fgw" if fused else "gw")
    Cr = num(nx, Cr)
    Ts = [num(nx, t) for t in lg["T"]]
    if Cr.shape != (N, N) or not np.isfinite(Cr).all():
        raise Fail(tag + ":shape", "%r" % (Cr,))
    for T, w in zip(Ts, ps):
        oracle.check_coupling(Fail, tag + ":plan", T, p, w, 1e-6)
    # the returned structure and features are the update for the returned plans
    if case["fixed"] != "structure":
        f = (lambda x: x) if loss == "square_loss" else (lambda x: np.log(np.maximum(x, 1e-300)))
        W = sum(l * T @ f(c) @ T.T for l, T, c in zip(lam, Ts, Cs)) / np.outer(p, p) / sum(lam)
        W = W if loss == "square_loss" else np.exp(W)
        if np.abs(W - Cr).max() > 1e-6:
            raise Fail(tag + ":structure", "%r expected %r" % (Cr.tolist(), W.tolist()))
    elif not np.allclose(Cr, C):
        raise Fail(tag + ":fixed", "the fixed structure changed")
    if fused:
        Yr = num(nx, Yr)
        if case["fixed"] == "features":
            if not np.allclose(Yr, Y):
                raise Fail(tag + ":fixed", "the fixed features changed")
        else:
            W = sum(l * T @ y for l, T, y in zip(lam, Ts, Ys)) / p[:, None] / sum(lam)
            if np.abs(W - Yr).max() > 1e-6:
                raise Fail(tag + ":features", "%r expected %r" % (Yr.tolist(), W.tolist()))
    # the plans of a first round are those of the initial barycenter
    if case["rounds"] == 1 and case["init"]:
        for s in range(2):
            kk = dict(loss_fun=loss, epsilon=eps, symmetric=case["kind"] == "pos", max_iter=1, tol=1e-4, solver=case["solver"], numItermax=3000, stopThr=1e-12)
            if fused:
                D = ((Y[:, None] - Ys[s][None]) ** 2).sum(-1)
                T = g.entropic_fused_gromov_wasserstein(D, C, Cs[s], p, ps[s], alpha=al, **kk)
            else:
                T = g.entropic_gromov_wasserstein(C, Cs[s], p, ps[s], **kk)
            if np.abs(T - Ts[s]).max() > 1e-6:
                raise Fail(tag + ":round", "the plan of structure %d is not the one of the initial barycenter" % s)
        if case["stop"] == "loss":
            want = 0.0
            for s in range(2):
                D = ((Y[:, None] - Ys[s][None]) ** 2).sum(-1)
                want += lam[s] * ((1 - al) * np.sum(D * Ts[s]) + al * quad(tensor(C, Cs[s], loss), Ts[s]) if fused else quad(tensor(C, Cs[s], loss), Ts[s]))
            if abs(float(num(nx, lg["loss"][0])) - want) > 1e-6:
                raise Fail(tag + ":loss", "loss %r, expected %r" % (lg["loss"][0], want))
    return "ok"


# a run stops only when what it updates no longer moves
def gen_c(ctx):
    ctx.choose("fused", [False, True])
    ctx.choose("stop", ["barycenter", "loss"])
    ctx.choose("fixed", ["none", "structure", "features"])
    ctx.dev("loss", ["square_loss", "kl_loss"])
    ctx.dev("warm", [False, True])
    if not ctx.case["fused"] and ctx.case["fixed"] != "none":
        ctx.prune()


def run_c(case):
    N = 3
    Cs = [structure("pos", k, s) for k, s in zip((3, 4), (1, 5))]
    Ys = [I.points("lcg", k, 2, s) for k, s in zip((3, 4), (11, 12))]
    C, Y = structure("pos", N, 7), I.points("lcg", N, 2, 8)
    kw = dict(loss_fun=case["loss"], epsilon=5.0, stop_criterion=case["stop"], warmstartT=case["warm"], max_iter=200, tol=1e-7, init_C=C, numItermax=3000, stopThr=1e-13)
    tag = "bary:%s" % ("fgw" if case["fused"] else "gw")
    if case["fused"]:
        kw.update(init_Y=Y, fixed_structure=case["fixed"] == "structure", fixed_features=case["fixed"] == "features")
        (Y1, C1, lg), _ = call(g.entropic_fused_gromov_barycenters, N, Ys, Cs, log=True, **kw)
        kw.update(init_C=C1, init_Y=Y1, max_iter=200, tol=1e14)
        (Y2, C2, _), _ = call(g.entropic_fused_gromov_barycenters, N, Ys, Cs, log=True, **kw)
    else:
        (C1, lg), _ = call(g.entropic_gromov_barycenters, N, Cs, log=True, **kw)
        Y1 = Y2 = Y
        kw.update(init_C=C1, tol=1e14)
        (C2, _), _ = call(g.entropic_gromov_barycenters, N, Cs, log=True, **kw)
    k = "err_structure" if "err_structure" in lg else "err_rel_loss" if "err_rel_loss" in lg else "err"
    if len(lg[k]) >= 200:
        return "budget"
    if np.abs(C2 - C1).max() > 1e-2 or np.abs(Y2 - Y1).max() > 1e-2:
        raise Fail(tag + ":stop", "stopped after %d rounds although a further one moves the result by %g / %g" % (len(lg[k]), np.abs(C2 - C1).max(), np.abs(Y2 - Y1).max()))
    return len(lg[k])


# ---- solve_gromov
def gen_s(ctx):
    ctx.choose("prob", ["exact", "semirelaxed", "partial", "PGD", "PPA", "entropic-sr", "entropic-partial"])
    ctx.choose("loss", ["L2", "KL"])
    ctx.choose("alpha", [None, 0.5, 0.1, 0.0, 1.0])
    ctx.choose("kind", ["pos", "posasym"])
    ctx.dev("w", [("lcg", "lcg"), (None, None), (None, "lcg"), ("lcg", None), ("zeros", "lcg")])
    ctx.dev("arr", ["C", "torch", "jax", "torch32"])
    ctx.dev("shape", [(3, 4), (4, 3), (1, 3)])
    ctx.dev("init", [False, True])
    ctx.dev("sym", [None, "given"])
    ctx.dev("reg", [1.0, 5.0])
    ctx.dev("case", ["as is", "swapped"])
    ctx.dev("unb", ["default", "warned"])
    if ctx.case["arr"] == "jax" and (ctx.case["kind"] != "pos" or ctx.case["alpha"] not in (0.5, None) or ctx.case["prob"] in ("PPA", "entropic-partial")):
        ctx.prune()
    if ctx.case["reg"] != 1.0 and ctx.case["prob"] in ("exact", "semirelaxed", "partial"):
        ctx.prune()


def run_s(case):
    n, m = case["shape"]
    pr, al, arr = case["prob"], case["alpha"], case["arr"]
    ent = pr in ("PGD", "PPA", "entropic-sr", "entropic-partial")
    if arr == "torch32" and pr in ("entropic-partial", "PPA") or pr == "PPA" and "zeros" in case["w"]:
        return "n/a"
    nx, cv = backend(arr), conv(arr)
    f32 = arr == "torch32"
    p, q = [np.ones(k) / k if w is None else I.weights(w, k, s) for w, k, s in zip(case["w"], (n, m), (1, 2))]
    C1, C2, M = structure(case["kind"], n, 1), structure(case["kind"], m, 5), I.cost("lcg", n, m, 3)
    loss = {"L2": "square_loss", "KL": "kl_loss"}[case["loss"]]
    fused = al is not None
    lin, w2 = ((1 - al) * M, al) if fused else (np.zeros((n, m)), 1.0)
    L = tensor(C1, C2, loss)
    sc = max(1.0, np.abs(L).max())
    reg = case["reg"] * sc
    kw = dict(loss=case["loss"] if case["case"] == "as is" else case["loss"].swapcase())
    if fused:
        kw["alpha"] = al
    if case["sym"]:
        kw["symmetric"] = case["kind"] == "pos"
    if ent:
        kw.update(reg=reg, tol=1e-5 if f32 else 1e-9)
        if pr in ("PGD", "PPA"):
            kw["method"] = pr
            if pr == "PPA":
                kw["max_iter"] = 4
    if "sr" in pr or pr == "semirelaxed":
        kw["unbalanced_type"] = "semirelaxed" if case["case"] == "as is" else "SemiRelaxed"
    if "partial" in pr:
        kw.update(unbalanced_type="partial", unbalanced=0.7)
        if pr == "entropic-partial":
            kw["max_iter"] = 11
    elif case["unb"] == "warned":
        if pr in ("exact", "PGD"):
            kw["unbalanced_type"] = "partial"
        else:
            return "n/a"
    G0 = np.outer(p, q) * (0.7 if "partial" in pr else 1)
    if case["init"]:
        if pr == "semirelaxed" or pr == "entropic-sr":
            G0 = p[:, None] * q[None]
        kw["plan_init"] = cv(G0)
    elif "sr" in pr or pr == "semirelaxed":
        G0 = p[:, None] * np.ones((1, m)) / m
    tag = "solve:%s" % pr
    res, bad = call(ot.solve_gromov, cv(C1), cv(C2), cv(M) if fused else None, *[None if w is None else cv(z) for w, z in zip(case["w"], (p, q))], **kw)
    told = [b for b in bad if "balanced OT is computed" in b]
    if bool(told) != (case["unb"] == "warned" and pr in ("exact", "PGD")):
        raise Fail(tag + ":warning", "warnings %r" % bad)
    G = num(nx, res.plan)
    e = 1e-4 if f32 else 1e-6 if ent else 1e-9
    if "partial" in pr:
        partial_ok(tag + ":plan", G, p, q, 0.7, 1e-5 if ent or f32 else 1e-8)
    elif "sr" in pr or pr == "semirelaxed":
        rows_ok(tag + ":plan", G, p, e)
    else:
        oracle.check_coupling(Fail, tag + ":plan", G, p, q, e)
    tol = (2e-4 if f32 else 1e-6 if ent else 1e-8) * (sc + reg)
    wl, wq = float(np.sum(lin * G)), w2 * quad(L, G)
    full = wl + wq + (reg * float(np.sum(G * np.log(G + 1e-16))) if ent else 0.0)
    if not abs(float(num(nx, res.value)) - full) <= tol:
        raise Fail(tag + ":value", "value %r, objective of the plan %r" % (float(num(nx, res.value)), full))
    for nm, x, w in (("value_linear", res.value_linear, wl), ("value_quad", res.value_quad, wq)):
        if x is not None and not abs(float(num(nx, x)) - w) <= tol or x is None and fused and al not in (0.0, 1.0):
            raise Fail(tag + ":" + nm, "%s %r expected %r" % (nm, x, w))
    for x, w in ((res.marginal_a, G.sum(1)), (res.marginal_b, G.sum(0))):
        if x is not None and np.abs(num(nx, x) - w).max() > 1e-6:
            raise Fail(tag + ":marginals", "%r for a plan with %r" % (x, w))
    obj = lambda P: float(np.sum(lin * P) + w2 * quad(L, P) + (reg * np.sum(np.where(P > 0, P * np.log(np.maximum(P, 1e-300)), 0)) if ent else 0))
    # comparison of objectives: start, stationarity
    if pr in ("exact", "semirelaxed", "partial") and obj(G) > obj(G0) + tol:
        raise Fail(tag + ":ascent", "objective %r above %r at the start" % (obj(G), obj(G0)))
    gr = lin + w2 * qgrad(L, G)
    lim = (3e-2 if f32 else 1e-3) * sc
    if pr == "exact":
        gap = np.sum(gr * G) - oracle.transport_lp(p, q, gr)
    elif pr == "semirelaxed":
        gap = np.sum(gr * G) - (p * gr.min(1)).sum()
    elif pr == "partial":
        gap = np.sum(gr * G) - partial_lp(p, q, 0.7, gr)
    elif pr == "PPA":
        gap = 0
    elif pr == "PGD":
        H = oracle.sinkhorn_ref(p, q, gr, reg)
        gap, lim = np.abs(H - G).max(), 1e-3 if f32 else 1e-5
    elif pr == "entropic-sr":
        # mirror descent converges to the unregularised problem, so only descent is claimed
        gap = max(0.0, float(np.sum(lin * G) + w2 * quad(L, G) - np.sum(lin * G0) - w2 * quad(L, G0)))
        lim = tol
    else:
        gap = 0
        Z = np.log(np.maximum(G, 1e-300)) + gr / reg
        if np.abs(Z - Z[:, :1] - Z[:1] + Z[0, 0]).max() > 1e-3 and "zeros" not in case["w"]:
            raise Fail(tag + ":stationary", "not a fixed point of the entropic projections")
    if gap > lim:
        raise Fail(tag + ":stationary", "gap %g" % gap)
    if res.potentials is not None and pr == "exact":
        u, v = [num(nx, z) for z in res.potentials]
        sl = (gr - u[:, None] - v[None])[np.ix_(p > 0, q > 0)]
        if u.shape != (n,) or v.shape != (m,) or sl.min() < -0.2 * sc:
            raise Fail(tag + ":potentials", "slack %g" % sl.min())
    return round(full, 6)


def gen_r(ctx):
    ctx.choose("bad", ["loss", "reg_type", "unb_type", "mass", "kl", "reg-unb"])
    ctx.choose("fused", [False, True])


def run_r(case):
    C1, C2, M = structure("pos", 3, 1), structure("pos", 4, 5), I.cost("lcg", 3, 4, 3)
    kw = {"loss": dict(loss="L1"), "reg_type": dict(reg=1.0, reg_type="L7"), "unb_type": dict(unbalanced=1.0, unbalanced_type="foo"), "mass": dict(unbalanced=1.5, unbalanced_type="partial"),
          "kl": dict(unbalanced=1.0, unbalanced_type="KL"), "reg-unb": dict(reg=1.0, unbalanced=1.0, unbalanced_type="KL")}[case["bad"]]
    try:
        r = ot.solve_gromov(C1, C2, M if case["fused"] else None, **kw)
    except (ValueError, NotImplementedError):
        return "rejected"
    raise Fail("solve:accepted", "%r returned %r" % (kw, r.value))


def scopes(tier):
    return [
        Scope("entropic", gen, run, dev=1, thorough_dev=2, doc="solver x loss x structures x options: coupling, value, composition of documented steps, fixed point"),
        Scope("barycenters", gen_b, run_b, dev=1, thorough_dev=2),
        Scope("stops", gen_c, run_c, dev=1, thorough_dev=2),
        Scope("solve_gromov", gen_s, run_s, dev=1, thorough_dev=2),
        Scope("rejects", gen_r, run_r),
    ]
