"""C19: gradients of the differentiable losses are the derivatives of the value they return."""
BACKENDS = ("torch", "jax", "tf")
OMP = 1
import itertools
import os
import warnings

import numpy as np
import ot
import ot.batch
import ot.coot
import ot.gmm
import ot.gromov as G
from ot.lp import dmmot_monge_1dgrid_loss

from checks.c14 import backend, num
from mc import instances as I
from mc import oracle
from mc.calls import spd, structure
from mc.engine import Fail, Scope

ASSUMPTIONS = ("torch and tensorflow; gradients are those at points where the loss is differentiable",)
F = {}


def loss(name, free="", simplex="", bk="tf", h=1e-5, tol=1e-5, **opts):
    """f(d): a scalar from the arrays d.x; `free` are differentiable arrays, `simplex` weights with a fixed sum."""
    def deco(f):
        F[name] = dict(f=f, free=free.split(), simplex=simplex.split(), bk=bk, h=h, tol=tol, **opts)
        return f
    return deco


R = 0.5


def total(z):
    return ot.backend.get_backend(z).sum(z)


def last_step(d, base, kind):
    """The value after one iteration that starts from the converged potential of `base`, held constant."""
    lse = lambda Z, ax: np.log(np.exp(Z).sum(ax))
    K = -d.M / R
    u = np.log(oracle.sinkhorn_ref(base.a, base.b, base.M, R))[:, 0] + base.M[:, 0] / R
    v = np.log(d.b) - lse(K + u[:, None], 0)
    u = np.log(d.a) - lse(K + v[None], 1)
    P = np.exp(K + u[:, None] + v[None])
    return float((d.M * P).sum() + R * (P * np.log(P / (np.outer(d.a, d.b) if kind == "kl" else 1))).sum())


def table():
    def add(name, f, *a, **k):
        loss(name, *a, **k)(f)
    # exact
    add("emd2", lambda d: ot.emd2(d.a, d.b, d.M), "M", "a b", exact=True)
    add("emd2:log", lambda d: ot.emd2(d.a, d.b, d.M, log=True, return_matrix=True)[0], "M", "a b", exact=True)
    add("emd2:unnormalised", lambda d: ot.emd2(d.a2, d.b2, d.M), "M", "a2 b2", exact=True)
    add("emd2:dist", lambda d: ot.emd2(d.a, d.b, ot.dist(d.x, d.y)), "x y", "a b", exact=True)
    add("emd2:multi", lambda d: sum(d.lam[i] * x for i, x in enumerate(ot.emd2(d.a, d.B, d.M))), "M", "a", exact=True)
    for p in (1, 2, 1.5):
        add("wasserstein_1d:%s" % p, lambda d, p=p: ot.wasserstein_1d(d.u, d.v, d.a, d.b, p=p), "u v", "a b", exact=True)
    add("wasserstein_1d:multi", lambda d: total((ot.wasserstein_1d(d.x, d.y, p=2) * d.lam2)), "x y", "", exact=True)
    for p in (1, 2):
        add("wasserstein_circle:%s" % p, lambda d, p=p: total(ot.wasserstein_circle(d.u, d.v, d.a, d.b, p=p)), "u v", "", bk="t", exact=True, h=1e-6)
    add("semidiscrete_circle", lambda d: total(ot.semidiscrete_wasserstein2_unif_circle(d.u, d.a)), "u", "", exact=True)
    add("sliced", lambda d: ot.sliced_wasserstein_distance(d.x, d.y, d.a, d.b, projections=d.P), "x y", "a b", exact=True)
    add("sliced:p1", lambda d: ot.sliced_wasserstein_distance(d.x, d.y, d.a, d.b, p=1, projections=d.P), "x y", "a b", exact=True)
    add("max_sliced", lambda d: ot.max_sliced_wasserstein_distance(d.x, d.y, d.a, d.b, projections=d.P), "x y", "a b", exact=True)
    add("dmmot", lambda d: dmmot_monge_1dgrid_loss(d.A), "", "A", bk="t", exact=True)
    # entropic
    k = dict(numItermax=60, stopThr=0, warn=False)
    add("sinkhorn2:sinkhorn", lambda d: ot.sinkhorn2(d.a, d.b, d.M, R, **k), "M", "a b", bk="tf")
    add("sinkhorn2:log", lambda d: ot.sinkhorn2(d.a, d.b, d.M, R, method="sinkhorn_log", **k), "M", "a b", bk="tf")
    add("sinkhorn2:stabilized", lambda d: ot.sinkhorn2(d.a, d.b, d.M, R, method="sinkhorn_stabilized", numItermax=60, stopThr=0, warn=False), "M", "a b", bk="t")
    add("sinkhorn2:multi", lambda d: total((ot.sinkhorn2(d.a, d.B, d.M, R, **k) * d.lam)), "M", "a B", bk="t")
    add("sinkhorn:plan", lambda d: total((ot.sinkhorn(d.a, d.b, d.M, R, **k) * d.M2)), "M", "a b", bk="tf")
    add("sinkhorn:few", lambda d: total((ot.sinkhorn(d.a, d.b, d.M, R, numItermax=3, stopThr=0, warn=False, method="sinkhorn_log") * d.M2)), "M", "a b", bk="tf")
    add("empirical_sinkhorn2", lambda d: ot.bregman.empirical_sinkhorn2(d.x, d.y, R, d.a, d.b, numIterMax=40, stopThr=0, warn=False), "x y", "a b", bk="tf")
    add("sinkhorn_divergence", lambda d: ot.bregman.empirical_sinkhorn_divergence(d.x, d.y, R, d.a, d.b, numIterMax=40, stopThr=0, warn=False), "x y", "a b", bk="tf")
    add("barycenter", lambda d: total((ot.barycenter(d.A, d.Mn, R, d.lam, numItermax=15, stopThr=0, warn=False) * d.a)), "Mn", "A", bk="t")
    # unbalanced
    for m in ("sinkhorn", "sinkhorn_stabilized"):
        add("unbalanced2:" + m, lambda d, m=m: ot.sinkhorn_unbalanced2(d.a2, d.b2, d.M, R, (1.3, 0.7), method=m, numItermax=40, stopThr=0), "M a2 b2", "", bk="tf" if m == "sinkhorn" else "t")
    add("unbalanced:plan", lambda d: total((ot.sinkhorn_unbalanced(d.a2, d.b2, d.M, R, 1.3, numItermax=30, stopThr=0) * d.M2)), "M a2 b2", "", bk="tf")
    for div in ("kl", "l2"):
        add("mm_unbalanced2:" + div, lambda d, div=div: ot.unbalanced.mm_unbalanced2(d.a2, d.b2, d.M, 1.1, div=div, numItermax=20, stopThr=0), "M a2 b2", "", bk="tf")
    # solve: the kinds of gradient and regularisation
    for nm, kw in dict(exact={}, kl=dict(reg=R), ent=dict(reg=R, reg_type="entropy")).items():
        for gr in ("autodiff", "envelope", "last_step") if nm != "exact" else ("autodiff",):
            ref = dict(ref=lambda d, base, nm=nm: last_step(d, base, nm)) if gr == "last_step" else {}
            add("solve:%s:%s" % (nm, gr), lambda d, kw=kw, gr=gr: ot.solve(d.M, d.a, d.b, grad=gr, max_iter=3000, tol=1e-13, **kw).value, "M", "a b", bk="tf", exact=nm == "exact", **ref)
        add("solve:%s:linear" % nm, lambda d, kw=kw: ot.solve(d.M, d.a, d.b, max_iter=3000, tol=1e-13, **kw).value_linear, "M", "a b" if nm != "exact" else "", bk="tf", exact=nm == "exact")
    for nm, kw in dict(u_kl=dict(unbalanced=1.1, unbalanced_type="KL"), u_l2=dict(unbalanced=1.1, unbalanced_type="L2"), ur_kl=dict(reg=R, unbalanced=1.1, unbalanced_type="KL")).items():
        add("solve:" + nm, lambda d, kw=kw: ot.solve(d.M, d.a2, d.b2, max_iter=5000, tol=1e-13, **kw).value, "M a2 b2", "", bk="tf" if nm == "ur_kl" else "t", tol=2e-4)
    add("solve_sample:exact", lambda d: ot.solve_sample(d.x, d.y, d.a, d.b).value, "x y", "a b", exact=True)
    for gr in ("autodiff", "envelope"):
        add("solve_sample:kl:" + gr, lambda d, gr=gr: ot.solve_sample(d.x, d.y, d.a, d.b, reg=R, grad=gr, max_iter=3000, tol=1e-13).value, "x y", "a b", bk="tf")
    add("solve_sample:1d", lambda d: total(ot.solve_sample(d.x, d.y, d.a, d.b, method="1d").value), "x y", "a b", exact=True)
    add("solve_sample:gaussian", lambda d: ot.solve_sample(d.xg, d.yg, method="gaussian", reg=1e-3).value, "xg yg", "", h=1e-4)
    # Gaussian and mixtures
    add("bures", lambda d: ot.gaussian.bures_wasserstein_distance(d.ms[0], d.mt[0], d.Cs[0], d.Ct[0]), "ms mt", "", sym="Cs Ct", h=1e-4, tol=1e-4)
    add("empirical_bures", lambda d: ot.gaussian.empirical_bures_wasserstein_distance(d.xg, d.yg, reg=0.1), "xg yg", "", h=1e-4)
    add("gmm_loss", lambda d: ot.gmm.gmm_ot_loss(d.ms, d.mt, d.Cs, d.Ct, d.w3, d.w4), "ms mt", "w3 w4", sym="Cs Ct", exact=True, h=1e-5, tol=1e-4, fixed=True)
    add("gmm_pdf", lambda d: total(ot.gmm.gmm_pdf(d.x, d.ms, d.Cs, d.w3)), "x ms", "w3", sym="Cs", h=1e-5, fixed=True)
    add("gaussian_gw", lambda d: ot.gaussian.gaussian_gromov_wasserstein_distance(d.Cs[0], d.Ct[0]), "", "", sym="Cs Ct", h=1e-4, fixed=True)
    # Gromov: the value as a function of its inputs at a locally unique plan
    g = dict(tol_rel=1e-14, tol_abs=1e-14, max_iter=2000)
    for lo in ("square_loss", "kl_loss"):
        add("gw2:" + lo, lambda d, lo=lo: G.gromov_wasserstein2(d.C1, d.C2, d.a, d.b, lo, **g), "", "a b", bk="tf", sym="C1 C2", exact=True, tol=1e-4, isolated=True)
        add("fgw2:" + lo, lambda d, lo=lo: G.fused_gromov_wasserstein2(d.M, d.C1, d.C2, d.a, d.b, lo, alpha=0.4, **g), "M", "a b", bk="tf", sym="C1 C2", exact=True, tol=1e-4, isolated=True)
        add("srfgw2:" + lo, lambda d, lo=lo: G.semirelaxed_fused_gromov_wasserstein2(d.M, d.C1, d.C2, d.a, lo, alpha=0.4, **g), "M", "", bk="tf", sym="C1 C2", exact=True, tol=1e-4, isolated=True)
    add("fgw2:alpha", lambda d: G.fused_gromov_wasserstein2(d.M, d.C1, d.C2, d.a, d.b, "square_loss", alpha=d.al, **g), "al M", "", bk="t", sym="", exact=True, tol=1e-4, isolated=True)
    add("solve_gromov:gw", lambda d: ot.solve_gromov(d.C1, d.C2, None, d.a, d.b, tol=1e-14).value, "", "a b", bk="tf", sym="C1 C2", exact=True, tol=1e-4, isolated=True)
    add("solve_gromov:fgw", lambda d: ot.solve_gromov(d.C1, d.C2, d.M, d.a, d.b, alpha=0.4, tol=1e-14).value, "M", "a b", bk="tf", sym="C1 C2", exact=True, tol=1e-4, isolated=True)
    add("coot2", lambda d: ot.coot.co_optimal_transport2(d.xg, d.X4, nits_bcd=50), "xg X4", "", bk="t", exact=True, isolated=True)
    # partial
    add("partial2", lambda d: ot.partial.partial_wasserstein2(d.a, d.b, d.M, 0.6), "M", "", bk="tf", exact=True)
    # utilities
    for mt in ("sqeuclidean", "euclidean", "cityblock", "cosine", "minkowski"):
        add("dist:" + mt, lambda d, mt=mt: total((ot.dist(d.x3, d.y3, metric=mt) * d.M2)), "x3 y3", "", bk="tf")
    add("dist:self", lambda d: total((ot.dist(d.x3) * d.Mnn)), "x3", "", bk="tf")
    add("kernel", lambda d: total((ot.utils.kernel(d.x, d.y, sigma=0.7) * d.M2)), "x y", "", bk="tf")
    add("proj_simplex", lambda d: total((ot.utils.proj_simplex(d.x) * d.x3[:, :2])), "x", "", bk="t")
    add("solve_batch", lambda d: total(ot.batch.solve_batch(d.Mb, R, d.ab, d.bb, max_iter=300, tol=1e-14, reg_type="entropy", grad="envelope").value), "Mb", "", bk="t")
    return F


class D:
    def __init__(self, raw, conv):
        for k, v in raw.items():
            setattr(self, k, conv(v))


def raw_data(n, m, v):
    s = 10 * v
    sp = lambda k: np.stack([spd(2, i + s + k) for i in range(4)])
    return dict(
        a=I.weights("lcg", n, 1 + s), b=I.weights("lcg", m, 2 + s), a2=1.7 * I.weights("lcg", n, 5 + s), b2=0.6 * I.weights("lcg", m, 6 + s) if v != 9 else None,
        M=I.cost("lcg", n, m, 3 + s), M2=I.cost("lcg", n, m, 8 + s), Mn=((np.arange(n)[:, None] - np.arange(n)[None]) / n) ** 2 + 0.0, Mnn=I.cost("lcg", n, n, 4 + s),
        x=I.points("lcg", n, 2, 1 + s), y=I.points("lcg", m, 2, 4 + s) + 0.3, x3=I.points("lcg", n, 3, 2 + s), y3=I.points("lcg", m, 3, 6 + s) + 0.1,
        xg=I.points("signed", n + 3, 3, 7 + s), yg=I.points("signed", m + 3, 3, 8 + s), X4=I.points("signed", m + 1, 3, 9 + s),
        u=I.points("lcg", n, 1, 1 + s)[:, 0], v=I.points("lcg", m, 1, 4 + s)[:, 0], P=(lambda z: z / np.linalg.norm(z, axis=0))(I.points("lcg", 5, 2, 11).T - 0.5),
        A=np.stack([I.weights("lcg", n, k + s) for k in (1, 4, 7)], 1), B=np.stack([I.weights("lcg", m, k + s) for k in (1, 4, 7)], 1), lam=np.array([0.5, 0.2, 0.3]), lam2=np.array([0.4, 0.6]),
        ms=I.points("signed", 3, 2, 2 + s), mt=I.points("signed", 4, 2, 3 + s), Cs=sp(1)[:3], Ct=sp(5), w3=I.weights("lcg", 3, 4 + s), w4=I.weights("lcg", 4, 5 + s),
        C1=structure(n, 1 + s) + 0.2, C2=structure(m, 5 + s) + 0.2, T=np.outer(I.weights("lcg", n, 1 + s), I.weights("lcg", m, 2 + s)), al=np.array(0.4),
        Mb=np.stack([I.cost("lcg", n, m, 3 + k + s) for k in range(2)]), ab=np.stack([I.weights("lcg", n, 1 + k + s) for k in range(2)]), bb=np.stack([I.weights("lcg", m, 2 + k + s) for k in range(2)]))


SHAPES = [(3, 4), (4, 3), (3, 3), (1, 1), (1, 3), (4, 1), (5, 6)]


def gen(ctx):
    F or table()
    name = ctx.choose("loss", sorted(k for k in F if F[k]["bk"]))
    ctx.choose("bk", ["torch", "tf"])
    sp = F[name]
    if ("t" if ctx.case["bk"] == "torch" else "f") not in sp["bk"]:
        ctx.prune()
    args = sp["free"] + sp["simplex"] + sp.get("sym", "").split()
    subs = [s for r in range(1, len(args) + 1) for s in itertools.combinations(args, r)]
    full = [x for x in subs if len(x) == len(args)] + [x for x in subs if len(x) < len(args)]
    ctx.dev("subset", full)
    ctx.dev("shape", SHAPES if not sp.get("fixed") else SHAPES[:1])
    ctx.dev("var", [0, 1, 2])
    ctx.dev("scale", [1.0, -3.0])
    ctx.dev("f32", [False, True])


def gradient(sp, name, bk, raw, subset, scale, f32=False):
    dt = np.float32 if f32 else float
    out = {}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if bk == "torch":
            import torch
            d = D(raw, lambda z: torch.tensor(np.asarray(z, dt)))
            for k in subset:
                setattr(d, k, getattr(d, k).clone().requires_grad_(True))
            val = sp["f"](d) * scale
            val.backward()
            for k in subset:
                g = getattr(d, k).grad
                out[k] = None if g is None else g.detach().numpy()
            return float(val.detach()), out
        backend("tf")
        import tensorflow as tf
        d = D(raw, lambda z: tf.constant(np.asarray(z, dt)))
        with tf.GradientTape() as tape:
            for k in subset:
                tape.watch(getattr(d, k))
            val = sp["f"](d) * scale
        gs = tape.gradient(val, [getattr(d, k) for k in subset])
        for k, g in zip(subset, gs):
            out[k] = None if g is None else np.asarray(tf.convert_to_tensor(g))
        return float(val), out


def value(sp, raw, base=None):
    if base is not None and "ref" in sp:
        return sp["ref"](D(raw, lambda z: np.asarray(z, float)), D(base, lambda z: np.asarray(z, float)))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return float(np.asarray(sp["f"](D(raw, lambda z: np.asarray(z, float).copy()))).reshape(()))


def directions(kind, x):
    """All coordinate directions of the space that the argument lives in."""
    if kind == "free":
        for i in np.ndindex(x.shape):
            e = np.zeros_like(x)
            e[i] = 1
            yield e
    elif kind == "sym":  # symmetric matrices (stacked)
        n = x.shape[-1]
        for lead in np.ndindex(x.shape[:-2]):
            for i in range(n):
                for j in range(i + 1):
                    e = np.zeros_like(x)
                    e[lead + (i, j)] = e[lead + (j, i)] = 1
                    yield e
    else:  # weights: mass moved between neighbouring bins (per column)
        for i in range(x.shape[0] - 1):
            for c in np.ndindex(x.shape[1:]):
                e = np.zeros_like(x)
                e[(i,) + c], e[(i + 1,) + c] = 1, -1
                yield e


def run(case):
    sp = F[case["loss"]]
    n, m = case["shape"]
    raw = raw_data(n, m, case["var"])
    name, sub, sc = case["loss"], case["subset"], case["scale"]
    if name in ("emd2:unnormalised",):
        raw["b2"] = raw["b2"] / raw["b2"].sum() * raw["a2"].sum()
    if "multi" in name and name.startswith("wasserstein_1d") and n != m or min(n, m) == 1 and name in ("dist:correlation", "proj_simplex") or name == "dmmot" and n == 1:
        return "n/a"
    if case["f32"] and (sp.get("isolated") or name.startswith("solve:u") or "coot" in name):
        return "n/a"
    val, gr = gradient(sp, name, case["bk"], raw, sub, sc, case["f32"])
    ref = value(sp, raw)
    big = max(1.0, abs(ref))
    at = value(sp, raw, raw)
    tag = name
    if not abs(val - sc * ref) <= (2e-3 if case["f32"] else 1e-6) * big * abs(sc):
        raise Fail("value:" + tag, "value %r with %s gradients, %r without" % (val, case["bk"], sc * ref))
    checked = 0
    for k in sub:
        kind = "free" if k in sp["free"] else "simplex" if k in sp["simplex"] else "sym"
        x = np.asarray(raw[k], float)
        g = gr[k]
        dirs = list(directions(kind, x))
        if g is None:
            if not dirs:
                continue
            g = np.zeros_like(x)
            none = True
        else:
            none = False
        if g.shape != x.shape:
            raise Fail("shape:%s:%s" % (tag, k), "gradient of shape %r for %r" % (g.shape, x.shape))
        if not none and ("32" in str(g.dtype)) != case["f32"]:
            raise Fail("dtype:%s:%s" % (tag, k), "gradient of type %s" % g.dtype)
        if not np.isfinite(g).all():
            raise Fail("finite:%s:%s" % (tag, k), "gradient %s" % g.tolist())
        h = sp["h"]
        for e in dirs:
            fd = []
            for hh in (h, h / 2):
                v = []
                for s in (1, -1):
                    r = dict(raw)
                    r[k] = x + s * hh * e
                    v.append(value(sp, r, raw))
                fd.append(((v[0] - v[1]) / (2 * hh), v))
            q = sc * fd[1][0]
            # a kink of an exact loss: the one-sided derivatives differ; the gradient lies between them
            lo, hi = sorted((sc * (fd[1][1][0] - at) / (h / 2), -sc * (fd[1][1][1] - at) / (h / 2)))
            got = float((g * e).sum())
            t = (2e-2 if case["f32"] else sp["tol"]) * max(1.0, abs(q)) * max(1, abs(sc))
            if sp.get("isolated") and abs(fd[0][0] - fd[1][0]) * abs(sc) > t:
                continue  # another local optimum is reached
            if not lo - t <= got <= hi + t and not abs(got - q) <= t:
                raise Fail("gradient:%s:%s" % (tag, k), "derivative %r along %s, difference quotient %r%s" % (got, np.argwhere(e).tolist(), q, " (no gradient at all)" if none else ""))
            checked += 1
    return {"inner": checked, "states": checked, "transitions": 4 * checked, "outcome": "ok"}


def scopes(tier):
    F or table()
    return [Scope("losses", gen, run, dev=1, thorough_dev=2, doc="every coordinate of every gradient against central differences, for every subset of differentiable arguments")]
