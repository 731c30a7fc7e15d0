"""C14: Gromov-Wasserstein and fused GW: couplings, values, stationarity, gradients, barycenter updates."""
BACKENDS = ("torch", "jax", "tf")
OMP = 1
import warnings

import numpy as np
import ot
import ot.backend as B
from ot.gromov import (fgw_barycenters, fused_gromov_wasserstein, fused_gromov_wasserstein2, gromov_barycenters,
                       gromov_wasserstein, gromov_wasserstein2)

from mc import instances as I
from mc import oracle
from mc.engine import Fail, Scope

ASSUMPTIONS = ("a converged call is one that stops before its iteration budget",)


# ---- reference model: the definition, by explicit fourth-order tensors
def tensor(C1, C2, loss):
    A, D = C1[:, None, :, None], C2[None, :, None, :]
    if loss == "square_loss":
        return (A - D) ** 2
    with np.errstate(all="ignore"):
        return np.where(A > 0, A * np.log(np.where(A > 0, A, 1) / np.maximum(D, 1e-18)), 0) - A + D


def quad(L, T):
    return np.einsum("ijkl,ij,kl->", L, T, T)


def qgrad(L, T):
    return np.einsum("ijkl,kl->ij", L, T) + np.einsum("klij,kl->ij", L, T)


def structure(kind, n, s):
    x = I.points("lcg", n, 2, s)
    D = np.sqrt(((x[:, None] - x[None]) ** 2).sum(-1))
    if kind == "dist":
        return D
    if kind == "asym":
        return D + 0.5 * I.cost("lcg", n, n, s + 3)
    if kind == "signed":
        return I.cost("lcg", n, n, s) - I.cost("lcg", n, n, s).T + D - 0.3
    if kind == "graph":
        k = np.arange(n)
        return ((np.abs(k[:, None] - k[None]) % max(n - 1, 1)) == 1).astype(float)
    if kind == "pos":
        return 0.2 + D
    if kind == "posasym":
        return 0.2 + D + 0.5 * I.cost("lcg", n, n, s + 3)
    if kind == "zero":
        return np.zeros((n, n))
    raise KeyError(kind)


def backend(arr):
    if arr.startswith("torch"):
        return B.TorchBackend()
    if arr == "jax":
        import jax
        jax.config.update("jax_enable_x64", True)
        return B.JaxBackend()
    if arr == "tf":
        from tensorflow.python.ops.numpy_ops import np_config
        np_config.enable_numpy_behavior()
        return B.TensorflowBackend()
    return B.NumpyBackend()


def conv(arr):
    nx = backend(arr)
    if arr in I.LAYOUTS:
        return lambda z: I.layout(z, arr) if (arr != "F" or z.ndim == 2) else z
    return lambda z: nx.from_numpy(np.asarray(z, np.float32 if arr == "torch32" else float))


def num(nx, z):
    return np.asarray(nx.to_numpy(nx.detach(z) if not isinstance(z, (float, int, np.ndarray, np.generic)) else np.asarray(z)) if not isinstance(z, (float, int, np.ndarray, np.generic)) else z, float)


def gen(ctx):
    ctx.choose("loss", ["square_loss", "kl_loss"])
    ctx.choose("alpha", [None, 0.0, 0.4, 1.0])
    ctx.choose("kind", ["dist", "asym", "signed", "graph", "pos", "posasym", "zero"])
    if ctx.case["loss"] == "kl_loss" and ctx.case["kind"] in ("signed", "dist"):
        ctx.prune()
    ctx.dev("shape", [(3, 4), (4, 3), (1, 1), (1, 3), (4, 1), (12, 11), (5, 5)])
    ctx.dev("w", [("lcg", "lcg"), ("none", "none"), ("none", "lcg"), ("zeros", "lcg"), ("lcg", "zeros"), ("zeros", "zeros"), ("spiky", "uniform")])
    ctx.dev("arr", ["C", "F", "strided", "torch", "jax", "tf", "torch32"])
    ctx.dev("armijo", [False, True])
    ctx.dev("G0", ["none", "vertex", "mix"])
    ctx.dev("sym", [None, "given"])
    ctx.dev("M", ["lcg", "neg", "ties", "big"])
    ctx.dev("mass", [1.0, 2.5])
    if ctx.case["alpha"] is None and ctx.case["M"] != "lcg":
        ctx.prune()


def run(case):
    n, m = case["shape"]
    loss, al, arr = case["loss"], case["alpha"], case["arr"]
    p, q = [np.ones(k) / k if w == "none" else I.weights(w, k, s) for w, k, s in zip(case["w"], (n, m), (1, 2))]
    if "none" not in case["w"]:
        p, q = p * case["mass"], q * case["mass"]
    C1, C2, M = structure(case["kind"], n, 1), structure(case["kind"], m, 5), I.cost(case["M"], n, m, 3)
    nx, cv = backend(arr), conv(arr)
    f32 = arr == "torch32"
    kw = dict(loss_fun=loss, armijo=case["armijo"], max_iter=600, tol_rel=1e-14, tol_abs=1e-14)
    if f32:
        kw.update(tol_rel=1e-7, tol_abs=1e-7)
    if case["sym"]:
        kw["symmetric"] = bool(np.allclose(C1, C1.T) and np.allclose(C2, C2.T))
    G0 = np.outer(p, q) / p.sum()
    if case["G0"] != "none":
        V = ot.emd(p, q, np.arange(n)[:, None] * np.arange(m)[None, :] * 1.0)
        G0 = V if case["G0"] == "vertex" else 0.5 * V + 0.5 * G0
        kw["G0"] = cv(G0)
    a = [None if w == "none" else cv(z) for w, z in zip(case["w"], (p, q))]
    tag = "%s:%s" % ("gw" if al is None else "fgw", loss)
    with warnings.catch_warnings(record=True) as wn:
        warnings.simplefilter("always")
        if al is None:
            args = [cv(C1), cv(C2)] + a
            T, lg = gromov_wasserstein(*args, log=True, **kw)
            T1 = gromov_wasserstein(*args, **kw)
            v, lg2 = gromov_wasserstein2(*args, log=True, **kw)
            v1 = gromov_wasserstein2(*args, **kw)
            key = "gw_dist"
        else:
            args = [cv(M), cv(C1), cv(C2)] + a
            T, lg = fused_gromov_wasserstein(*args, log=True, alpha=al, **kw)
            T1 = fused_gromov_wasserstein(*args, alpha=al, **kw)
            v, lg2 = fused_gromov_wasserstein2(*args, log=True, alpha=al, **kw)
            v1 = fused_gromov_wasserstein2(*args, alpha=al, **kw)
            key = "fgw_dist"
    bad = [str(w.message) for w in wn if issubclass(w.category, (RuntimeWarning, UserWarning)) and "ops" not in str(w.message)]
    if f32 and "float32" not in str(T.dtype):
        raise Fail("dtype:" + tag, "plan of type %s" % T.dtype)
    G, val = num(nx, T), float(num(nx, v))
    if bad and not f32:
        raise Fail("warned:" + tag, "%s" % bad[:2])
    e = 2e-5 if f32 else 1e-9
    oracle.check_coupling(Fail, "plan:" + tag, G, p, q, e)
    if not np.array_equal(num(nx, T1), G) or not np.array_equal(num(nx, lg2["T"]), G):
        raise Fail("agree:" + tag, "the plan depends on log or on the function called")
    L = tensor(C1, C2, loss)
    lin, w2 = (0.0, 1.0) if al is None else ((1 - al) * M, al)
    obj = lambda P: float(np.sum(lin * P) + w2 * quad(L, P))
    sc = max(1.0, np.abs(L).max() * w2, np.abs(lin).max()) * case["mass"] ** 2
    tol = (1e-4 if f32 else 1e-8) * sc
    for x in (val, float(num(nx, v1)), float(num(nx, lg[key])), float(num(nx, lg2[key])), float(lg["loss"][-1])):
        if not abs(x - obj(G)) <= tol:
            raise Fail("value:" + tag, "value %r, objective of the plan %r" % (x, obj(G)))
    if al is not None:
        ll, lq = float(num(nx, lg2["lin_loss"])), float(num(nx, lg2["quad_loss"]))
        if abs(ll - np.sum(lin * G)) > tol or abs(lq - al * quad(L, G)) > tol:
            raise Fail("parts:" + tag, "lin_loss %r quad_loss %r" % (ll, lq))
    if obj(G) > obj(G0) + tol:
        raise Fail("ascent:" + tag, "objective %r above %r at the initial plan" % (obj(G), obj(G0)))
    ls = np.array([float(x) for x in lg["loss"]])
    if np.diff(ls).max(initial=0) > tol:
        raise Fail("monotone:" + tag, "losses %r" % ls.tolist())
    grad = lin + w2 * qgrad(L, G)
    gap = float(np.sum(grad * G) - oracle.transport_lp(p, q, grad)) if np.abs(grad).max() > 0 else 0.0
    conv_ = len(ls) - 1 < kw["max_iter"]
    # a decrease below tol_rel stops the iterations: bound on the Frank-Wolfe gap it leaves
    lim = (3e-2 if f32 else 1e-4) * sc if conv_ else 3e-2 * sc
    if case["armijo"]:
        lim = max(lim, 2e-2 * sc)
    if gap > lim:
        raise Fail("stationary:" + tag, "a linear step improves by %g after %d iterations" % (gap, len(ls) - 1))
    u, w = num(nx, lg["u"]), num(nx, lg["v"])
    if u.shape != (n,) or w.shape != (m,):
        raise Fail("duals:" + tag, "shapes %r %r" % (u.shape, w.shape))
    if conv_:
        sup_a, sup_b = p > 0, q > 0
        sl = (grad - u[:, None] - w[None])[np.ix_(sup_a, sup_b)]
        pos = G[np.ix_(sup_a, sup_b)]
        if sl.min() < -20 * np.sqrt(lim) * sc or abs((sl * pos).sum() - gap) > 1e-2 * sc and not case["armijo"]:
            raise Fail("duals:" + tag, "slack %g, complementary slackness %g" % (sl.min(), (sl * pos).sum()))
    return round(obj(G), 6)


# ---- gradients of the values
def gen_grad(ctx):
    ctx.choose("loss", ["square_loss", "kl_loss"])
    ctx.choose("alpha", [None, 0.0, 0.4, 1.0, "tensor", "tensor0"])
    ctx.choose("kind", ["pos", "posasym"])
    ctx.choose("arr", ["torch", "tf"])
    ctx.dev("shape", [(3, 4), (4, 3), (1, 3), (6, 5)])
    ctx.dev("w", [("lcg", "lcg"), ("zeros", "lcg"), ("lcg", "zeros")])
    ctx.dev("which", ["all", "C1", "M"])


def run_grad(case):
    n, m = case["shape"]
    loss, al, arr = case["loss"], case["alpha"], case["arr"]
    if case["which"] == "M" and al is None:
        return "n/a"
    p, q = [I.weights(w, k, s) for w, k, s in zip(case["w"], (n, m), (1, 2))]
    C1, C2, M = structure(case["kind"], n, 1), structure(case["kind"], m, 5), I.cost("lcg", n, m, 3)
    vals = dict(p=p, q=q, C1=C1, C2=C2)
    if al is not None:
        vals["M"] = M
    alv = {"tensor": 0.3, "tensor0": 0.0}.get(al, al)
    if al in ("tensor", "tensor0"):
        vals["alpha"] = np.array(alv)
    names = list(vals) if case["which"] == "all" else [case["which"]]
    kw = dict(loss_fun=loss, max_iter=500, tol_rel=1e-14, tol_abs=1e-14)

    def f(d):
        if al is None:
            return gromov_wasserstein2(d["C1"], d["C2"], d["p"], d["q"], **kw)
        return fused_gromov_wasserstein2(d["M"], d["C1"], d["C2"], d["p"], d["q"], alpha=d.get("alpha", al), **kw)

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if arr == "torch":
            import torch
            d = {k: torch.tensor(x, requires_grad=k in names) for k, x in vals.items()}
            f(d).backward()
            g = {k: d[k].grad.numpy() for k in names}
        else:
            import tensorflow as tf
            backend("tf")
            d = {k: tf.constant(x) for k, x in vals.items()}
            with tf.GradientTape() as t:
                for k in names:
                    t.watch(d[k])
                v = f(d)
            g = {k: x.numpy() for k, x in zip(names, t.gradient(v, [d[k] for k in names]))}
    if al is None:
        T = gromov_wasserstein(C1, C2, p, q, **kw)
    else:
        T = fused_gromov_wasserstein(M, C1, C2, p, q, alpha=alv, **kw)
    L = tensor(C1, C2, loss)
    w2 = 1.0 if al is None else alv
    want = {}
    if loss == "square_loss":
        D1 = 2 * (C1[:, None, :, None] - C2[None, :, None, :])
        D2 = -D1
    else:
        D1 = np.log(C1[:, None, :, None]) - np.log(C2[None, :, None, :])
        D2 = 1 - C1[:, None, :, None] / C2[None, :, None, :]
    want["C1"] = w2 * np.einsum("ijkl,ij,kl->ik", D1, T, T)
    want["C2"] = w2 * np.einsum("ijkl,ij,kl->jl", D2, T, T)
    if al is not None:
        want["M"] = (1 - alv) * T
        want["alpha"] = quad(L, T) - np.sum(T * M)
    tag = "%s:%s" % ("gw" if al is None else "fgw", loss)
    for k in names:
        if k in want and not np.abs(g[k] - want[k]).max() <= 1e-6:
            raise Fail("grad:%s:%s" % (k, tag), "%r expected %r" % (g[k].tolist(), np.asarray(want[k]).tolist()))
    if "p" in names:
        grad = (0 if al is None else (1 - alv) * M) + w2 * qgrad(L, T)
        S = np.ix_(p > 0, q > 0)
        sl = (grad - g["p"][:, None] - g["q"][None])[S]
        sl = sl - sl.min()
        if not (sl * T[S]).sum() <= 1e-3:
            raise Fail("grad:weights:" + tag, "the weight gradients are no optimal duals (%g)" % (sl * T[S]).sum())
    return "ok"


# ---- barycenters
def gen_bary(ctx):
    ctx.choose("fused", [False, True])
    ctx.choose("loss", ["square_loss", "kl_loss"])
    ctx.choose("crit", ["barycenter", "loss"])
    ctx.choose("kind", ["dist", "pos", "posasym"])
    if ctx.case["loss"] == "kl_loss" and ctx.case["kind"] == "dist":
        ctx.prune()
    ctx.dev("fix", ["none", "structure", "features"])
    ctx.dev("N", [3, 1, 5])
    ctx.dev("lam", ["none", "half", "skew", "one"])
    ctx.dev("w", ["given", "none", "bary"])
    ctx.dev("arr", ["C", "F", "torch", "jax"])
    ctx.dev("warm", [False, True])
    ctx.dev("armijo", [False, True])
    ctx.dev("alpha", [0.5, 0.1, 1.0])
    if not ctx.case["fused"] and (ctx.case["fix"] != "none" or ctx.case["alpha"] != 0.5):
        ctx.prune()


def run_bary(case):
    sizes, N, arr, fused, loss = (4, 3), case["N"], case["arr"], case["fused"], case["loss"]
    S = len(sizes)
    nx, cv = backend(arr), conv(arr)
    Cs = [structure(case["kind"], k, s + 1) for s, k in enumerate(sizes)]
    Ys = [I.points("signed", k, 2, s + 7) for s, k in enumerate(sizes)]
    lam = {"none": None, "half": [0.5, 0.5], "skew": [0.8, 0.2], "one": [1.0, 0.0]}[case["lam"]]
    lm = np.array(lam or [1 / S] * S)
    p = I.weights("lcg", N, 3) if case["w"] != "none" else np.ones(N) / N
    ps = [I.weights("ramp", k) if case["w"] == "given" else np.ones(k) / k for k in sizes]
    C0, X0 = structure("posasym" if case["kind"] == "posasym" else "pos", N, 9), I.points("lcg", N, 2, 3)
    sym = case["kind"] != "posasym"
    kw = dict(symmetric=sym, loss_fun=loss, armijo=case["armijo"], stop_criterion=case["crit"], log=True, lambdas=lam)
    kw["ps"] = [cv(x) for x in ps] if case["w"] == "given" else None
    kw["p"] = cv(p) if case["w"] != "none" else None
    tag = "%s:%s" % ("fgw" if fused else "gw", loss)
    fixS, fixF = case["fix"] == "structure", case["fix"] == "features"
    if fused:
        kw.update(alpha=case["alpha"], fixed_structure=fixS, fixed_features=fixF)

    def call(C, X, **o):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if fused:
                Xo, Co, lg = fgw_barycenters(N, [cv(y) for y in Ys], [cv(c) for c in Cs], init_C=cv(C), init_X=cv(X), **{**kw, **o})
                return num(nx, Co), num(nx, Xo), lg
            Co, lg = gromov_barycenters(N, [cv(c) for c in Cs], init_C=cv(C), **{**kw, **o})
            return num(nx, Co), X, lg

    def update(T, C, X):
        pp = np.outer(p, p)
        f = (lambda c: c) if loss == "square_loss" else (lambda c: np.log(np.maximum(c, 1e-16)))
        Cn = sum(l * t @ f(c) @ t.T for l, t, c in zip(lm, T, Cs)) / pp
        Cn = Cn if loss == "square_loss" else np.exp(Cn)
        Xn = sum(l * t @ y for l, t, y in zip(lm, T, Ys)) / p[:, None]
        return (C if fixS else Cn), (X if fixF or not fused else Xn)

    def objs(C, X, T):
        out = []
        for s in range(S):
            v = quad(tensor(C, Cs[s], loss), T[s])
            if fused:
                v = case["alpha"] * v + (1 - case["alpha"]) * np.sum(T[s] * ((X[:, None] - Ys[s][None]) ** 2).sum(-1))
            out.append(v)
        return np.array(out)

    # one round, stopped by a loose tolerance
    C, X, errs, tol, done = C0, X0, [], 1e-6, False
    for it in range(12):
        C1, X1, lg = call(C, X, tol=1e30)
        T = [num(nx, t) for t in lg["T"]]
        for s in range(S):
            oracle.check_coupling(Fail, "bary:plans:" + tag, T[s], p, ps[s], 1e-8)
            if it == 0:
                L = tensor(C, Cs[s], loss)
                M = ((X[:, None] - Ys[s][None]) ** 2).sum(-1)
                g = qgrad(L, T[s]) if not fused else case["alpha"] * qgrad(L, T[s]) + (1 - case["alpha"]) * M
                gap = np.sum(g * T[s]) - oracle.transport_lp(p, ps[s], g)
                if gap > 3e-2 * (1 + np.abs(g).max()):
                    raise Fail("bary:stationary:" + tag, "plan %d improves by %g" % (s, gap))
        Cw, Xw = update(T, C, X)
        if np.abs(C1 - Cw).max() > 1e-8 or np.abs(X1 - Xw).max() > 1e-8:
            raise Fail("bary:update:" + tag, "returned %r %r, update of the plans %r %r" % (C1.tolist(), X1.tolist(), Cw.tolist(), Xw.tolist()))
        if case["crit"] == "barycenter":
            e = (np.linalg.norm(X1 - X) if fused and not fixF else 0.0, np.linalg.norm(C1 - C) if not fixS else 0.0)
            got = (lg["err_feature"], lg["err_structure"]) if fused else ([], lg["err"])
            if len(got[1]) != 1 or abs(float(num(nx, got[1][0])) - e[1]) > 1e-8:
                raise Fail("bary:err:" + tag, "errors %r expected %r" % (got, e))
            done = max(e) <= tol
        else:
            # the objective that is alternately minimised weights each term
            v = float((lm * objs(C, X, T)).sum())
            if abs(float(num(nx, lg["loss"][0])) - v) > 1e-6 * (1 + abs(v)):
                raise Fail("bary:loss:" + tag, "loss %r, objective of the barycenter problem %r" % (lg["loss"], v))
            done = bool(errs) and abs(v - errs[-1]) <= tol * errs[-1]
            errs.append(v)
        C, X = C1, X1
        if done:
            break
    # the whole run is the composition of rounds, with the same stopping rule
    if done and not case["warm"]:
        C2, X2, lg = call(C0, X0, tol=tol)
        if np.abs(C2 - C).max() > 1e-6 or np.abs(X2 - X).max() > 1e-6:
            raise Fail("bary:stop:" + tag, "a run with tol=%g stops elsewhere than the rounds (%d rounds, %s)" % (tol, it + 1, {k: len(v) for k, v in lg.items() if "err" in k}))
    if case["warm"]:
        # warm-started rounds with exact updates decrease the objective
        C2, X2, lg = call(C0, X0, tol=1e-9, warmstartT=True, max_iter=300)
        T = [num(nx, t) for t in lg["T"]]
        Cw, Xw = update(T, C0, X0)
        if np.abs(C2 - Cw).max() > 1e-8 or np.abs(X2 - Xw).max() > 1e-8:
            raise Fail("bary:update-warm:" + tag, "not the update of the last plans")
        if case["crit"] == "loss":
            l = np.array([float(num(nx, x)) for x in lg["loss"]])
            if np.diff(l).max(initial=0) > 1e-7 * (1 + l[0]):
                raise Fail("bary:monotone:" + tag, "losses %r" % l.tolist())
    return "%d rounds" % (it + 1)


def gen_seed(ctx):
    ctx.choose("fused", [False, True])
    ctx.choose("state", [0, 5, "gen"])
    ctx.choose("N", [2, 4])


def run_seed(case):
    Cs = [structure("dist", k, k) for k in (3, 4)]
    Ys = [I.points("lcg", k, 2, k) for k in (3, 4)]
    out = []
    st = np.random.get_state()[1].copy()
    for _ in range(2):
        rs = np.random.RandomState(3) if case["state"] == "gen" else case["state"]
        if case["fused"]:
            out.append(fgw_barycenters(case["N"], Ys, Cs, random_state=rs)[1])
        else:
            out.append(gromov_barycenters(case["N"], Cs, random_state=rs))
    if not np.array_equal(out[0], out[1]):
        raise Fail("bary:seed", "two runs with the same random_state differ")
    if not np.array_equal(st, np.random.get_state()[1]):
        raise Fail("bary:global-rng", "the global generator was advanced")
    return "ok"


def scopes(tier):
    d = 1 if tier == "quick" else 2
    return [
        Scope("plans", gen, run, dev=1, thorough_dev=2, doc="loss x alpha x structures x options: coupling, value, Frank-Wolfe gap, duals"),
        Scope("gradients", gen_grad, run_grad, dev=2, thorough_dev=2),
        Scope("barycenters", gen_bary, run_bary, dev=1, thorough_dev=2),
        Scope("seed", gen_seed, run_seed),
    ]
