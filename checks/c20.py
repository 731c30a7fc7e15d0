"""C20: domain adaptation solvers and transport estimators: couplings, maps in both directions, labels, and every history of an estimator."""
BACKENDS = ("torch", "jax")
OMP = 1
import copy
import itertools
import warnings

import numpy as np
import ot
import ot.da as da
from scipy.spatial.distance import cdist

from checks.c14 import backend, conv, num
from checks.c15 import call
from mc import instances as I
from mc import oracle
from mc.engine import Fail, Scope

ASSUMPTIONS = ("numpy, torch and jax backends; estimators reject tensorflow",)


def est_w(kind, nx):
    """Distribution estimation functions handed to the estimators, with the weights they produce."""
    if kind == "uniform":
        return da.distribution_estimation_uniform, lambda n: np.ones(n) / n
    return (lambda X: nx.from_numpy(I.weights(kind, X.shape[0], 2), type_as=X)), lambda n: I.weights(kind, n, 2)


def reference_cost(X, Y, metric, norm):
    """The normalised cost between X and Y and the normalisation it uses."""
    C = cdist(X, Y, metric)
    v = None
    if norm == "median":
        s = np.sort(C.ravel())
        v = (np.median(s), s[(len(s) - 1) // 2])  # torch takes the lower median
    elif norm == "max":
        v = (C.max(),)
    return C, v


def normalised(C, norm, v=None):
    return C if norm is None else C / v if norm in ("median", "max") else np.log1p(C) if norm == "log" else np.log1p(np.log1p(C))


def sq(Z):
    w, U = np.linalg.eigh(Z)
    return (U * np.sqrt(np.maximum(w, 0))) @ U.T


KINDS = ["emd", "sinkhorn", "sinkhorn-ferradans", "lpl1", "l1l2", "laplace", "laplace-gauss", "laplace-disp", "unbalanced", "unbalanced-log"]


def make(kind, de, **k):
    c = dict(distribution_estimation=de)
    c.update(k)
    if kind == "emd":
        return da.EMDTransport(**c)
    if kind == "sinkhorn":
        return da.SinkhornTransport(reg_e=0.5, max_iter=5000, tol=1e-13, **c)
    if kind == "sinkhorn-ferradans":
        return da.SinkhornTransport(reg_e=0.7, out_of_sample_map="ferradans", method="sinkhorn", max_iter=5000, tol=1e-13, **c)
    if kind == "lpl1":
        return da.SinkhornLpl1Transport(reg_e=0.8, reg_cl=0.3, max_iter=5, max_inner_iter=3000, tol=1e-13, **c)
    if kind == "l1l2":
        return da.SinkhornL1l2Transport(reg_e=0.8, reg_cl=0.3, max_iter=6, max_inner_iter=500, tol=1e-11, **c)
    if kind.startswith("laplace"):
        sim = dict(similarity="gauss", similarity_param=0.7) if kind == "laplace-gauss" else dict(similarity="knn", similarity_param=2)
        return da.EMDLaplaceTransport(reg_lap=0.6, reg_src=0.3, max_iter=40, tol=1e-11, inner_tol=1e-12, reg_type="disp" if kind == "laplace-disp" else "pos", **sim, **c)
    return da.UnbalancedSinkhornTransport(reg_e=0.4, reg_m=0.8, max_iter=300, tol=1e-12, method="sinkhorn_stabilized" if kind == "unbalanced-log" else "sinkhorn", **c)


def direct(kind, mu, ys, nu, C, Xs, Xt):
    """The coupling of the problem the estimator documents, from the solver (numpy)."""
    if kind == "emd":
        return ot.emd(mu, nu, C)
    if kind.startswith("sinkhorn"):
        return oracle.sinkhorn_ref(mu, nu, C, 0.5 if kind == "sinkhorn" else 0.7)
    if kind == "lpl1":
        return lpl1(mu, ys, nu, C, 0.8, 0.3, 5)
    if kind == "l1l2":
        return da.sinkhorn_l1l2_gl(mu, ys, nu, C, 0.8, 0.3, 6, 500, 1e-11)
    if kind.startswith("laplace"):
        sim, par = ("gauss", 0.7) if kind == "laplace-gauss" else ("knn", 2)
        return da.emd_laplace(mu, nu, Xs, Xt, C, sim, par, reg="disp" if kind == "laplace-disp" else "pos", eta=0.6, alpha=0.3, numItermax=40, stopThr=1e-11, stopInnerThr=1e-12)
    return ot.unbalanced.sinkhorn_unbalanced(mu, nu, C, 0.4, 0.8, numItermax=300, stopThr=1e-12, method="sinkhorn_stabilized" if kind == "unbalanced-log" else "sinkhorn")


def lpl1(a, ys, b, M, reg, eta, its):
    """Majorisation-minimisation for the group penalty sum_j sum_c (sum_{i in c} G_ij)^(1/2)."""
    W = np.zeros_like(M)
    for _ in range(its):
        G = oracle.sinkhorn_ref(a, b, M + eta * W, reg)
        for c in set(ys.tolist()):
            r = ys == c
            W[r] = 0.5 * (G[r].sum(0) + 1e-3) ** -0.5
    return G


def gen_t(ctx):
    ctx.choose("kind", KINDS)
    ctx.choose("w", ["uniform", "ramp", "zeros"])
    ctx.dev("shape", [(4, 5), (5, 4), (1, 1), (1, 4), (4, 1), (12, 13), (3, 3)])
    ctx.dev("d", [2, 1, 3])
    ctx.dev("norm", [None, "median", "max", "log", "loglog"])
    ctx.dev("metric", ["sqeuclidean", "euclidean", "cityblock"])
    ctx.dev("log", [False, True])
    ctx.dev("arr", ["C", "F", "strided", "torch", "jax", "torch32"])
    ctx.dev("pts", ["lcg", "signed", "dup", "grid", "far"])
    ctx.dev("labels", [(0, 1), (1, 2), (-3, 5), (0, 0), (0, 1, 2)])
    ctx.dev("batch", [128, 1, 2, 3])


def points(kind, n, d, s):
    if kind == "far":
        return 30.0 * I.points("signed", n, d, s) + (40 if s > 1 else 0)
    return I.points(kind, n, d, s)


def run_t(case):
    kind, (n, m), d, norm, metric, arr, bs = (case[k] for k in ("kind", "shape", "d", "norm", "metric", "arr", "batch"))
    nx, cv = backend(arr), conv(arr)
    f32 = arr == "torch32"
    if case["w"] == "zeros" and kind == "unbalanced-log":
        return "n/a"
    if kind.startswith("laplace") and min(n, m) < 3:
        return "n/a"
    if case["pts"] == "far" and (norm is None and kind not in ("emd", "sinkhorn") or f32):
        return "n/a"
    Xs, Xt, Xn = points(case["pts"], n, d, 1), points(case["pts"], m, d, 2), points(case["pts"], 5, d, 3)
    if case["pts"] in ("dup", "grid"):
        Xn = Xn + 0.13
    if case["pts"] == "grid":
        Xt = Xt + 0.37
    ys = np.array([case["labels"][i % len(case["labels"])] for i in range(n)])
    de, wf = est_w(case["w"], nx)
    mu, nu = wf(n), wf(m)
    C, vals = reference_cost(Xs, Xt, metric, norm)
    if norm in ("median", "max") and min(vals) <= 0:
        return "n/a"
    t = make(kind, de, metric=metric, norm=norm, log=case["log"])
    before = {k: v for k, v in t.get_params().items()}
    yarg = ys if arr in I.LAYOUTS else nx.from_numpy(ys)
    xs, xt, xn = cv(Xs), cv(Xt), cv(Xn)
    (r), bad = call(t.fit, Xs=xs, ys=yarg, Xt=xt)
    tag = kind
    if r is not t:
        raise Fail("fit:" + tag, "fit does not return the estimator")
    if t.get_params() != before:
        raise Fail("params:" + tag, "fit changed the parameters")
    e = 2e-4 if f32 else 1e-7
    N = lambda z: num(nx, z)
    if vals is None:
        v, ref = None, normalised(C, norm)
        errs = [np.abs(N(t.cost_) - ref).max()]
    else:
        errs = [np.abs(N(t.cost_) - normalised(C, norm, v)).max() for v in vals]
        v = vals[int(np.argmin(errs))]
        ref = normalised(C, norm, v)
    sc = max(1.0, np.abs(ref).max())
    if not min(errs) <= e * sc:
        raise Fail("cost:" + tag, "cost_ differs by %g from the normalised %s cost" % (min(errs), metric))
    if np.abs(N(t.mu_s) - mu).max() > 1e-6 or np.abs(N(t.mu_t) - nu).max() > 1e-6:
        raise Fail("weights:" + tag, "mu_s %r mu_t %r" % (N(t.mu_s).tolist(), N(t.mu_t).tolist()))
    G = N(t.coupling_)
    warned = any("converge" in x or "numItermax" in x for x in bad)
    if not warned:
        D = direct(kind, mu, ys, nu, ref, Xs, Xt)
        if kind == "emd" and (case["pts"] in ("dup", "grid") or f32 or metric == "cityblock"):
            er = max(abs(np.sum(ref * G) - np.sum(ref * D)) / sc, np.abs(G.sum(1) - mu).max(), np.abs(G.sum(0) - nu).max())
        else:
            er = np.abs(G - D).max()
        lim = 2e-2 if f32 and kind.startswith("laplace") else 1e-4 if f32 else 1e-6
        if not er <= (lim if not kind.startswith("laplace") or f32 else 1e-5):
            raise Fail("coupling:" + tag, "coupling_ differs by %g from the problem with its parameters" % er)
    if case["log"] and not isinstance(t.log_, dict):
        raise Fail("log:" + tag, "log_ is %r" % type(t.log_))
    if f32 and "32" not in str(t.coupling_.dtype):
        raise Fail("dtype:" + tag, "coupling of type %s" % t.coupling_.dtype)
    # maps in both directions
    cont = kind == "sinkhorn"
    et = 5e-3 if f32 else 1e-6
    ext = max(1.0, np.abs(Xs).max(), np.abs(Xt).max(), np.abs(Xn).max())
    if cont:
        lu, lv = N(t.log_["log_u"]), N(t.log_["log_v"])

    def expected(X, A, B, P, pot, train):
        if cont:
            K = -normalised(cdist(X, B, metric), norm, v) / 0.5 + pot[None]
            K = np.exp(K - K.max(1, keepdims=True))
            return K @ B / K.sum(1, keepdims=True)
        s = P.sum(1, keepdims=True)
        T = np.where(s > 0, P / np.where(s > 0, s, 1), 0) @ B
        if train:
            return T
        i = cdist(X, A, "sqeuclidean")
        return i, T

    for name, f, A, B, P, pot, a in (("transform", t.transform, Xs, Xt, G, lv if cont else None, xs), ("inverse", t.inverse_transform, Xt, Xs, G.T, lu if cont else None, xt)):
        arg = "Xs" if name == "transform" else "Xt"
        for what, X, Y in (("train", a, A), ("new", xn, Xn), ("part", a[1:], A[1:])):
            if not len(Y):
                continue
            with np.errstate(all="ignore"):
                (out), _ = call(f, **{arg: X, "batch_size": bs})
            o = N(out)
            train = what == "train"
            want = expected(Y, A, B, P, pot, train)
            if cont or train:
                er = np.abs(o - want).max() if o.shape == want.shape else np.inf
            else:
                D2, T = want  # nearest training point (any of the nearest ones) plus the offset to it
                er = 0.0
                if o.shape != (len(Y), B.shape[1]):
                    er = np.inf
                else:
                    for i in range(len(Y)):
                        near = np.nonzero(D2[i] <= D2[i].min() + 1e-5 * ext ** 2)[0]
                        x = np.abs(o[i] - (T[near] + Y[i] - A[near])).max(1).min()
                        er = max(er, x) if np.isfinite(x) else np.inf
            if not er <= et * ext:
                raise Fail("%s:%s:%s" % (name, what, "continuous" if cont else "barycentric"), "%s: %s of %s samples off by %g" % (kind, name, what, er))
            if bs == 128:
                for b2 in (1, 2, 3):
                    o2 = N(call(f, **{arg: X, "batch_size": b2})[0])
                    if o2.shape != o.shape or np.abs(o2 - o).max() > 1e-9 * ext + (1e-4 * ext if f32 else 0):
                        raise Fail("batch:" + name, "depends on the batch size (%d)" % b2)
    # labels
    yt = np.array([case["labels"][(i // 2) % len(case["labels"])] for i in range(m)])
    for name, f, y, P in (("labels", t.transform_labels, ys, G), ("inverse_labels", t.inverse_transform_labels, yt, G.T)):
        out = N(f(y if arr in I.LAYOUTS else nx.from_numpy(y)))
        s = P.sum(0)
        Z = np.where(s > 0, P / np.where(s > 0, s, 1), 0)
        want = np.stack([Z[y == c].sum(0) for c in sorted(set(y.tolist()))], 1)
        if out.shape != want.shape or not np.abs(out - want).max() <= (1e-4 if f32 else 1e-9):
            raise Fail("%s:%s" % (name, tag), "label probabilities differ: %s for %s" % (out.tolist(), want.tolist()))
    t2 = make(kind, de, metric=metric, norm=norm, log=not case["log"])
    o1 = call(t2.fit_transform, Xs=xs, ys=yarg, Xt=xt)[0]
    o2 = N(call(t.transform, Xs=xs)[0])
    if np.abs(N(t2.coupling_) - G).max() > 1e-12 or np.abs(N(o1) - o2).max() > 1e-9 * ext:
        raise Fail("fit_transform:" + tag, "fit_transform with the other log setting gives another coupling or map")
    return "ok" if not warned else "warned"


# ---- linear maps
def gen_l(ctx):
    ctx.choose("cls", ["linear", "gw"])
    ctx.choose("w", ["uniform", "ramp", "zeros"])
    ctx.choose("bias", [True, False])
    ctx.choose("d", [(2, 2), (1, 1), (3, 3), (2, 3), (3, 1)])
    ctx.dev("reg", [1e-8, 0.0, 0.1, 2.0])
    ctx.dev("signs", ["none", "skewness", "given"])
    ctx.dev("log", [False, True])
    ctx.dev("arr", ["C", "F", "strided", "torch", "jax", "torch32"])
    ctx.dev("pts", ["signed", "shifted"])
    c = ctx.case
    if c["cls"] == "linear" and (c["d"][0] != c["d"][1] or c["signs"] != "none") or c["cls"] == "gw" and (not c["bias"] or c["reg"] != 1e-8):
        ctx.prune()


def run_l(case):
    arr, (d1, d2) = case["arr"], case["d"]
    nx, cv = backend(arr), conv(arr)
    f32 = arr == "torch32"
    n, m = 9, 11
    Xs, Xt, Xn = I.points(case["pts"], n, d1, 1), I.points(case["pts"], m, d2, 2) * [1.0, 2.0, 0.7][:d2], I.points("signed", 4, d1, 3)
    de, wf = est_w(case["w"], nx)
    mu, nu = wf(n), wf(m)
    N = lambda z: num(nx, z)
    tag = case["cls"]
    e = 5e-3 if f32 else 1e-7
    ms, mt = (mu @ Xs, nu @ Xt) if case["bias"] else (np.zeros(d1), np.zeros(d2))
    cov = lambda X, w, mean: (X - mean).T @ np.diag(w / w.sum()) @ (X - mean)
    if tag == "linear":
        if f32 and case["reg"] < 1e-3 and d1 > 2:
            return "n/a"
        t = da.LinearTransport(reg=case["reg"], bias=case["bias"], log=case["log"], distribution_estimation=de)
        t.fit(Xs=cv(Xs), Xt=cv(Xt))
        Cs, Ct = cov(Xs, mu, ms) + case["reg"] * np.eye(d1), cov(Xt, nu, mt) + case["reg"] * np.eye(d2)
        A = N(t.A_)
        # the unique symmetric positive matrix sending one covariance to the other
        if np.abs(A - A.T).max() > e or np.linalg.eigvalsh((A + A.T) / 2).min() < -e or np.abs(A @ Cs @ A - Ct).max() > 10 * e * max(1, np.abs(Ct).max()):
            raise Fail("map:" + tag, "A_ is not the map between the Gaussians: %s" % A.tolist())
        if case["bias"] and np.abs(N(t.transform(Xs=cv(ms[None] + 0.0)))[0] - mt).max() > 10 * e:
            raise Fail("map:" + tag, "the mean is not sent to the mean")
        if not case["bias"] and np.abs(N(t.B_)).max() > e:
            raise Fail("map:" + tag, "B_ = %r without bias" % N(t.B_).tolist())
        X = cv(Xn)
        back = N(t.inverse_transform(Xt=t.transform(Xs=X)))
        if np.abs(back - Xn).max() > (1e-2 if f32 else 1e-6):
            raise Fail("roundtrip:" + tag, "inverse_transform(transform(X)) is off by %g" % np.abs(back - Xn).max())
    else:
        if f32:
            return "n/a"
        sg = None if case["signs"] == "none" else "skewness" if case["signs"] == "skewness" else cv(np.array([1.0, -1.0, 1.0][:min(d1, d2)]))
        t = da.LinearGWTransport(sign_eigs=sg, log=case["log"], distribution_estimation=de)
        t.fit(Xs=cv(Xs), Xt=cv(Xt))
        o = N(t.transform(Xs=cv(Xs)))
        Cs, Ct = cov(Xs, mu, ms), cov(Xt, nu, mt)
        ls, lt = np.sort(np.linalg.eigvalsh(Cs))[::-1], np.linalg.eigh(Ct)
        k = min(d1, d2)
        if np.abs(mu @ o - mt).max() > e:
            raise Fail("map:" + tag, "the mean is not sent to the mean")
        img = cov(o, mu, mu @ o)
        r = np.argsort(lt[0])[::-1]
        U = lt[1][:, r]
        want = (U[:, :k] * lt[0][r][:k]) @ U[:, :k].T if d1 <= d2 else Ct  # the leading directions
        if np.abs(img - want).max() > 1e-6 * max(1, np.abs(Ct).max()):
            raise Fail("map:" + tag, "covariance of the mapped samples %s, expected %s" % (img.tolist(), want.tolist()))
    # affine, batch-free
    X = cv(Xn)
    o = N(t.transform(Xs=X))
    for b in (1, 3):
        if not np.allclose(N(t.transform(Xs=X, batch_size=b)), o, atol=1e-9):
            raise Fail("batch:" + tag, "depends on batch_size")
    mid = N(t.transform(Xs=cv((Xn[:1] + Xn[1:2]) / 2)))
    if np.abs(mid - (o[:1] + o[1:2]) / 2).max() > (1e-3 if f32 else 1e-9):
        raise Fail("affine:" + tag, "the map is not affine")
    return "ok"


# ---- solvers
def gen_s(ctx):
    ctx.choose("solver", ["lpl1", "l1l2", "laplace"])
    ctx.choose("w", ["lcg", "uniform", "zeros", "spiky"])
    ctx.choose("eta", [0.1, 1.0, 0.0])
    ctx.choose("par", [0, 1, 2])
    ctx.dev("shape", [(4, 5), (5, 4), (5, 5), (6, 3), (9, 10)])
    ctx.dev("reg", [1.0, 0.2, 10.0])
    ctx.dev("M", ["lcg", "neg", "ties", "const"])
    ctx.dev("arr", ["C", "F", "strided", "torch", "jax", "torch32"])
    ctx.dev("its", [10, 1, 3])
    ctx.dev("alpha", [0.5, 0.0, 1.0, 0.2])
    ctx.dev("y", ["two", "three", "one", "own", "unordered"])


def run_s(case):
    (n, m), reg, arr, eta, s = case["shape"], case["reg"], case["arr"], case["eta"], case["solver"]
    nx, cv = backend(arr), conv(arr)
    f32 = arr == "torch32"
    a, b, M = I.weights(case["w"], n, 1), I.weights(case["w"], m, 2), I.cost(case["M"], n, m, 3)
    ys = {"two": np.arange(n) % 2, "three": np.arange(n) % 3, "one": np.zeros(n, int), "own": np.arange(n), "unordered": np.array([(7 * i) % 3 - 1 for i in range(n)])}[case["y"]]
    yarg = ys if arr in I.LAYOUTS else nx.from_numpy(ys)
    N = lambda z: num(nx, z)
    tol = 1e-4 if f32 else 1e-7
    its = case["its"]
    if s != "laplace" and case["alpha"] != 0.5 or s == "laplace" and (reg != 1.0 or case["y"] != "two") or s != "laplace" and case["par"]:
        return "n/a"
    if s == "laplace":
        sim, par, rg = [("knn", 2, "pos"), ("gauss", 0.8, "pos"), ("knn", 2, "disp")][case["par"]]
        Xs, Xt = I.points("lcg", n, 2, 5), I.points("signed", m, 2, 6)
        al = case["alpha"]
        its = 400 if its == 10 else its
        f = lambda lg: da.emd_laplace(cv(a), cv(b), cv(Xs), cv(Xt), cv(M), sim, par, reg=rg, eta=eta, alpha=al, numItermax=its, stopThr=1e-13, stopInnerThr=1e-14, log=lg)
        ((G, lg), bad), (G1, _) = call(f, True), call(f, False)
        G, G1 = N(G), N(G1)

        def similarity(X):
            D = cdist(X, X)
            if sim == "gauss":
                return np.exp(-D ** 2 / (2 * par ** 2))
            S = np.zeros_like(D)
            for i in range(len(X)):
                S[i, np.argsort(D[i], kind="stable")[1:par + 1]] = 1
            return (S + S.T) / 2
        S, T = similarity(Xs), similarity(Xt)
        Ps, Pt = (Xs / n, Xt / m) if rg == "disp" else (np.zeros_like(Xs), np.zeros_like(Xt))

        def omega(P):
            U, V = P @ Xt - Ps, P.T @ Xs - Pt
            pair = lambda Z, W: 0.5 * sum(W[i, j] * ((Z[i] - Z[j]) ** 2).sum() for i in range(len(Z)) for j in range(len(Z)))
            return al * pair(U, S) + (1 - al) * pair(V, T)
        obj = lambda P: np.sum(M * P) + eta * omega(P)
        oracle.check_coupling(Fail, "plan:laplace", G, a, b, 1e-5 if f32 else 1e-9)
        if not np.array_equal(G, G1):
            raise Fail("log:laplace", "the coupling depends on log")
        L = lambda W: np.diag(W.sum(1)) - W
        U, V = G @ Xt - Ps, G.T @ Xs - Pt
        grad = M + 2 * eta * (al * L(S) @ U @ Xt.T + (1 - al) * Xs @ (L(T) @ V).T)
        low = oracle.transport_lp(a, b, grad)
        gap = np.sum(grad * G) - low
        ls = [float(N(x)) for x in lg["loss"]]
        sc = max(1, np.abs(grad).max())
        if abs(ls[-1] - obj(G) + eta * omega(0 * G)) > (1e-3 if f32 else 1e-7) * sc:  # up to the constant of the displacements
            raise Fail("value:laplace:" + rg, "loss %r, documented objective %r" % (ls[-1], obj(G)))
        if max(np.diff(ls), default=0) > 1e-5 * sc if f32 else max(np.diff(ls), default=0) > 1e-9 * sc:
            raise Fail("monotone:laplace", "losses %r" % ls)
        # Frank-Wolfe on a convex quadratic: the gap after k steps is at most O(1/k)
        if its > 3 and gap > (2e-2 if len(ls) > its else 2e-3) * sc * (5 if f32 else 1):
            raise Fail("optimal:laplace:" + rg, "a linear step improves by %g after %d iterations" % (gap, len(ls) - 1))
        return round(obj(G), 5)
    if s == "lpl1":
        f = lambda lg: da.sinkhorn_lpl1_mm(cv(a), yarg, cv(b), cv(M), reg, eta=eta, numItermax=its, numInnerItermax=20000, stopInnerThr=1e-7 if f32 else 1e-13, log=lg)
        ((G, lg), bad), (G1, _) = call(f, True), call(f, False)
        ref = lpl1(a, ys, b, M, reg, eta, its)
        if not isinstance(lg, dict) or not np.array_equal(N(G), N(G1)):
            raise Fail("log:lpl1", "the coupling depends on log")
        if not bad and not np.abs(N(G) - ref).max() <= (1e-3 if f32 else 1e-6):
            raise Fail("steps:lpl1", "differs by %g from %d majorisation steps" % (np.abs(N(G) - ref).max(), its))
        return "ok"
    its = 200 if its == 10 else its
    f = lambda lg: da.sinkhorn_l1l2_gl(cv(a), yarg, cv(b), cv(M), reg, eta=eta, numItermax=its, numInnerItermax=5000, stopInnerThr=1e-7 if f32 else 1e-13, log=lg)
    ((G, lg), bad), (G1, _) = call(f, True), call(f, False)
    G, G1 = N(G), N(G1)
    if not np.array_equal(G, G1):
        raise Fail("log:l1l2", "the coupling depends on log")
    oracle.check_coupling(Fail, "plan:l1l2", G, a, b, 1e-4 if f32 else 1e-6)
    ent = lambda P: float(np.sum(np.where(P > 0, P * np.log(np.where(P > 0, P, 1)), 0)))
    groups = [ys == c for c in sorted(set(ys.tolist()))]
    pen = lambda P: sum(np.sqrt((P[g] ** 2).sum(0)).sum() for g in groups)
    obj = lambda P: np.sum(M * P) + reg * ent(P) + eta * pen(P)
    dp = np.zeros_like(G)
    for g in groups:
        dp[g] = G[g] / np.maximum(np.sqrt((G[g] ** 2).sum(0)), 1e-12)
    S = oracle.sinkhorn_ref(a, b, M + eta * dp, reg)
    lin = lambda P: np.sum((M + eta * dp) * P) + reg * ent(P)
    gap = lin(G) - lin(S)  # bounds obj(G) - min from above (convexity)
    ls = [float(N(x)) for x in lg["loss"]]
    if abs(ls[-1] - obj(G)) > 1e-3 * max(1, abs(obj(G))) if f32 else abs(ls[-1] - obj(G)) > 1e-6 * max(1, abs(obj(G))):
        raise Fail("value:l1l2", "loss %r, documented objective %r" % (ls[-1], obj(G)))
    if its > 3 and gap > (1e-2 if f32 else 1e-4) and not bad:
        raise Fail("optimal:l1l2", "objective up to %g above the optimum after %d iterations" % (gap, len(ls) - 1))
    return round(obj(G), 5)


# ---- JCPOT
def gen_j(ctx):
    ctx.choose("sizes", [(4, 5), (4,), (6, 4, 5), (5, 5)])
    ctx.choose("labels", [(0, 1), (0, 1, 2), (2, 3)])
    ctx.choose("reg", [0.5, 0.1])
    ctx.dev("m", [6, 1, 4])
    ctx.dev("metric", ["sqeuclidean", "euclidean"])
    ctx.dev("arr", ["C", "F", "strided", "torch"])
    ctx.dev("its", [100, 3])
    if len(ctx.case["labels"]) == 3 and min(ctx.case["sizes"]) < 4:
        ctx.prune()


def run_j(case):
    arr = case["arr"]
    nx, cv = backend(arr), conv(arr)
    N = lambda z: num(nx, z)
    Xs = [I.points("lcg", n, 2, k + 1) for k, n in enumerate(case["sizes"])]
    ys = [np.array([case["labels"][i % len(case["labels"])] for i in range(n)]) for n in case["sizes"]]
    Xt, Xn = I.points("signed", case["m"], 2, 9), I.points("signed", 5, 2, 11)
    yc = [y if arr in I.LAYOUTS else nx.from_numpy(y.astype(float)) for y in ys]
    xs = [cv(x) for x in Xs]
    ts = []
    for lg in (False, True):
        t = da.JCPOTTransport(reg_e=case["reg"], max_iter=case["its"], tol=1e-9, metric=case["metric"], log=lg)
        before = t.get_params()
        call(t.fit, Xs=xs, ys=yc, Xt=cv(Xt))
        if t.get_params() != before:
            raise Fail("params:jcpot", "fit changed the parameters")
        ts.append(t)
    prop, lg = ot.bregman.jcpot_barycenter(xs, yc, cv(Xt), case["reg"], metric=case["metric"], numItermax=case["its"], stopThr=1e-9, log=True)
    for t in ts:
        if np.abs(N(t.proportions_) - N(prop)).max() > 1e-12 or any(np.abs(N(g) - N(h)).max() > 1e-12 for g, h in zip(t.coupling_, lg["gamma"])):
            raise Fail("coupling:jcpot", "couplings are not those of the parameters")
    want = []
    for X, g in zip(Xs, lg["gamma"]):
        g = N(g)
        want.append(g / g.sum(1, keepdims=True) @ Xt)
    outs = []
    for t in ts:
        o = t.transform(Xs=xs)
        for x, w in zip(o, want):
            if np.abs(N(x) - w).max() > 1e-9:
                raise Fail("transform:train:jcpot", "barycentric map off by %g" % np.abs(N(x) - w).max())
        for b in (128, 1, 3):
            o = N(t.transform(Xs=cv(Xn), batch_size=b))
            i = cdist(Xn, np.concatenate(Xs), "sqeuclidean").argmin(1)
            if np.abs(o - (np.concatenate(want)[i] + Xn - np.concatenate(Xs)[i])).max() > 1e-9:
                raise Fail("transform:new:jcpot", "out of sample map off")
        outs.append(([N(x) for x in [t.transform_labels(yc)]], [N(x) for x in t.inverse_transform_labels(np.arange(case["m"]) % 2 if arr in I.LAYOUTS else nx.from_numpy((np.arange(case["m"]) % 2) * 1.0))]))
    for x, y in zip(outs[0][0] + outs[0][1], outs[1][0] + outs[1][1]):
        if x.shape != y.shape or np.abs(x - y).max() > 1e-12:
            raise Fail("labels:jcpot", "label probabilities depend on log")
    for P, g in zip(outs[0][1], lg["gamma"]):
        if case["m"] > 1 and np.abs(P.sum(1) - 1).max() > 1e-9:
            raise Fail("inverse_labels:jcpot", "probabilities of the source labels sum to %r" % P.sum(1).tolist())
    return "ok"


# ---- semi-supervised mode
def gen_semi(ctx):
    ctx.choose("kind", ["emd", "sinkhorn", "lpl1", "l1l2", "unbalanced"])
    ctx.choose("limit", [10, 3.0, np.inf])
    ctx.choose("miss", ["none", "source", "target", "both"])
    ctx.dev("shape", [(4, 5), (6, 4)])
    ctx.dev("arr", ["C", "torch", "jax"])


def run_semi(case):
    n, m = case["shape"]
    arr = case["arr"]
    nx, cv = backend(arr), conv(arr)
    Xs, Xt = I.points("lcg", n, 2, 1), I.points("signed", m, 2, 2)
    ys, yt = np.arange(n) % 2, (np.arange(m) + 1) // 2 % 2
    if case["miss"] in ("source", "both"):
        ys = np.where(np.arange(n) == 1, -1, ys)
    if case["miss"] in ("target", "both"):
        yt = np.where(np.arange(m) > 1, -1, yt)
    l = lambda y: y if arr == "C" else nx.from_numpy(y * 1.0)
    t = make(case["kind"], da.distribution_estimation_uniform, limit_max=case["limit"])
    call(t.fit, Xs=cv(Xs), ys=l(ys), Xt=cv(Xt), yt=l(yt))
    C = cdist(Xs, Xt, "sqeuclidean")
    got = num(nx, t.cost_)
    out = (ys[:, None] != yt[None]) & (ys[:, None] != -1) & (yt[None] != -1)
    want = np.where(out, C.max() * case["limit"], C)
    if t.limit_max != case["limit"]:
        raise Fail("params:limit_max", "fit changed limit_max to %r" % t.limit_max)
    if not np.abs(got - C)[~out].max() < 1e-9:
        raise Fail("semi:others", "costs between compatible labels were changed")
    with np.errstate(invalid="ignore"):
        bad = np.isinf(want) & np.isinf(got) | (np.abs(got - want) < 1e-9)
    if not bad.all():
        if np.abs(got - C).max() < 1e-9:
            return {"inner": 1, "outcome": "ignored", "known": [("semi:ignored", "the target labels have no effect on the cost")]}
        raise Fail("semi:cost", "cost %s, expected %s" % (got.tolist(), want.tolist()))
    return "ok"


# ---- histories of one estimator
HK = ["emd", "sinkhorn", "sinkhorn-ferradans", "lpl1", "l1l2", "laplace", "unbalanced", "linear", "gw", "mapping", "mapping-gauss", "jcpot", "brenier"]
OPS = ["fitA", "fitB", "semi", "new", "train", "inv", "labels", "param", "bad", "clone"]


def build(kind):
    u = da.distribution_estimation_uniform
    if kind in KINDS:
        return make(kind, u) if kind != "laplace" else da.EMDLaplaceTransport(similarity_param=2, max_iter=5)
    return {"linear": lambda: da.LinearTransport(), "gw": lambda: da.LinearGWTransport(), "mapping": lambda: da.MappingTransport(max_iter=4, bias=True),
            "mapping-gauss": lambda: da.MappingTransport(kernel="gaussian", max_iter=4), "jcpot": lambda: da.JCPOTTransport(reg_e=0.5, max_iter=5),
            "brenier": lambda: da.NearestBrenierPotential(its=3)}[kind]()


PARAM = {"emd": ("norm", "max"), "sinkhorn": ("reg_e", 0.9), "sinkhorn-ferradans": ("out_of_sample_map", "continuous"), "lpl1": ("reg_cl", 0.9), "l1l2": ("reg_cl", 0.9), "laplace": ("reg_lap", 0.2),
         "unbalanced": ("reg_m", 2.0), "linear": ("reg", 0.5), "gw": ("sign_eigs", "skewness"), "mapping": ("eta", 0.1), "mapping-gauss": ("sigma", 2.0), "jcpot": ("reg_e", 0.9), "brenier": ("its", 6)}
DATA = {"A": (5, 6, 1), "B": (6, 4, 4)}


def data(kind, which):
    n, m, s = DATA[which]
    if kind == "brenier":
        n = m = 4
    Xs, Xt = I.points("lcg", n, 2, s), I.points("signed", m, 2, s + 1)
    ys, yt = np.arange(n) % 2, (np.arange(m) + 1) % 2
    if kind == "jcpot":
        return [Xs, Xs[::-1] + 0.1], [ys, ys[::-1].copy()], Xt, yt
    return Xs, ys, Xt, yt


def fitted(t, kind, which, semi=False):
    Xs, ys, Xt, yt = data(kind, which)
    k = dict(Xs=Xs, Xt=Xt)
    if kind not in ("brenier",):
        k["ys"] = ys
    if semi:
        k["yt"] = yt
    call(t.fit, **k)


def observe(t, kind, op, which):
    Xs, ys, Xt, yt = data(kind, which)
    new = I.points("signed", 3, 2, 8)
    if op == "new":
        r = t.transform(new)
    elif op == "train":
        r = t.transform(Xs if kind != "brenier" else Xs.copy())
    elif op == "inv":
        r = t.inverse_transform(Xt=Xt) if kind not in ("mapping", "mapping-gauss", "jcpot", "brenier") else 0
    else:
        r = t.transform_labels(ys) if hasattr(t, "coupling_") and not kind.startswith("mapping") else 0
    return [np.asarray(x) for x in r] if isinstance(r, list) else [np.asarray(r)]


def gen_h(ctx, depth):
    ctx.choose("kind", HK)
    ctx.choose("seq", list(itertools.product(OPS, repeat=depth)))


def run_h(case):
    kind, seq = case["kind"], case["seq"]
    t, last, semi, changed, fitp = build(kind), None, False, False, False
    start = t.get_params()

    def fresh():
        f = build(kind)
        if fitp:
            f.set_params(**dict([PARAM[kind]]))
        fitted(f, kind, last, semi)
        if changed != fitp:
            f.set_params(**{PARAM[kind][0]: PARAM[kind][1] if changed else start[PARAM[kind][0]]})
        return f
    def same(a, b):
        return a is b or (type(a) == type(b) and (a == b if not isinstance(a, np.ndarray) else np.array_equal(a, b)))
    steps = 0
    with np.errstate(all="ignore"):
        for op in seq:
            if op in ("fitA", "fitB", "semi"):
                last, semi, fitp = "B" if op == "fitB" else "A", op == "semi", changed
                fitted(t, kind, last, semi)
            elif op == "param":
                t.set_params(**dict([PARAM[kind]]))
                changed = True
            elif op == "bad":  # a call that fails and must not spoil the next fit
                try:
                    call(t.fit, Xs=np.ones((3, 2)), Xt=np.ones((2, 5, 1)), **({} if kind == "brenier" else {"ys": np.arange(3)}))
                except Exception:
                    pass
                last = None
            elif op == "clone":
                p = t.get_params()
                t = type(t)(**p)
                last = None
            elif last is not None:
                x, y = observe(t, kind, op, last), observe(fresh(), kind, op, last)
                if len(x) != len(y) or any(a.shape != b.shape or not np.array_equal(a, b, equal_nan=True) for a, b in zip(x, y)):
                    raise Fail("history:%s:%s" % (kind, op), "differs from a fresh estimator after %r" % (seq,))
            p = t.get_params()
            for k in start:
                want = PARAM[kind][1] if changed and k == PARAM[kind][0] else start[k]
                if k not in p or not same(p[k], want):
                    raise Fail("history:params:%s" % kind, "parameter %s is %r instead of %r after %s" % (k, p.get(k), want, op))
            steps += 1
        last, semi, fitp = "B", False, changed
        fitted(t, kind, last)
        f = fresh()
        for op in ("new", "train", "inv", "labels"):
            x, y = observe(t, kind, op, last), observe(f, kind, op, last)
            if len(x) != len(y) or any(a.shape != b.shape or not np.array_equal(a, b, equal_nan=True) for a, b in zip(x, y)):
                raise Fail("history:%s:%s" % (kind, op), "differs from a fresh estimator after %r and a fit" % (seq,))
    return {"inner": 1, "states": steps, "transitions": steps, "outcome": "ok"}


def scopes(tier):
    depth = 3 if tier == "thorough" else 2
    return [
        Scope("transform", gen_t, run_t, dev=1, thorough_dev=2, doc="couplings, maps in both directions, labels"),
        Scope("linear", gen_l, run_l, dev=1, thorough_dev=2),
        Scope("solvers", gen_s, run_s, dev=1, thorough_dev=2),
        Scope("jcpot", gen_j, run_j, dev=1, thorough_dev=2),
        Scope("semi-supervised", gen_semi, run_semi, dev=2, thorough_dev=2),
        Scope("histories", lambda ctx: gen_h(ctx, depth), run_h, doc="all sequences of operations"),
    ]
