"""C24: Gaussian and Gaussian-mixture transport: distances, maps, barycenters, plans, densities."""
BACKENDS = ("torch", "jax", "tf")
OMP = 1
import itertools

import numpy as np
import ot
import ot.gaussian as Ga
import ot.gmm as Gm

from checks.c14 import backend, conv, num
from checks.c15 import call
from mc import instances as I
from mc import oracle
from mc.engine import Fail, Scope

ASSUMPTIONS = ("covariances with condition numbers up to 1e6; dimension up to 4",)
ARRS = ["C", "strided", "torch", "jax", "tf", "torch32"]
COVS = ["eye", "diag", "lcg", "lcg2", "ill", "corr", "rank1", "big", "tiny"]


def cov(kind, d, s=1):
    if kind == "eye":
        return np.eye(d)
    if kind == "diag":
        return np.diag(1.0 + np.arange(d) * s)
    if kind == "rank1":
        return np.diag([2.0] + [0.0] * (d - 1))
    X = I.points("signed", d + 2, d, s + len(kind))
    S = X.T @ X / (d + 2) + 0.1 * np.eye(d)
    if kind == "ill":
        w, Q = np.linalg.eigh(S)
        return (Q * np.logspace(-3, 3, d)) @ Q.T if d > 1 else np.array([[1e-3]])
    if kind == "corr":
        return 0.1 * np.eye(d) + 0.9
    return S * dict(big=1e4, tiny=1e-4).get(kind, 1.0)


def msqrt(S):
    w, Q = np.linalg.eigh((S + S.T) / 2)
    return (Q * np.sqrt(np.maximum(w, 0))) @ Q.T


def bures2(A, B):
    """Squared Bures distance from the nuclear norm of A^{1/2} B^{1/2}."""
    return np.trace(A) + np.trace(B) - 2 * np.linalg.svd(msqrt(A) @ msqrt(B), compute_uv=False).sum()


def bmap(A, B):
    """The optimal linear map from N(0, A) to N(0, B)."""
    R = msqrt(A)
    Ri = np.linalg.inv(R)
    return Ri @ msqrt(R @ B @ R) @ Ri


def barycov(C, w, it=20000):
    """Barycenter of covariances: fixed-point map of Alvarez-Esteban et al., in float64."""
    S = np.einsum("n,nij->ij", w, C)
    for _ in range(it):
        T = sum(x * bmap(S, c) for x, c in zip(w, C))
        N = T @ S @ T
        N = (N + N.T) / 2
        if np.abs(N - S).max() <= 1e-13 * np.abs(S).max():
            break
        S = N
    return N


def near(sig, got, ref, tol, what=""):
    got, ref = np.asarray(got, float), np.asarray(ref, float)
    if got.shape != ref.shape:
        raise Fail(sig, "%s shape %r, expected %r" % (what, got.shape, ref.shape))
    if not np.allclose(got, ref, rtol=tol, atol=1e-11 + tol * (np.abs(ref).max() if ref.size else 1)):
        raise Fail(sig, "%s %s, expected %s" % (what, got.tolist(), ref.tolist()))


# ---- distances and maps between given Gaussians
def gen_b(ctx):
    ctx.choose("s", COVS)
    ctx.choose("t", COVS)
    ctx.choose("d", [2, 1, 3])
    ctx.choose("arr", ARRS)


def run_b(case):
    d, arr = case["d"], case["arr"]
    f32 = arr == "torch32"
    nx, cv = backend(arr), conv(arr)
    A, B = cov(case["s"], d, 1), cov(case["t"], d, 2)
    ms, mt = I.points("signed", 2, d, 5)
    cond = max(np.linalg.cond(x) for x in (A, B) if np.linalg.matrix_rank(x) == d) if max(map(np.linalg.matrix_rank, (A, B))) == d else 1
    if f32 and cond > 1e3:
        return "ill-conditioned"
    ref2 = bures2(A, B)
    scale = np.trace(A) + np.trace(B)
    e = 2e-3 if f32 else 1e-6
    got = num(nx, Ga.bures_distance(cv(A), cv(B)))
    if np.isnan(got) and "rank1" in (case["s"], case["t"]):
        return {"inner": 1, "outcome": "degenerate", "known": [("bures:degenerate", "NaN distance for a singular covariance")]}
    if not abs(got ** 2 - ref2) <= e * scale or not got >= 0:
        raise Fail("bures", "distance %g, expected %g" % (got, np.sqrt(max(ref2, 0))))
    back = num(nx, Ga.bures_distance(cv(B), cv(A)))
    if np.isnan(back) and "rank1" in (case["s"], case["t"]):
        return {"inner": 1, "outcome": "degenerate", "known": [("bures:degenerate", "NaN distance for a singular covariance")]}
    if not abs(back ** 2 - got ** 2) <= e * scale:
        raise Fail("symmetry", "%g one way, %g the other" % (got, back))
    if d == 1 and not abs(got - abs(np.sqrt(A[0, 0]) - np.sqrt(B[0, 0]))) <= max(np.sqrt(e * scale) * 1e-1, 1e-6):
        raise Fail("bures:1d", "distance %g on the line" % got)
    W = num(nx, Ga.bures_wasserstein_distance(cv(ms), cv(mt), cv(A), cv(B)))
    if not abs(W ** 2 - ref2 - ((ms - mt) ** 2).sum()) <= e * (scale + ((ms - mt) ** 2).sum()):
        raise Fail("wasserstein", "distance %g, expected %g" % (W, np.sqrt(ref2 + ((ms - mt) ** 2).sum())))
    WL, lg = Ga.bures_wasserstein_distance(cv(ms), cv(mt), cv(A), cv(B), log=True)
    if not abs(num(nx, WL) - W) <= 1e-6 * (1 + W):
        raise Fail("wasserstein:log", "%g with log, %g without" % (num(nx, WL), W))
    near("wasserstein:log", num(nx, lg["Cs12"]), msqrt(A), 10 * e, "square root")
    if "rank1" in (case["s"], case["t"]):
        return "degenerate"
    for fl in (False, True):
        r = Ga.bures_wasserstein_mapping(cv(ms), cv(mt), cv(A), cv(B), log=fl)
        P, b = num(nx, r[0]), num(nx, r[1])
        near("map", P, bmap(A, B), e * np.sqrt(cond) * 5, "map")
        near("map:push", P.T @ A @ P, B, e * cond, "image covariance")
        if not np.allclose(b, mt - ms @ P, atol=e * (1 + np.abs(P).max())):
            raise Fail("map:bias", "bias %s, expected %s" % (b, mt - ms @ P))
    # the cost of the map is the distance
    E = np.eye(d)
    c2 = np.trace((E - P) @ A @ (E - P).T) + ((ms - mt) ** 2).sum()
    if not abs(c2 - W ** 2) <= 10 * e * cond ** 0.5 * (scale + W ** 2):
        raise Fail("map:cost", "cost of the map %g, squared distance %g" % (c2, W ** 2))
    return "ok"


# ---- batches
def gen_m(ctx):
    ctx.choose("n", [2, 1, 3])
    ctx.choose("m", [2, 1, 3])
    ctx.choose("d", [2, 1, 3])
    ctx.choose("arr", ARRS)
    ctx.choose("paired", [False, True])
    ctx.choose("log", [False, True])


def run_m(case):
    n, m, d, arr = case["n"], case["m"], case["d"], case["arr"]
    nx, cv = backend(arr), conv(arr)
    e = 3e-3 if arr == "torch32" else 1e-6
    Cs, Ct = np.stack([cov(k, d, 3) for k in ("lcg", "diag", "corr")[:n]]), np.stack([cov(k, d, 4) for k in ("eye", "lcg2", "lcg")[:m]])
    ms, mt = I.points("signed", n, d, 6), I.points("lcg", m, d, 7)
    B = np.array([[bures2(x, y) for y in Ct] for x in Cs])
    D = ((ms[:, None] - mt[None]) ** 2).sum(-1)
    try:
        r = Ga.bures_wasserstein_distance(cv(ms), cv(mt), cv(Cs), cv(Ct), paired=case["paired"], log=case["log"])
        q = Ga.bures_distance(cv(Cs), cv(Ct), paired=case["paired"], log=case["log"])
    except (AssertionError, ValueError) as x:
        if case["paired"] and n != m:
            return "rejected"
        raise Fail("batch", repr(x))
    if case["log"]:
        r, q = r[0], q[0]
    r, q = num(nx, r), num(nx, q)
    if case["paired"] and n == m:
        near("batch:bures", q ** 2, np.diag(B), e)
        near("batch", r ** 2, np.diag(B + D), e)
    elif case["paired"]:  # "if not possible, all pairs"
        near("batch:bures", q ** 2, B, e)
        near("batch", r ** 2, B + D, e)
    else:
        near("batch:bures", q ** 2, B, e)
        near("batch", r ** 2, B + D, e)
    # triangle inequality over all triples of the set
    if n == 3 and d > 1:
        S = num(nx, Ga.bures_wasserstein_distance(cv(ms), cv(ms), cv(Cs), cv(Cs)))
        for i, j, k in itertools.product(range(3), repeat=3):
            if S[i, k] > S[i, j] + S[j, k] + (0.05 if arr == "torch32" else 1e-4):
                raise Fail("triangle", "d(%d,%d)=%g > %g" % (i, k, S[i, k], S[i, j] + S[j, k]))
    return "ok"


# ---- empirical versions
def gen_e(ctx):
    ctx.choose("fun", ["distance", "map", "gw", "gwmap", "barycenter"])
    ctx.choose("arr", ARRS)
    ctx.choose("shape", [(6, 7, 2), (7, 6, 1), (8, 8, 3), (5, 5, 2)])
    ctx.choose("w", ["none", "given", "unnorm", "zero", "one"])
    ctx.choose("bias", [True, False])
    ctx.choose("reg", [1e-6, 0.5])
    ctx.choose("log", [False, True])
    c = ctx.case
    if c["fun"] in ("gw", "gwmap") and (not c["bias"] or c["reg"] != 1e-6):
        ctx.prune()


def moments(X, w, bias, reg):
    w = w / w.sum()
    m = w @ X if bias else np.zeros(X.shape[1])
    Z = X - m
    return m, (Z * w[:, None]).T @ Z + reg * np.eye(X.shape[1])


def run_e(case):
    n, m, d = case["shape"]
    arr, fun, bias, reg, fl = case["arr"], case["fun"], case["bias"], case["reg"], case["log"]
    nx, cv = backend(arr), conv(arr)
    e = 5e-3 if arr == "torch32" else 1e-6
    xs, xt = I.points("signed", n, d, 8), 0.5 + 2 * I.points("lcg", m, d, 9)
    ws, wt = I.weights("lcg", n, 3), I.weights("lcg", m, 4)
    if case["w"] == "unnorm":
        ws, wt = 3 * ws, 0.5 * wt
    if case["w"] == "zero":
        ws, wt = ws * (np.arange(n) != 1), wt * (np.arange(m) != 0)
        ws, wt = ws / ws.sum(), wt / wt.sum()
    kw = {}
    if case["w"] == "none":
        ws, wt = np.ones(n) / n, np.ones(m) / m
    elif case["w"] == "one":
        wt = np.ones(m) / m
        kw = dict(ws=cv(ws[:, None]))
    else:
        kw = dict(ws=cv(ws[:, None]), wt=cv(wt[:, None]))
    if fun not in ("gw", "gwmap"):
        kw.update(bias=bias, reg=reg)
    else:
        reg = 0.0
    (mus, A), (mut, B) = moments(xs, ws, bias, reg), moments(xt, wt, bias, reg)
    if fun == "distance":
        r = Ga.empirical_bures_wasserstein_distance(cv(xs), cv(xt), log=fl, **kw)
        W = num(nx, r[0] if fl else r)
        ref = np.sqrt(bures2(A, B) + ((mus - mut) ** 2).sum())
        if not abs(W - ref) <= e * (1 + ref) or np.shape(W) != ():
            raise Fail("emp:distance", "%r, expected %g" % (W, ref))
        if fl:
            near("emp:log", num(nx, r[1]["Cs"]), A, e)
            near("emp:log", num(nx, r[1]["Ct"]), B, e)
    elif fun == "map":
        r = Ga.empirical_bures_wasserstein_mapping(cv(xs), cv(xt), log=fl, **kw)
        P, b = num(nx, r[0]), num(nx, r[1])
        near("emp:map", P, bmap(A, B), 20 * e)
        near("emp:bias", b.ravel(), mut - mus @ P, 20 * e)
        m2, C2 = moments(xs @ P + b, ws, bias, 0)
        near("emp:push", C2 + reg * P.T @ P, B, 20 * e, "image covariance")
        if bias:
            near("emp:push", m2, mut, 20 * e, "image mean")
    elif fun == "gw":
        # samples of another dimension, either way
        for d2 in (d, d + 1):
            xt2 = np.hstack([xt, I.points("lcg", m, d2 - d, 2)]) if d2 > d else xt
            for X, Y, u, v in ((xs, xt2, "ws", "wt"), (xt2, xs, "wt", "ws")):
                kk = {k: kw[o] for k, o in (("ws", u), ("wt", v)) if o in kw}
                wx, wy = (ws, wt) if X is xs else (wt, ws)
                r = Ga.empirical_gaussian_gromov_wasserstein_distance(cv(X), cv(Y), log=fl, **kk)
                ref = ggw(moments(X, wx, True, 0)[1], moments(Y, wy, True, 0)[1])
                W = num(nx, r[0] if fl else r)
                if not abs(W - ref) <= 5 * e * (1 + ref):
                    raise Fail("emp:gw", "%g, expected %g" % (W, ref))
    elif fun == "gwmap":
        for sg in (None, "skewness", np.array([1.0, -1.0, 1.0, -1.0])):
            for d2 in (d, d + 1, max(1, d - 1)):
                Y = np.hstack([xt, I.points("lcg", m, 1, 2)]) if d2 > d else xt[:, :d2]
                k = min(d, d2)
                s = sg if sg is None or isinstance(sg, str) else cv(sg[:k])
                r = Ga.empirical_gaussian_gromov_wasserstein_mapping(cv(xs), cv(Y), sign_eigs=s, log=fl, **kw)
                P, b = num(nx, r[0]), num(nx, r[1])
                m2, C2 = moments(Y, wt, True, 0)
                near("emp:gwbias", b.ravel(), m2 - mus @ P, 50 * e)
                V = P.T @ A @ P
                if d >= d2:
                    near("emp:gwpush", V, C2, 50 * e, "image covariance")
                else:
                    wv, wc = np.linalg.eigvalsh(V)[::-1], np.linalg.eigvalsh(C2)[::-1]
                    near("emp:gwpush", wv[:k], wc[:k], 50 * e, "spectrum of the image")
                if isinstance(sg, str):
                    # skewness along matched eigenvectors has the same sign in both
                    Z, Yc = (xs @ P + b) - m2, Y - m2
                    w_, Q = np.linalg.eigh(C2)
                    for q in Q.T[::-1][:k]:
                        a3, b3 = ws @ (Z @ q) ** 3, wt @ (Yc @ q) ** 3
                        if a3 * b3 < -1e-4:
                            raise Fail("emp:skewness", "skewness %g of the image, %g of the target" % (a3, b3))
    else:
        X = [xs, xt, I.points("lcg", 4, d, 3)]
        w3 = np.ones(4) / 4
        kk = dict(bias=bias, reg=reg)
        if "ws" in kw:
            kk["w"] = [cv(ws[:, None]), cv(wt[:, None]), cv(w3[:, None])]
        mo = [(mus, A), (mut, B), moments(X[2], w3, bias, reg)]
        for lam in (None, np.array([0.5, 0.2, 0.3])):
            for cnt in (3, 2, 1):
                l = np.ones(cnt) / cnt if lam is None else lam[:cnt] / lam[:cnt].sum()
                k2 = dict(kk, w=kk["w"][:cnt]) if "w" in kk else kk
                r = Ga.empirical_bures_wasserstein_barycenter([cv(x) for x in X[:cnt]], weights=None if lam is None else cv(l), log=fl, **k2)
                near("emp:bary:mean", num(nx, r[0]).ravel(), l @ np.array([z[0] for z in mo[:cnt]]), 20 * e)
                near("emp:bary", num(nx, r[1]), barycov(np.array([z[1] for z in mo[:cnt]]), l), 2e-2 if arr == "torch32" else 1e-5)
    return "ok"


# ---- Gaussian Gromov-Wasserstein
def ggw(A, B):
    a, b = np.sort(np.linalg.eigvalsh(A))[::-1], np.sort(np.linalg.eigvalsh(B))[::-1]
    if len(a) < len(b):
        a, b = b, a
    n = len(b)
    return np.sqrt(4 * (a.sum() - b.sum()) ** 2 + 8 * ((a[:n] - b) ** 2).sum() + 8 * (a[n:] ** 2).sum())


def gen_g(ctx):
    ctx.choose("s", [k for k in COVS if k not in ("ill",)])
    ctx.choose("t", [k for k in COVS if k not in ("ill", "rank1")])
    ctx.choose("ds", [1, 2, 3])
    ctx.choose("dt", [1, 2, 3])
    ctx.choose("arr", ARRS)
    ctx.choose("sign", ["none", "plus", "alt"])


def run_g(case):
    ds, dt, arr = case["ds"], case["dt"], case["arr"]
    nx, cv = backend(arr), conv(arr)
    e = 5e-3 if arr == "torch32" else 1e-6
    A, B = cov(case["s"], ds, 1), cov(case["t"], dt, 2)
    ref = ggw(A, B)
    if case["sign"] == "none":
        Q = np.linalg.qr(I.points("signed", ds, ds, 3))[0]
        for X, Y in ((A, B), (B, A), (Q @ A @ Q.T, B), (A[::-1, ::-1].copy(), B)):
            r, lg = Ga.gaussian_gromov_wasserstein_distance(cv(X), cv(Y), log=True)
            g = num(nx, r)
            if not abs(g - ref) <= e * (np.trace(A) + np.trace(B)):
                raise Fail("ggw", "%g, expected %g" % (g, ref))
            if not abs(num(nx, Ga.gaussian_gromov_wasserstein_distance(cv(X), cv(Y))) - g) <= 1e-6 * (1 + g):
                raise Fail("ggw:log", "another value with log")
    if case["s"] == "rank1":
        return "degenerate"
    k = min(ds, dt)
    s = dict(none=None, plus=np.ones(k), alt=(-1.0) ** np.arange(k))[case["sign"]]
    ms, mt = I.points("signed", 2, ds, 5)[:1], I.points("signed", 2, dt, 6)[:1]
    for fl in (False, True):
        r = Ga.gaussian_gromov_wasserstein_mapping(cv(ms), cv(mt), cv(A), cv(B), sign_eigs=None if s is None else cv(s), log=fl)
        P, b = num(nx, r[0]), num(nx, r[1])
        if P.shape != (ds, dt):
            raise Fail("ggw:shape", "map of shape %r" % (P.shape,))
        V = P.T @ A @ P
        if not np.allclose(b, mt - ms @ P, atol=e * (1 + np.abs(P).max())):
            raise Fail("ggw:bias", "bias %s" % b)
        if ds >= dt:
            near("ggw:push", V, B, 20 * e, "image covariance")
        wv, wb = np.sort(np.linalg.eigvalsh(V))[::-1][:k], np.sort(np.linalg.eigvalsh(B))[::-1][:k]
        near("ggw:spectrum", wv, wb, 20 * e, "spectrum of the image")
        # largest directions go to largest directions: E<x, x'><Tx, Tx'> is maximal
        cross = ((A @ P) ** 2).sum()
        a_, b_ = np.sort(np.linalg.eigvalsh(A))[::-1][:k], wb
        if not abs(cross - (a_ * b_).sum()) <= 20 * e * (a_ * b_).sum() + 1e-12:
            raise Fail("ggw:aligned", "cross covariance norm %g, optimum %g" % (cross, (a_ * b_).sum()))
    return "ok"


# ---- barycenters
def gen_bc(ctx):
    ctx.choose("method", ["fixed_point", "gradient_descent", "stochastic_gradient_descent", "averaged_stochastic_gradient_descent"])
    ctx.choose("fam", [("lcg", "diag", "corr"), ("eye", "eye", "eye"), ("lcg", "lcg2", "eye"), ("diag", "eye", "big"), ("lcg",), ("tiny", "tiny", "eye"), ("corr", "lcg")])
    ctx.choose("w", ["none", "skew", "vertex", "half"])
    ctx.choose("d", [2, 1, 3])
    ctx.choose("arr", ["C", "strided", "torch", "jax", "tf", "torch32"])
    ctx.choose("log", [False, True])
    c = ctx.case
    if "sto" in c["method"] and (c["arr"] not in ("C", "torch") or c["w"] == "half") or c["arr"] in ("jax", "tf", "strided") and (c["log"] or c["d"] == 3 or c["w"] in ("half", "vertex")):
        ctx.prune()


def run_bc(case):
    arr, d, meth = case["arr"], case["d"], case["method"]
    nx, cv = backend(arr), conv(arr)
    f32 = arr == "torch32"
    K = len(case["fam"])
    C = np.stack([cov(k, d, i + 1) for i, k in enumerate(case["fam"])])
    m = I.points("signed", K, d, 4)
    w = {"none": np.ones(K) / K, "skew": np.arange(1.0, K + 1) / np.arange(1.0, K + 1).sum(), "vertex": np.eye(K)[K - 1], "half": np.r_[0.5, 0.5, np.zeros(K - 2)] if K > 1 else np.ones(1)}[case["w"]]
    ww = None if case["w"] == "none" else cv(w)
    sto = "sto" in meth
    kw = dict(num_iter=60) if sto else dict(num_iter=1000)
    np.random.seed(5)
    (r, msgs) = call(Ga.bures_wasserstein_barycenter, cv(m), cv(C), weights=ww, method=meth, log=case["log"], **kw)
    mb, Cb = num(nx, r[0]), num(nx, r[1])
    near("bary:mean", mb, w @ m, 1e-5 if f32 else 1e-9)
    if Cb.shape != (d, d) or not np.isfinite(Cb).all():
        raise Fail("bary:finite", "covariance %s" % Cb.tolist())
    if np.abs(Cb - Cb.T).max() > (1e-3 if f32 else 1e-6) * np.abs(Cb).max() or np.linalg.eigvalsh((Cb + Cb.T) / 2).min() < -1e-8:
        raise Fail("bary:psd", "covariance %s" % Cb.tolist())
    if case["log"]:
        L = r[2]
        if not 0 <= int(L["num_iter"]) < kw["num_iter"]:
            raise Fail("bary:log", "num_iter %r" % L["num_iter"])
    R = barycov(C, w)
    f = lambda S: sum(x * bures2(S, c) for x, c in zip(w, C) if x)
    if sto:
        # any budget gives a covariance; identical inputs give that input
        if len(set(case["fam"])) == 1 or case["w"] == "vertex":
            near("bary:constant", Cb, R, 0.2, "stochastic barycenter")
        if f(Cb) > f(R) + 0.35 * np.trace(R):
            raise Fail("bary:stochastic", "objective %g, optimum %g" % (f(Cb), f(R)))
        return "sto"
    if not np.allclose(Cb, R, rtol=1e-4, atol=(2e-2 if f32 else 1e-4) * np.abs(R).max() + 4e-7):  # eps = 1e-7 is absolute
        raise Fail("bary", "%s gives %s, expected %s" % (meth, Cb.tolist(), R.tolist()))
    # the optimality condition itself
    if not f32:
        res = sum(x * bmap(Cb, c) for x, c in zip(w, C) if x) - np.eye(d)
        if np.abs(res).max() > 1e-3 + 1e-6 / np.linalg.eigvalsh(R).min():
            raise Fail("bary:condition", "optimality residual %g" % np.abs(res).max())
    return "ok"


# ---- mixtures
def mixture(which, k, d):
    ms = I.points("signed" if which else "lcg", k, d, 3 + which)
    Cs = np.stack([cov(("lcg", "diag", "corr", "eye")[(i + which) % 4], d, i + 1 + which) for i in range(k)])
    return ms, Cs, I.weights("lcg", k, 2 + which)


def npdf(x, m, C):
    z = x - m
    return np.exp(-0.5 * np.einsum("...i,ij,...j->...", z, np.linalg.inv(C), z)) / np.sqrt((2 * np.pi) ** len(m) * np.linalg.det(C))


def gen_x(ctx):
    ctx.choose("fun", ["pdf", "cost", "loss", "plan", "bary", "rand", "density"])
    ctx.choose("ks", [2, 1, 3])
    ctx.choose("kt", [3, 1, 2])
    ctx.choose("d", [2, 1, 3])
    ctx.choose("arr", ARRS)
    ctx.choose("w", ["rand", "zero", "same"])
    ctx.choose("plan", ["none", "given"])
    c = ctx.case
    if c["plan"] == "given" and c["fun"] not in ("bary", "rand", "density") or c["w"] == "same" and c["ks"] != c["kt"] or c["w"] == "zero" and min(c["ks"], c["kt"]) == 1:
        ctx.prune()


def run_x(case):
    fun, ks, kt, d, arr = case["fun"], case["ks"], case["kt"], case["d"], case["arr"]
    nx, cv = backend(arr), conv(arr)
    f32 = arr == "torch32"
    e = 5e-3 if f32 else 1e-6
    ms, Cs, ws = mixture(0, ks, d)
    mt, Ct, wt = mixture(1, kt, d) if case["w"] != "same" else (ms.copy(), Cs.copy(), ws.copy())
    if case["w"] == "zero":
        ws, wt = ws * (np.arange(ks) != 0), wt * (np.arange(kt) != kt - 1)
        ws, wt = ws / ws.sum(), wt / wt.sum()
    args = [cv(z) for z in (ms, mt, Cs, Ct, ws, wt)]
    x = I.points("signed", 5, d, 9)
    D = ((ms[:, None] - mt[None]) ** 2).sum(-1) + np.array([[bures2(a, b) for b in Ct] for a in Cs])
    if fun == "pdf":
        for k in range(ks):
            near("logpdf", num(nx, Gm.gaussian_logpdf(cv(x), cv(ms[k]), cv(Cs[k]))), np.log(npdf(x, ms[k], Cs[k])), e)
            near("pdf", num(nx, Gm.gaussian_pdf(cv(x), cv(ms[k]), cv(Cs[k]))), npdf(x, ms[k], Cs[k]), e)
        ref = sum(w * npdf(x, m, C) for w, m, C in zip(ws, ms, Cs))
        near("mixture pdf", num(nx, Gm.gmm_pdf(cv(x), cv(ms), cv(Cs), cv(ws))), ref, e)
        x3 = x[:4].reshape(2, 2, d)
        near("mixture pdf", num(nx, Gm.gmm_pdf(cv(x3), cv(ms), cv(Cs), cv(ws))), ref[:4].reshape(2, 2), e)
        return "ok"
    if fun == "cost":
        got = num(nx, Gm.dist_bures_squared(*args[:4]))
        if got.shape != D.shape or np.abs(got - D).max() > e * (10 + D.max()) or got.min() < 0:
            raise Fail("cost", "%s, expected %s" % (got.tolist(), D.tolist()))
        return "ok"
    opt = oracle.transport_lp(ws, wt, D)
    if fun == "loss":
        for fl in (False, True):
            r = Gm.gmm_ot_loss(*args, log=fl)
            v = num(nx, r[0] if fl else r)
            if not abs(v - opt) <= e * (1 + opt):
                raise Fail("loss", "%g, expected %g" % (v, opt))
        return "ok"
    if fun == "plan":
        for fl in (False, True):
            r = Gm.gmm_ot_plan(*args, log=fl)
            P = num(nx, r[0] if fl else r)
            oracle.check_coupling(Fail, "plan", P, ws, wt, 1e-6)
            if not abs((P * D).sum() - opt) <= e * (1 + opt):
                raise Fail("plan", "cost %g, optimum %g" % ((P * D).sum(), opt))
        return "ok"
    P = num(nx, Gm.gmm_ot_plan(*args)) if case["plan"] == "none" else np.outer(ws, wt)
    kw = {} if case["plan"] == "none" else dict(plan=cv(P))
    T = lambda i, j, z: (z - ms[i]) @ bmap(Cs[i], Ct[j]) + mt[j]
    dens = np.array([npdf(x, ms[i], Cs[i]) for i in range(ks)])
    mix = ws @ dens
    if fun == "bary":
        out = num(nx, Gm.gmm_ot_apply_map(cv(x), *args, **kw))
        ref = sum((P[i, j] * dens[i] / mix)[:, None] * T(i, j, x) for i in range(ks) for j in range(kt) if P[i, j] > 0)
        near("barycentric", out, ref, 10 * e)
        if case["w"] == "same" and case["plan"] == "none":
            near("identity", out, x, 10 * e)
    elif fun == "rand":
        if arr in ("jax", "tf"):
            return "unsupported"
        prob = {(i, j): P[i, j] * dens[i] / mix for i in range(ks) for j in range(kt) if P[i, j] > 0}
        cnt = {k: np.zeros(len(x)) for k in prob}
        N = 80
        for s in range(N):
            out = num(nx, Gm.gmm_ot_apply_map(cv(x), *args, method="rand", seed=s, **kw))
            for q in range(len(x)):
                hit = [k for k in prob if np.abs(T(*k, x[q]) - out[q]).max() <= 10 * e * (1 + np.abs(out[q]).max())]
                if not hit:
                    raise Fail("random", "point %s sent to %s, which no map of the plan gives" % (x[q], out[q]))
                for k in hit:  # maps may coincide at a point
                    cnt[k][q] += 1
        law = {k: sum(prob[o] * (np.abs(T(*k, x) - T(*o, x)).max(1) <= 10 * e * (1 + np.abs(T(*k, x)).max(1))) for o in prob) for k in prob}
        for k in prob:
            # fixed seeds 0..79: a deterministic histogram of the documented law
            if not f32 and np.abs(cnt[k] / N - law[k]).max() > 0.25:
                raise Fail("random:law", "component %r drawn with frequencies %s, probabilities %s" % (k, cnt[k] / N, law[k]))
    else:
        y = np.vstack([T(0, 0, x[:2]), x[2:4], T(ks - 1, kt - 1, x[1:2])])
        for at in (1e-2, 0.7):
            got = num(nx, Gm.gmm_ot_plan_density(cv(x), cv(y), *args, atol=at, **kw))
            ref = np.zeros((len(x), len(y)))
            skip = np.zeros(ref.shape, bool)
            for i in range(ks):
                for j in range(kt):
                    dd = np.sqrt(((T(i, j, x)[:, None] - y[None]) ** 2).sum(-1))
                    skip |= abs(dd - at) < 1e-3
                    ref += P[i, j] * dens[i][:, None] * (dd < at)
            near("density", np.where(skip, 0, got), np.where(skip, 0, ref), 10 * e)
    return "ok"


def gen_fp(ctx):
    ctx.choose("proj", ["euclidean", "bures"])
    ctx.choose("n", [2, 1, 3])
    ctx.choose("K", [2, 1, 3])
    ctx.choose("d", [2, 1])
    ctx.choose("arr", ["C", "torch"])
    ctx.choose("wbar", ["none", "unif", "skew"])
    ctx.choose("lam", ["unif", "skew", "vertex"])
    ctx.choose("its", [1, 2, 6])
    ctx.choose("log", [False, True])


def run_fp(case):
    n, K, d, arr = case["n"], case["K"], case["d"], case["arr"]
    nx, cv = backend(arr), conv(arr)
    mix = [mixture(i % 2, (2, 3, 1)[i], d) for i in range(K)]
    m0, C0 = I.points("lcg", n, d, 8), np.stack([cov(("eye", "diag", "lcg")[i], d, 5) for i in range(n)])
    lam = dict(unif=np.ones(K) / K, skew=np.arange(1.0, K + 1) / np.arange(1.0, K + 1).sum(), vertex=np.eye(K)[0])[case["lam"]]
    wb = I.weights("lcg", n, 6) if case["wbar"] == "skew" else np.ones(n) / n
    mi, ci = cv(m0.copy()), cv(C0.copy())
    known = []
    r = Gm.gmm_barycenter_fixed_point([cv(z[0]) for z in mix], [cv(z[1]) for z in mix], [cv(z[2]) for z in mix], mi, ci, cv(lam), w_bar=None if case["wbar"] == "none" else cv(wb), iterations=case["its"], log=case["log"], barycentric_proj_method=case["proj"])
    if not (np.array_equal(num(nx, mi), m0) and np.array_equal(num(nx, ci), C0)):
        known.append(("fp:inputs", "the initial means or covariances were overwritten"))
    m, C = m0.copy(), C0.copy()
    its = [(m.copy(), C.copy())]
    for _ in range(case["its"]):
        P = [num(nx, Gm.gmm_ot_plan(cv(m), cv(z[0]), cv(C), cv(z[1]), cv(wb), cv(z[2]))) for z in mix]
        M2, S2 = np.empty_like(m), np.empty_like(C)
        for i in range(n):
            mm, cc = [], []
            for k, z in enumerate(mix):
                q = P[k][i] / wb[i]
                mm.append(q @ z[0])
                cc.append(np.einsum("j,jab->ab", q, z[1]) if case["proj"] == "euclidean" else barycov(z[1], q))
            M2[i], S2[i] = lam @ np.array(mm), barycov(np.array(cc), lam)
        m, C = M2, S2
        its.append((m.copy(), C.copy()))
    near("fp:means", num(nx, r[0]), m, 1e-5, "means of the barycenter")
    near("fp:covs", num(nx, r[1]), C, 1e-4, "covariances of the barycenter")
    if case["log"]:
        L = r[2]
        if len(L["means_its"]) != case["its"] + 1 or len(L["covs_its"]) != case["its"] + 1:
            raise Fail("fp:log", "%d iterates logged" % len(L["means_its"]))
        for (a, b), u, v in zip(its, L["means_its"], L["covs_its"]):
            near("fp:log", num(nx, u), a, 1e-5)
            near("fp:log", num(nx, v), b, 1e-4)
    return {"inner": 1, "outcome": "ok", "known": known}


def scopes(tier):
    return [
        Scope("pairs", gen_b, run_b, doc="every pair of covariances, dimensions, backends: distance, symmetry, optimal map"),
        Scope("batches", gen_m, run_m, doc="paired and all-pairs batches; triangle inequality"),
        Scope("empirical", gen_e, run_e, doc="empirical versions x weights x bias x regularisation"),
        Scope("gromov", gen_g, run_g, doc="Gaussian Gromov-Wasserstein over dimensions, rotations, signs"),
        Scope("barycenters", gen_bc, run_bc, doc="barycenters by every method against the fixed point"),
        Scope("mixtures", gen_x, run_x, doc="mixtures: densities, costs, plans, maps, plan densities"),
        Scope("mixture-barycenters", gen_fp, run_fp, doc="fixed-point barycenters of mixtures, iteration by iteration"),
    ]
