"""C29: learned projections and maps: FDA, WDA, PRW, EWCA, joint OT mappings, nearest Brenier potentials."""
BACKENDS = ("torch",)
OMP = 1
import contextlib
import io
import warnings

import numpy as np
import ot
import ot.dr
import scipy.linalg as sl

from mc import instances as I
from mc.engine import Fail, Scope

ASSUMPTIONS = ("samples of up to 12 x 4", "manifold optimisers are checked for descent, stationarity and the objective, not global optimality")


TIER = "quick"


def near(sig, got, want, tol, what):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape or not np.allclose(got, want, rtol=tol, atol=tol):
        raise Fail(sig, "%s %s, expected %s" % (what, got.round(6).tolist(), want.round(6).tolist()))


def lse(A, axis):
    m = A.max(axis, keepdims=True)
    return np.log(np.exp(A - m).sum(axis)) + m.squeeze(axis)


def sq(X, Y):
    return ((X[:, None] - Y[None]) ** 2).sum(-1)


def data(case):
    k, n, d = case["nc"], case["n"], case["d"]
    X = np.concatenate([I.points("lcg", n + (i if case["sizes"] == "ragged" else 0), d, 3 + 5 * i) + (i * np.arange(1, d + 1) % 3) for i in range(k)])
    y = np.concatenate([np.full(n + (i if case["sizes"] == "ragged" else 0), i) for i in range(k)])
    if case["shift"]:
        X = X + np.array([5.0, -3.0, 10.0, 1.0])[:d]
    if case["order"] == "mixed":
        o = np.argsort((np.arange(len(y)) * 7) % 11, kind="stable")
        X, y = X[o], y[o]
    if case["labels"] == "gaps":
        y = np.array([4, 1, 9, 20])[y]
    return X, y


def gen_data(ctx, small=False):
    ctx.choose("nc", [2, 3] if small else [2, 3, 4])
    d = ctx.choose("d", [2, 3, 4])
    ctx.choose("p", [p for p in (1, 2, 3) if p < d] if small else [1, 2, 3])
    ctx.dev("n", [6, 5, 9])
    ctx.dev("sizes", ["equal", "ragged"])
    ctx.dev("shift", [True, False])
    ctx.dev("order", ["sorted", "mixed"])
    ctx.dev("labels", ["0..", "gaps"])


def gen_fda(ctx):
    gen_data(ctx)
    ctx.choose("reg", [1e-16, 1e-3, 1.0])


def run_fda(case):
    X, y = data(case)
    keep = X.copy()
    P, proj = ot.dr.fda(X, y, case["p"], case["reg"])
    if not np.array_equal(X, keep):
        raise Fail("fda:inputs", "data changed")
    ks = np.unique(y)
    p = min(len(ks) - 1, case["p"])
    m = [X[y == k].mean(0) for k in ks]
    m0 = np.mean(m, 0)
    B = sum(np.outer(u - m0, u - m0) for u in m)
    W = sum(np.cov(X[y == k], rowvar=False) for k in ks) / len(ks) + case["reg"] * np.eye(case["d"])
    w = sl.eigh(B, W, eigvals_only=True)
    p = min(p, case["d"])
    if np.iscomplexobj(P) and np.abs(np.imag(P)).max() > 1e-6:
        raise Fail("fda:complex", "complex projection")
    P = np.real(P)
    if P.shape != (case["d"], p):
        raise Fail("fda:shape", "%s, expected %s" % (P.shape, (case["d"], p)))
    near("fda:norm", (P ** 2).sum(0), np.ones(p), 1e-6, "column norms")
    lam = np.array([(u @ B @ u) / (u @ W @ u) for u in P.T])
    # the float32 copies of the data limit the accuracy
    near("fda:values", np.sort(lam), w[-p:], 5e-4 * max(1.0, 0), "Rayleigh quotients")
    R = B @ P - (W @ P) * lam
    if np.abs(R).max() > 5e-4 * max(1, np.abs(B).max()):
        raise Fail("fda:eigen", "residual %g" % np.abs(R).max())
    Z = np.real(proj(X))
    near("fda:centre", Z.mean(0), np.zeros(p), 1e-7, "mean of the projected data")
    near("fda:proj", Z, (X - X.mean(0)) @ P, 1e-7, "projection")
    near("fda:new", np.real(proj(X[:2] + 1)), (X[:2] + 1 - X.mean(0)) @ P, 1e-7, "projection of new data")
    return {"outcome": "fda"}


def sink(w1, w2, M, reg, k):
    f, g = np.zeros(len(w1)), np.zeros(len(w2))
    for _ in range(k):
        g = np.log(w2) - lse(-M / reg + f[:, None], 0)
        f = np.log(w1) - lse(-M / reg + g[None], 1)
    return np.exp(f[:, None] + g[None] - M / reg)


def wda_loss(X, y, P, reg, k, P0=None):
    xs = [X[y == c] for c in np.unique(y)]
    b = w = 0
    for i in range(len(xs)):
        for j in range(i, len(xs)):
            M = sq(xs[i] @ P, xs[j] @ P)
            r = reg if P0 is None else reg * sq(xs[i] @ P0, xs[j] @ P0).mean()
            v = (sink(np.full(len(xs[i]), 1 / len(xs[i])), np.full(len(xs[j]), 1 / len(xs[j])), M, r, k) * M).sum()
            if i == j:
                w += v
            else:
                b += v
    return w / b


def gen_wda(ctx):
    gen_data(ctx, TIER == "quick")
    ctx.choose("method", ["sinkhorn", "sinkhorn_log"])
    ctx.dev("normalize", [False, True])
    ctx.dev("k", [5, 1, 2, 10])
    ctx.dev("reg", [1.0, 10.0])
    ctx.dev("solver", [None, "tr"])
    ctx.dev("its", [60, 1, 5])


def run_wda(case):
    if case["p"] >= case["d"]:
        return {"outcome": "skip"}
    X, y = data(case)
    d, p = case["d"], case["p"]
    keep = X.copy()
    P0 = np.linalg.qr(I.points("lcg", d, p, 9) + np.eye(d)[:, :p])[0]
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        P, proj = ot.dr.wda(X, y, p, case["reg"], case["k"], solver=case["solver"], sinkhorn_method=case["method"], maxiter=case["its"], P0=P0, normalize=case["normalize"])
    if not np.array_equal(X, keep):
        raise Fail("wda:inputs", "data changed")
    near("wda:stiefel", P.T @ P, np.eye(p), 1e-7, "P^T P")
    near("wda:proj", proj(X[:3] + 1), (X[:3] + 1 - X.mean(0)) @ P, 1e-6, "projection")
    f = lambda Q: wda_loss(X - X.mean(0), y, Q, case["reg"], case["k"], P0 if case["normalize"] else None)
    v0, v1 = f(P0), f(P)
    if not v1 <= v0 + 1e-7:
        raise Fail("wda:descent", "objective %g at the start, %g at the end" % (v0, v1))
    # Riemannian gradient: derivative along rotations
    g, h = [], 1e-4
    for a in range(d):
        for b in range(a):
            A = np.zeros((d, d))
            A[a, b], A[b, a] = 1, -1
            g.append((f(sl.expm(h * A) @ P) - f(sl.expm(-h * A) @ P)) / (2 * h))
    g0 = np.abs([(f(sl.expm(h * A) @ P0) - f(sl.expm(-h * A) @ P0)) / (2 * h) for A in [np.outer(np.eye(d)[a], np.eye(d)[b]) - np.outer(np.eye(d)[b], np.eye(d)[a]) for a in range(d) for b in range(a)]]).max()
    if case["its"] >= 60 and np.abs(g).max() > 2e-3 + 0.02 * g0:
        raise Fail("wda:stationary", "gradient %s (%g at the start)" % (np.round(g, 5).tolist(), g0))
    if case["its"] < 60 and g0 > 1e-3 and not v1 < v0:
        raise Fail("wda:progress", "no progress in %d iterations" % case["its"])
    return {"outcome": "wda"}


def gen_prw(ctx):
    ctx.choose("n", [(5, 4), (1, 3), (3, 1), (4, 6), (1, 1)])
    ctx.choose("dk", [(3, 1), (3, 2), (4, 2), (2, 1)])
    ctx.choose("its", [1, 2, 3, 7, 400])
    ctx.choose("w", ["uniform", "lcg"])
    ctx.dev("reg", [2.0, 0.7, 20.0])
    ctx.dev("tau", [0.05, 0.01])
    ctx.dev("init", ["given", "seed", "state"])
    ctx.dev("thr", [1e-9, 1e-3])


def run_prw(case):
    (n, m), (d, k) = case["n"], case["dk"]
    X, Y = I.points("lcg", n, d, 1), I.points("lcg", m, d, 30) + 0.5
    a, b = I.weights(case["w"], n, 0), I.weights(case["w"], m, 1)
    U0 = np.linalg.qr(np.random.RandomState(5).randn(d, k))[0]
    kw = dict(U0=U0) if case["init"] == "given" else dict(random_state=5 if case["init"] == "seed" else np.random.RandomState(5))
    reg, tau = case["reg"], case["tau"]
    keep = [v.copy() for v in (X, Y, a, b, U0)]
    pi, U = ot.dr.projection_robust_wasserstein(X, Y, a, b, tau, reg=reg, k=k, stopThr=case["thr"], maxiter=case["its"], **kw)
    if not all(np.array_equal(p, q) for p, q in zip(keep, (X, Y, a, b, U0))):
        raise Fail("prw:inputs", "inputs changed")
    # the documented rounds: one Sinkhorn update, one Riemannian gradient step retracted by QR
    V, u, st = U0, np.ones(n) / n, False
    for it in range(case["its"]):
        Kp = np.exp(-sq(X @ V, Y @ V) / reg)
        v = b / (Kp.T @ u)
        u = a / (Kp @ v)
        G = u[:, None] * Kp * v
        S = sum(G[i, j] * np.outer(X[i] - Y[j], X[i] - Y[j]) for i in range(n) for j in range(m))
        g = 2 / reg * S @ V
        xi = g - V @ (g.T @ V + V.T @ g) / 2
        V = np.linalg.qr(V + tau * xi)[0]
        if max(reg * np.linalg.norm(xi), np.abs(G.sum(0) - b).sum()) <= case["thr"]:
            st = True
            break
    near("prw:plan", pi, G, 1e-6, "plan")
    near("prw:subspace", U @ U.T, V @ V.T, 1e-5, "projector")
    near("prw:stiefel", U.T @ U, np.eye(k), 1e-9, "U^T U")
    near("prw:rows", pi.sum(1), a, 1e-9, "source marginal")
    if st:
        near("prw:columns", pi.sum(0), b, 2 * case["thr"] + 1e-9, "target marginal")
        ev = np.trace(U.T @ S @ U)
        if ev > np.linalg.eigvalsh(S)[-k:].sum() + 1e-6:
            raise Fail("prw:value", "impossible value")
    return {"outcome": str(st), "states": it + 1}


def gen_ew(ctx):
    ctx.choose("n", [6, 3, 9])
    ctx.choose("dk", [(3, 1), (3, 2), (4, 2), (2, 1), (3, 3)])
    ctx.choose("method", ["BCD", "MM"])
    ctx.choose("its", [1, 2, 3, 6])
    ctx.choose("init", ["pca", "given"])
    ctx.dev("reg", [1.0, 0.3, 5.0])
    ctx.dev("sink", ["sinkhorn", "sinkhorn_log"])
    ctx.dev("mm", [10, 1, 3])
    ctx.dev("shift", [True, False])


def run_ew(case):
    n, (d, k) = case["n"], case["dk"]
    X = I.points("lcg", n, d, 4) + (3 * np.arange(d) if case["shift"] else 0)
    if k > min(n, d):
        return {"outcome": "skip"}
    Z = X - X.mean(0)
    U0 = np.linalg.qr(I.points("lcg", d, k, 7) + np.eye(d)[:, :k])[0]
    keep = X.copy(), U0.copy()
    kw = dict(reg=case["reg"], k=k, method=case["method"], sinkhorn_method=case["sink"], stopThr=0, maxiter_sink=20000, maxiter_MM=case["mm"])
    f = lambda its: ot.dr.ewca(X, U0=U0 if case["init"] == "given" else None, maxiter=its, **kw)
    pi, U = f(case["its"])
    if not (np.array_equal(X, keep[0]) and np.array_equal(U0, keep[1])):
        raise Fail("ewca:inputs", "inputs changed")
    near("ewca:stiefel", U.T @ U, np.eye(k), 1e-7, "U^T U")
    if case["its"] == 1:
        V = U0 if case["init"] == "given" else np.linalg.svd(Z, full_matrices=False)[2][:k].T
    else:
        V = f(case["its"] - 1)[1]
    # the plan of one round is the entropic plan between the samples and their projections in the previous subspace
    M = sq(Z, Z @ V @ V.T)
    w = np.full(n, 1 / n)
    G = sink(w, w, M, case["reg"], 3000)
    near("ewca:plan", pi, G, 1e-5, "plan")
    # given the plan, the objective is constant - tr U^T S U
    S = Z.T @ (pi + pi.T - np.eye(n) / n) @ Z
    obj = lambda Q: (pi * sq(Z, Z @ Q @ Q.T)).sum()
    near("ewca:objective", obj(U) - obj(V), np.trace(V.T @ S @ V) - np.trace(U.T @ S @ U), 1e-8, "objective difference")
    if obj(U) > obj(V) + 1e-9:
        raise Fail("ewca:descent", "objective %g after %g" % (obj(U), obj(V)))
    best = np.linalg.eigvalsh(S)[-k:].sum()
    if case["method"] == "BCD":
        near("ewca:optimal", np.trace(U.T @ S @ U), best, 1e-7, "projected objective")
    else:
        gap0, gap = best - np.trace(V.T @ S @ V), best - np.trace(U.T @ S @ U)
        if np.linalg.norm(S @ V - V @ (V.T @ S @ V)) > 1e-3 and not gap < gap0 * (1 - 1e-9):
            raise Fail("ewca:progress", "no progress of the MM iterations: %g to %g" % (gap0, gap))
        # iterations of majorization-minimization documented in the paper, from the same start
        lp = np.linalg.eigvalsh((pi + pi.T) / 2)[0]
        scm = np.linalg.eigvalsh(Z.T @ Z / n)[-1] * (n / (n - 1) if case["init"] == "pca" else 1)
        Q = V
        for _ in range(case["mm"]):
            R = Z.T @ Z @ Q / n
            al = 1 - 2 * n * lp
            R = al * (R - scm * Q) if al > 0 else al * R
            Q = np.linalg.qr(R - 2 * Z.T @ ((pi + pi.T) / 2 @ (Z @ Q)) + 2 * lp * Z.T @ Z @ Q)[0]
        near("ewca:mm", U @ U.T, Q @ Q.T, 1e-5, "projector")
    return {"outcome": case["method"]}


def gen_j(ctx):
    ctx.choose("n", [(5, 4), (4, 4), (1, 3), (3, 1), (6, 5), (1, 1)])
    ctx.choose("kind", ["linear", "gaussian"])
    ctx.choose("bias", [False, True])
    ctx.choose("mu", [1.0, 0.1, 30.0])
    ctx.choose("eta", [1e-3, 1.0])
    ctx.dev("its", [200, 0, 1, 2])
    ctx.dev("d", [2, 1, 3])
    ctx.dev("sigma", [1.0, 0.4])
    ctx.dev("inner", [10, 1, 60])
    ctx.dev("arr", ["C", "torch", "strided", "list"])
    ctx.dev("far", [False, True])


def run_j(case):
    (n, m), d, mu, eta, bias = case["n"], case["d"], case["mu"], case["eta"], case["bias"]
    X, Y = I.points("lcg", n, d, 2), I.points("lcg", m, d, 50) * 1.5 + 0.7
    if case["far"]:
        Y = Y + 4
    if case["arr"] == "torch":
        import torch

        x, y = torch.tensor(X), torch.tensor(Y)
    elif case["arr"] == "strided":
        x, y = np.asfortranarray(X), np.repeat(Y, 2, 0)[::2]
    elif case["arr"] == "list":
        x, y = X.tolist(), Y.tolist()
    else:
        x, y = X, Y
    kw = dict(mu=mu, eta=eta, bias=bias, numItermax=case["its"], numInnerItermax=case["inner"], stopInnerThr=1e-12, stopThr=1e-12, log=True)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if case["kind"] == "linear":
            G, L, log = ot.mapping.joint_OT_mapping_linear(x, y, **kw)
            F = np.hstack([X, np.ones((n, 1))]) if bias else X
            T = np.zeros((F.shape[1], d))
            T[:d] = np.eye(d)
            J = np.diag([1.0] * d + [0.0] * bias)
            pen = lambda L: eta * ((L - T)[:d] ** 2).sum()
            opt = lambda Z: np.linalg.solve(F.T @ F + eta * J, F.T @ Z + eta * J @ T)
        else:
            G, L, log = ot.mapping.joint_OT_mapping_kernel(x, y, sigma=case["sigma"], **kw)
            K = np.exp(-sq(X, X) / (2 * case["sigma"] ** 2))
            F = np.hstack([K, np.ones((n, 1))]) if bias else K
            J = np.zeros((F.shape[1],) * 2)
            J[:n, :n] = K
            if bias:
                J[-1, -1] = 1
            pen = lambda L: eta * np.trace(L.T @ J @ L)
            opt = lambda Z: np.linalg.lstsq(F.T @ F + eta * J, F.T @ Z, rcond=None)[0]
    G, L = np.asarray(G), np.asarray(L)
    vals = [float(v) for v in log["loss"]]
    M = sq(X, Y) * n
    near("joint:rows", G.sum(1), np.full(n, 1 / n), 1e-9, "source marginal")
    near("joint:columns", G.sum(0), np.full(m, 1 / m), 1e-9, "target marginal")
    if G.min() < -1e-12:
        raise Fail("joint:sign", "negative plan")
    Z = n * G @ Y
    obj = lambda L, G: ((F @ L - n * G @ Y) ** 2).sum() + mu * (G * M).sum() + pen(L)
    sc = 1 + abs(vals[0])
    near("joint:loss", vals[-1] / sc, obj(L, G) / sc, 1e-9, "reported loss")
    Lo = opt(Z)
    if obj(L, G) > obj(Lo, G) + 1e-6 * sc:
        raise Fail("joint:map", "objective %g of the map, %g of the best map for the plan" % (obj(L, G), obj(Lo, G)))
    if any(q > p + 1e-7 * sc for p, q in zip(vals, vals[1:])):
        raise Fail("joint:descent", "losses %s" % vals)
    if case["its"] == 0:
        near("joint:start", (G * M).sum(), ot.emd2([], [], M), 1e-9, "cost of the initial plan")
    if len(vals) != 1 + min(case["its"], len(vals) - 1) or (case["its"] < 5 and len(vals) > 1 + case["its"]):
        raise Fail("joint:its", "%d losses for %d iterations" % (len(vals), case["its"]))
    # stationarity of the plan: gap of the linearised problem
    if case["its"] == 200 and len(vals) < 200:
        D = mu * M - 2 * n * (F @ L - Z) @ Y.T
        gap = (D * G).sum() - ot.emd2([], [], np.ascontiguousarray(D))
        if gap > 2e-2 * sc:
            raise Fail("joint:stationary", "gap %g" % gap)
    return {"outcome": case["kind"], "states": len(vals)}


def gen_b(ctx):
    ctx.choose("n", [3, 4, 1])
    ctx.choose("d", [1, 2])
    ctx.choose("lip", [(0.6, 1.4), (0.1, 3.0)])
    ctx.choose("classes", [None, "two"])
    ctx.choose("init", ["barycentric", "target"])
    ctx.choose("its", [1, 3])
    ctx.dev("w", ["uniform", "lcg"])
    ctx.dev("arr", ["C", "torch"])


def inter(c, x, y, px, gx, py, gy):
    """smallest slack of the interpolation condition phi(x) >= phi(y) + ..."""
    l, L = c
    k = 1 / (2 * (1 - l / L))
    return px - (py + gy @ (x - y) + k * (((gx - gy) ** 2).sum() / L + l * ((x - y) ** 2).sum() - 2 * l / L * (gy - gx) @ (y - x)))


def run_b(case):
    n, d, (l, L) = case["n"], case["d"], case["lip"]
    X, V = I.points("lcg", n, d, 3), I.points("lcg", n, d, 60) * 2
    a, b = (None, None) if case["w"] == "uniform" else (I.weights("lcg", n, 0), I.weights("lcg", n, 1))
    cl = None if case["classes"] is None else np.arange(n) % 2
    z = [X, V, a, b, cl]
    if case["arr"] == "torch":
        import torch

        z = [None if v is None else torch.tensor(v) for v in z]
    phi, G, log = ot.mapping.nearest_brenier_potential_fit(z[0], z[1], X_classes=z[4], a=z[2], b=z[3], strongly_convex_constant=l, gradient_lipschitz_constant=L, its=case["its"], log=True, init_method=case["init"])
    phi, G = np.asarray(phi), np.asarray(G)
    cl = np.zeros(n) if cl is None else cl
    for i in range(n):
        for j in range(n):
            if cl[i] == cl[j] and inter((l, L), X[i], X[j], phi[i], G[i], phi[j], G[j]) < -1e-5:
                raise Fail("brenier:constraint", "potential is not %s-smooth and convex between %d and %d" % ((l, L), i, j))
    wa, wb = (np.full(n, 1 / n),) * 2 if a is None else (a, b)
    vs = [it["value"] for it in log["its"]]
    if len(vs) != case["its"] or not np.array_equal(np.asarray(log["G_list"][-1]), G):
        raise Fail("brenier:log", "%d iterations logged" % len(vs))
    costs = [ot.emd2(wa, wb, sq(np.asarray(g), V)) for g in log["G_list"]]
    for i in range(len(vs)):
        if costs[i] > vs[i] + 1e-5:
            raise Fail("brenier:value", "cost %g of the gradients above the value %g" % (costs[i], vs[i]))
        if i and vs[i] > costs[i - 1] + 1e-5:
            raise Fail("brenier:descent", "value %g after cost %g" % (vs[i], costs[i - 1]))
    # the value of the first round is the optimum of its projection: first order conditions along feasible competitors
    G0 = V if case["init"] == "target" else ot.emd(wa, wb, sq(X, V)) @ V / wa[:, None]
    plan = ot.emd(wa, wb, sq(G0, V))
    obj = lambda g: (plan * sq(g, V)).sum()
    g1 = np.asarray(log["G_list"][0])
    near("brenier:objective", vs[0], obj(g1), 1e-4, "value of the first round")
    comps = [s * X + t for s in np.linspace(l, L, 5) for t in (np.zeros(d), V.mean(0) - s * X.mean(0))]  # gradients of s|x|^2/2 + t.x
    comps += [g1 + e * (c - g1) for c in comps for e in (0.1,)]
    for c in comps:  # a convex set: competitors cannot be better
        if obj(c) < vs[0] - 1e-4:
            raise Fail("brenier:optimal", "a feasible competitor has value %g, reported %g" % (obj(c), vs[0]))
    out = ot.mapping.nearest_brenier_potential_predict_bounds(X, phi, G, np.concatenate([X, X.mean(0)[None] + 0.3]), X_classes=None if case["classes"] is None else cl, Y_classes=None if case["classes"] is None else np.append(cl, 0), strongly_convex_constant=l, gradient_lipschitz_constant=L)
    p, q = (np.asarray(v) for v in out)
    if (p[0] > p[1] + 1e-4).any():
        raise Fail("brenier:bounds", "lower bounds %s, upper bounds %s" % (p[0].tolist(), p[1].tolist()))
    near("brenier:interpolation", p[0, :n], phi, 2e-3, "lower bound at the data")
    near("brenier:interpolation", p[1, :n], phi, 2e-3, "upper bound at the data")
    YY = np.append(X, [X.mean(0) + 0.3], 0)
    cy = np.append(cl, 0)
    for s in range(2):
        for t in range(n + 1):
            for j in range(n):
                if cl[j] == cy[t]:
                    e = inter((l, L), YY[t], X[j], p[s, t], q[s, t], phi[j], G[j]) if s == 0 else inter((l, L), X[j], YY[t], phi[j], G[j], p[s, t], q[s, t])
                    if e < -1e-4:
                        raise Fail("brenier:bound-constraint", "bound %d at %d violates its constraint by %g" % (s, t, e))
    return {"outcome": "ok", "inner": n + 1}


def scopes(tier):
    return [
        Scope("fda", gen_fda, run_fda, dev=2, thorough_dev=5, doc="Fisher projections against the generalised eigenproblem"),
        Scope("wda", gen_wda, run_wda, dev=1, thorough_dev=2, doc="WDA: objective, descent, stationarity, orthonormality"),
        Scope("prw", gen_prw, run_prw, dev=1, thorough_dev=4, doc="projection robust Wasserstein: every budget against the documented rounds"),
        Scope("ewca", gen_ew, run_ew, dev=1, thorough_dev=4, doc="EWCA: plan and subspace updates of every round"),
        Scope("joint", gen_j, run_j, dev=1, thorough_dev=2, doc="joint mappings: plans, maps, losses, descent, stationarity"),
        Scope("brenier", gen_b, run_b, dev=1, thorough_dev=2, doc="nearest Brenier potentials: constraints, values, bounds"),
    ]
