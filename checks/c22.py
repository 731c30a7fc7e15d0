"""C22: utilities: distances, projections, lazy tensors, list inputs, scalers, estimator parameters, data sets."""
BACKENDS = ("torch", "jax", "tf")
OMP = 1
import itertools
import warnings

import numpy as np
import ot
import ot.utils as U
from scipy.spatial.distance import cdist

from checks.c14 import backend, conv, num
from checks.c15 import call
from mc import calls
from mc import instances as I
from mc.engine import Fail, Scope

ASSUMPTIONS = ("values of moderate size; integer inputs of 64 bits",)
ARRS = ["C", "F", "strided", "reversed", "torch", "jax", "tf", "torch32", "int"]


def mk(arr):
    if arr == "int":
        return backend("C"), lambda z: np.asarray(np.round(z), np.int64)
    return backend(arr), conv(arr)


# ---- distances
METRICS = ["sqeuclidean", "euclidean", "cityblock", "minkowski", "wminkowski", "cosine", "correlation", "chebyshev", "canberra", "braycurtis", "callable"]


def gen_d(ctx):
    ctx.choose("metric", METRICS)
    ctx.choose("arr", ARRS)
    ctx.choose("shape", [(3, 4), (1, 1), (4, 1), (1, 3), (11, 12), (3, 3)])
    ctx.choose("d", [2, 1, 5])
    ctx.dev("pts", ["signed", "lcg", "grid", "dup", "zerorow"])
    ctx.dev("p", [2, 1, 3, 1.5, 0.5])
    ctx.dev("tensor", [False, True])
    ctx.dev("second", ["given", "none", "same"])
    ctx.dev("how", ["auto", "scipy", "nx"])
    c = ctx.case
    if c["p"] != 2 and "minkowski" not in c["metric"] or c["metric"] in METRICS[7:] and c["arr"] in ("torch", "jax", "tf", "torch32") or c["how"] == "scipy" and c["metric"] == "callable":
        ctx.prune()


def dist_ref(X, Y, metric, p, w):
    if metric == "callable":
        return np.array([[abs(x - y).max() + 1 for y in Y] for x in X])
    D = np.empty((len(X), len(Y)))
    for i, x in enumerate(X):
        for j, y in enumerate(Y):
            z = abs(x - y)
            if metric in ("sqeuclidean", "euclidean"):
                v = (z ** 2).sum() ** (1 if metric[0] == "s" else 0.5)
            elif metric == "cityblock":
                v = z.sum()
            elif metric == "minkowski":
                v = (z ** p).sum() ** (1 / p)
            elif metric == "wminkowski":
                v = (w * z ** p).sum() ** (1 / p)
            elif metric == "cosine":
                v = 1 - x @ y / np.sqrt((x @ x) * (y @ y))
            elif metric == "correlation":
                a, b = x - x.mean(), y - y.mean()
                v = 1 - a @ b / np.sqrt((a @ a) * (b @ b))
            elif metric == "chebyshev":
                v = z.max()
            elif metric == "canberra":
                s = abs(x) + abs(y)
                v = (np.where(s > 0, z, 0) / np.where(s > 0, s, 1)).sum()
            else:
                v = z.sum() / abs(x + y).sum()
            D[i, j] = v
    return D


def run_d(case):
    metric, arr, (n, m), d, p = (case[k] for k in ("metric", "arr", "shape", "d", "p"))
    nx, cv = mk(arr)
    f32 = arr == "torch32"
    X, Y = (I.points(case["pts"] if case["pts"] != "zerorow" else "signed", k, d, s) for k, s in ((n, 1), (m, 2)))
    if case["pts"] == "zerorow":
        X[0] = 0
    if arr == "int":
        X, Y = np.round(3 * X), np.round(3 * Y)
    if case["pts"] in ("zerorow", "grid", "dup") and metric in ("cosine", "correlation", "braycurtis") or metric in ("correlation",) and d < 3 or arr == "int" and metric in ("cosine", "correlation", "braycurtis"):
        return "n/a"
    if case["how"] == "scipy" and p < 1 or (metric == "callable" and case["tensor"]):
        return "n/a"
    w = I.points("lcg", d, 1, 5)[:, 0] + 0.1
    name = "minkowski" if metric == "wminkowski" else (lambda x, y: abs(x - y).max() + 1) if metric == "callable" else metric
    kw = dict(metric=name)
    if "minkowski" in metric:
        kw["p"] = p
    if metric == "wminkowski":
        kw["w"] = w if case["how"] == "scipy" or arr == "int" else cv(w)
    if case["tensor"]:
        kw["use_tensor"] = True
    if case["how"] == "scipy":
        kw["backend"] = "scipy"
    if case["how"] == "nx":
        kw["nx"] = nx
    x = cv(X)
    args = [x] if case["second"] == "none" else [x, x] if case["second"] == "same" else [x, cv(Y)]
    if case["second"] != "given":
        Y = X
    with np.errstate(all="ignore"):
        D = U.dist(*args, **kw)
        R = dist_ref(X, Y, metric, p, w)
    o = num(nx, D)
    tag = metric
    if o.shape != R.shape:
        raise Fail("shape:" + tag, "shape %r" % (o.shape,))
    e = (2e-3 if metric == "euclidean" else 2e-5) if f32 else 1e-6 if metric in ("euclidean",) else 1e-10
    if not np.abs(o - R).max() <= e * max(1, np.abs(R).max()):
        raise Fail("value:" + tag, "%s for %s" % (o.tolist(), R.tolist()))
    if metric in ("sqeuclidean", "euclidean", "cityblock", "minkowski", "chebyshev") and (o.min() < 0 or case["second"] != "given" and metric != "sqeuclidean" and np.abs(np.diag(o)).max() > 0):
        raise Fail("metric:" + tag, "negative distances or a non-zero diagonal")
    if f32 and case["how"] != "scipy" and "float32" not in str(D.dtype):
        raise Fail("dtype:" + tag, "distances of type %s" % D.dtype)
    return "ok"


# ---- projections
def gen_p(ctx):
    ctx.choose("fun", ["simplex", "simplex2", "sparse1", "sparse_ax0", "sparse_ax1", "sparse_none", "sdp", "sdp_batch"])
    ctx.choose("arr", ["C", "strided", "torch", "jax", "tf", "torch32"])
    ctx.choose("pts", ["lcg", "signed", "grid", "dup", "big", "const"])
    ctx.choose("z", [1, 2.5, "array"])
    ctx.choose("k", [2, 1, 3, 9])
    ctx.choose("shape", [(4, 3), (1, 1), (1, 4), (5, 1)])
    c = ctx.case
    if c["k"] != 2 and "sparse" not in c["fun"] or c["z"] == "array" and c["fun"] not in ("sparse_ax0", "sparse_ax1") or "sdp" in c["fun"] and c["z"] == 2.5 or c["arr"] == "tf" and "sparse" in c["fun"]:
        ctx.prune()


def simplex_ref(v, z, k=None):
    """Projection on {w >= 0, sum w = z, at most k non-zeros} by enumeration of the supports."""
    n = len(v)
    best, arg = np.inf, None
    for r in range(1, min(k or n, n) + 1):
        for S in itertools.combinations(range(n), r):
            S = list(S)
            w = np.zeros(n)
            w[S] = v[S] + (z - v[S].sum()) / r
            if w.min() < -1e-12:
                continue
            f = ((w - v) ** 2).sum()
            if f < best - 1e-13:
                best, arg = f, w
    return arg, best


def run_p(case):
    fun, arr, k = case["fun"], case["arr"], case["k"]
    n, d = case["shape"]
    nx, cv = mk(arr)
    f32 = arr == "torch32"
    e = 2e-3 if f32 else 1e-7
    V = 1e3 * I.points("signed", n, d, 3) if case["pts"] == "big" else np.full((n, d), 0.7) if case["pts"] == "const" else I.points(case["pts"], n, d, 3)
    if "sdp" in fun:
        s = [x.T @ np.diag(np.arange(len(x)) - 0.7) @ x for x in (V, V[::-1] + 0.1, 2 * V)]
        S = s[0] if fun == "sdp" else np.stack(s)
        vmin = 0.0 if case["z"] == 1 else 0.3
        o = num(nx, U.proj_SDP(cv(S), vmin=vmin))
        for A, P in zip(s, o[None] if fun == "sdp" else o):
            w, Q = np.linalg.eigh(A)
            R = (Q * np.maximum(w, vmin)) @ Q.T
            if np.abs(R - P).max() > e * max(1, np.abs(A).max()):
                raise Fail("sdp", "not the projection: %s for %s" % (P.tolist(), R.tolist()))
        return "ok"
    z = case["z"] if case["z"] != "array" else 1 + I.points("lcg", d if fun == "sparse_ax0" else n, 1, 7)[:, 0]
    zz = cv(z) if case["z"] == "array" else z
    with np.errstate(all="ignore"):
        if fun == "simplex":
            o, vs, zs = num(nx, U.proj_simplex(cv(V[:, 0].copy()), z))[None], [V[:, 0]], [z]
        elif fun == "simplex2":
            o, vs, zs = num(nx, U.proj_simplex(cv(V), z)).T, list(V.T), [z] * d
        elif fun == "sparse1":
            o, vs, zs = num(nx, U.projection_sparse_simplex(cv(V[:, 0].copy()), k, z))[None], [V[:, 0]], [z]
        elif fun == "sparse_none":
            o, vs, zs = num(nx, U.projection_sparse_simplex(cv(V), k, z)).ravel()[None], [V.ravel()], [z]
        else:
            ax = int(fun[-1])
            o = num(nx, U.projection_sparse_simplex(cv(V), k, zz, axis=ax))
            o, vs = (o.T, list(V.T)) if ax == 0 else (o, list(V))
            zs = list(z) if case["z"] == "array" else [z] * len(vs)
    for w, v, t in zip(o, vs, zs):
        if len(v) > 12 and "sparse" in fun:
            continue
        R, best = simplex_ref(v, t, k if "sparse" in fun else None)
        sc = max(1.0, np.abs(v).max())
        if w.shape != v.shape or w.min() < -e * sc or abs(w.sum() - t) > e * sc or "sparse" in fun and (w > e * sc).sum() > k or ((w - v) ** 2).sum() > best + e * sc ** 2:
            raise Fail("projection:" + fun, "%r for %r (sum %g), expected %r" % (w.tolist(), v.tolist(), t, R.tolist()))
    return "ok"


# ---- helpers
def gen_h(ctx):
    ctx.choose("fun", ["unif", "laplacian", "kernel", "dots", "labels", "masks", "clean", "circle", "pair", "finite", "norm", "sparse_dist", "exp_bures", "seed", "threads", "dist0", "median"])
    ctx.choose("arr", ["C", "strided", "torch", "jax", "tf", "torch32"])
    ctx.choose("n", [4, 1, 7])
    ctx.choose("v", [0, 1, 2])


def run_h(case):
    fun, arr, n, v = case["fun"], case["arr"], case["n"], case["v"]
    nx, cv = mk(arr)
    f32 = arr == "torch32"
    N = lambda x: num(nx, x)
    e = 1e-4 if f32 else 1e-9
    X, Y = I.points("signed", n, 2, v + 1), I.points("lcg", n + v, 2, v + 4)

    def eq(x, y, what=fun):
        if np.shape(x) != np.shape(y) or not np.allclose(x, y, atol=e, rtol=e):
            raise Fail("helper:" + what, "%r for %r" % (np.asarray(x).tolist(), np.asarray(y).tolist()))
    if fun == "unif":
        u = U.unif(n, type_as=cv(X))
        eq(N(u), np.ones(n) / n)
        if f32 and "32" not in str(u.dtype):
            raise Fail("helper:unif", "type %s" % u.dtype)
        eq(U.unif(n), np.ones(n) / n)
    elif fun == "laplacian":
        S = cdist(X, X)
        eq(N(U.laplacian(cv(S))), np.diag(S.sum(0)) - S)
    elif fun == "kernel":
        s = [1, 0.5, 3.0][v]
        for m in ("gaussian", "gauss", "rbf"):
            eq(N(U.kernel(cv(X), cv(Y), method=m, sigma=s)), np.exp(-cdist(X, Y, "sqeuclidean") / (2 * s * s)))
    elif fun == "dots":
        A, B = Y.T @ Y, X.T @ X
        eq(N(U.dots(cv(X), cv(A), cv(B))), X @ A @ B)
    elif fun in ("labels", "masks"):
        y = np.array([[3, 1, 2], [-1, 5, 5], [0, 0, 0]][v] * n)[:n]
        yc = cv(y.astype(float))
        if fun == "labels":
            for s in (0, 1, -2):
                eq(N(U.label_normalization(yc, start=s)), y - y.min() + s)
        else:
            u = sorted(set(y.tolist()))
            eq(N(U.labels_to_masks(yc)), np.array([[1.0 * (c == k) for k in u] for c in y]))
            M = U.labels_to_masks(yc, type_as=cv(X))
            if f32 and "32" not in str(M.dtype):
                raise Fail("helper:masks", "type %s" % M.dtype)
    elif fun == "clean":
        if arr not in ("C", "strided"):
            return "n/a"
        a, b = I.weights("zeros", n), I.weights(["uniform", "zeros", "dirac"][v], n + 1)
        M = I.cost("lcg", n, n + 1, v)
        a2, b2, M2 = U.clean_zeros(cv(a), cv(b), cv(M))
        for x, y in ((a2, a[a > 0]), (b2, b[b > 0]), (M2, M[a > 0][:, b > 0])):
            eq(x, y)
        if np.shares_memory(M2, M):
            raise Fail("helper:clean", "shares memory")
    elif fun == "circle":
        t = (np.arange(n) + 0.3 + 0.1 * v) / n
        z = np.stack([np.cos(2 * np.pi * t), np.sin(2 * np.pi * t)], 1) * (1 + v)
        got = N(U.get_coordinate_circle(cv(z)))
        if got.shape != t.shape or np.abs((got - t + 0.5) % 1 - 0.5).max() > 1e-6 or got.min() < 0 or got.max() > 1:
            raise Fail("helper:circle", "%r for %r" % (got.tolist(), t.tolist()))
    elif fun == "pair":
        if arr != "C":
            return "n/a"
        for q, w in ((1.5, (1.5, 1.5)), (2, (2, 2)), ((3.0,), (3.0, 3.0)), ([1, 2], (1, 2)), (np.array([4.0, 5.0]), (4.0, 5.0)), (np.array([4.0]), (4.0, 4.0)), (float("inf"), (np.inf, np.inf)), (np.float64(2.5), (2.5, 2.5))):
            if tuple(U.get_parameter_pair(q)) != w:
                raise Fail("helper:pair", "%r for %r" % (U.get_parameter_pair(q), q))
        try:
            U.get_parameter_pair((1, 2, 3))
        except ValueError:
            return "ok"
        raise Fail("helper:pair", "three parameters accepted")
    elif fun == "finite":
        for bad in (None, np.nan, np.inf, -np.inf):
            Z = X.copy()
            if bad is not None:
                Z[n // 2, v % 2] = bad
            if bool(U.is_all_finite(cv(Y), cv(Z))) != (bad is None) or bool(U.is_all_finite(cv(Z))) != (bad is None):
                raise Fail("helper:finite", "wrong for %r" % bad)
    elif fun in ("norm", "median"):
        M = I.cost("lcg", n, n + v, 3)
        for k in ("median", "max", "log", "loglog", None):
            C, q = U.cost_normalization(cv(M), k, return_value=True)
            vals = [np.median(M), np.sort(M.ravel())[(M.size - 1) // 2]] if k == "median" else [M.max()] if k == "max" else [1.0]
            ok = [M / q for q in vals] if k in ("median", "max", None) else [np.log1p(M)] if k == "log" else [np.log1p(np.log1p(M))]
            if not any(np.allclose(N(C), o, atol=e, rtol=e) for o in ok):
                raise Fail("helper:normalization", "%s: %r" % (k, N(C).tolist()))
            if k in ("median", "max"):
                eq(N(U.cost_normalization(cv(M), k, value=2.0)), M / 2)
    elif fun == "sparse_dist":
        i, j = np.array([0, n - 1, 0, n // 2]), np.array([n - 1, 0, n + v - 1, 0])
        w = np.array([0.1, 0.5, 0.25, 0.9])
        for mt, p in (("sqeuclidean", 2), ("euclidean", 2), ("cityblock", 1), ("minkowski", 3)):
            D = cdist(X, Y, mt, **({"p": p} if mt == "minkowski" else {}))[i, j]
            for bs in (None, 1, 3, 10):
                if arr == "tf":
                    return "n/a"
                ii, jj = (i, j) if arr in I.LAYOUTS else (nx.from_numpy(i), nx.from_numpy(j))
                eq(float(N(U.sparse_ot_dist(cv(X), cv(Y), ii, jj, cv(w), metric=mt, p=p, batch_size=bs))), D @ w)
                eq(float(N(U.sparse_ot_dist(cv(X), cv(Y), ii, jj, metric=mt, p=p, batch_size=bs))), D.mean())
    elif fun == "exp_bures":
        S, T = Y.T @ Y, X.T @ X + np.eye(2)
        eq(N(U.exp_bures(cv(T), cv(S))), (np.eye(2) + S) @ T @ (np.eye(2) + S))
    elif fun == "seed":
        if arr != "C":
            return "n/a"
        r = np.random.RandomState(3)
        if U.check_random_state(r) is not r or U.check_random_state(7).rand() != np.random.RandomState(7).rand() or U.check_random_state(np.int64(7)).rand() != np.random.RandomState(7).rand() or U.check_random_state(None) is not np.random.mtrand._rand:
            raise Fail("helper:seed", "wrong generator")
        for bad in ("a", 1.5, [3]):
            try:
                U.check_random_state(bad)
            except ValueError:
                continue
            raise Fail("helper:seed", "%r accepted" % (bad,))
    elif fun == "threads":
        for q, w in ((None, -1), ("max", -1), ("MAX", -1), (1, 1), (5, 5)):
            if U.check_number_threads(q) != w:
                raise Fail("helper:threads", "%r" % (q,))
        for bad in (0, -3, 1.5, "all"):
            try:
                U.check_number_threads(bad)
            except ValueError:
                continue
            raise Fail("helper:threads", "%r accepted" % (bad,))
    elif fun == "dist0":
        if arr == "C":
            eq(U.dist0(n), (np.arange(n)[:, None] - np.arange(n)[None]) ** 2.0)
    return "ok"


# ---- lazy tensors
def gen_z(ctx):
    ctx.choose("arr", ["C", "torch", "jax", "tf", "torch32"])
    ctx.choose("kind", ["lowrank", "lowrank_d", "fun2", "fun3", "result"])
    ctx.choose("shape", [(4, 5), (1, 1), (1, 3), (5, 1), (7, 7)])
    ctx.choose("batch", [100, 1, 2, 3])


def run_z(case):
    arr, kind, (n, m), bs = case["arr"], case["kind"], case["shape"], case["batch"]
    nx, cv = mk(arr)
    e = 1e-4 if arr == "torch32" else 1e-9
    N = lambda x: num(nx, x)
    Q, R, d = I.points("signed", n, 3, 1), I.points("signed", m, 3, 2), np.array([0.5, -1.0, 2.0])
    full = Q @ R.T if kind == "lowrank" else (Q * d) @ R.T if kind in ("lowrank_d", "result") else Q @ R.T
    if kind == "lowrank":
        T = U.get_lowrank_lazytensor(cv(Q), cv(R))
    elif kind in ("lowrank_d", "result"):
        T = U.get_lowrank_lazytensor(cv(Q), cv(R), cv(d))
    elif kind == "fun2":
        T = U.LazyTensor((n, m), lambda i, j, A, B: nx.dot(A[i], nx.transpose(B[j]) if B[j].ndim > 1 else B[j]), A=cv(Q), B=cv(R))
    else:
        full = np.einsum("ik,jk->ijk", Q, R)
        if arr == "tf":
            return "n/a"
        T = U.LazyTensor((n, m, 3), lambda i, j, k, A, B: (A[:, None] * B[None])[i, j, k], A=cv(Q), B=cv(R))
    if tuple(T.shape) != full.shape or T.ndim != full.ndim:
        raise Fail("lazy:shape", "%r" % (T.shape,))
    ix = [0, n - 1, slice(None), slice(1, None), slice(None, None, 2)]
    jx = [0, m - 1, slice(None), slice(None, 1), slice(None, None, 2)]
    for key in ix + list(itertools.product(ix, jx)):
        g, w = N(T[key]), full[key]
        if g.shape != np.shape(w) or not np.allclose(g, w, atol=e):
            raise Fail("lazy:index:" + kind, "T[%r] is %r, expected %r" % (key, g.tolist(), np.asarray(w).tolist()))
    if kind == "fun3":
        for ax in (None, 0, 1):
            try:
                o = N(U.reduce_lazytensor(T, nx.sum, axis=ax, nx=nx, batch_size=bs))
            except Exception:
                if ax is None or ax == 0 and arr in ("jax",):
                    raise
                continue
            if not np.allclose(o, full.sum(ax), atol=10 * e):
                raise Fail("lazy:reduce:" + kind, "axis %r: %s for %s" % (ax, o.tolist(), full.sum(ax).tolist()))
        return "ok"
    for ax in (None, 0, 1):
        o = N(U.reduce_lazytensor(T, nx.sum, axis=ax, nx=nx, batch_size=bs))
        if o.shape != np.shape(full.sum(ax)) or not np.allclose(o, full.sum(ax), atol=10 * e):
            raise Fail("lazy:reduce:" + kind, "axis %r: %s for %s" % (ax, o.tolist(), full.sum(ax).tolist()))
        if ax is not None:
            o = N(U.reduce_lazytensor(T, nx.logsumexp, axis=ax, nx=nx, batch_size=bs))
            if not np.allclose(o, np.log(np.exp(full).sum(ax)), atol=10 * e):
                raise Fail("lazy:reduce:" + kind, "logsumexp over axis %r" % ax)
    if kind == "result":
        r = U.OTResult(lazy_plan=T, backend=nx, batch_size=bs, potentials=(1, 2), value=3.0, value_linear=4.0, value_quad=5.0, status=6, log={})
        dense = U.OTResult(plan=cv(full), backend=nx)
        for q in (r, dense):
            if not np.allclose(N(q.marginal_a), full.sum(1), atol=10 * e) or not np.allclose(N(q.marginal_b), full.sum(0), atol=10 * e) or q.marginals is None or not np.allclose(N(q.marginals[1]), full.sum(0), atol=10 * e):
                raise Fail("result:marginals", "marginals of a result differ from the sums of its plan")
        if (r.potential_a, r.potential_b, r.potentials, r.value, r.value_linear, r.value_quad, r.status) != (1, 2, (1, 2), 3.0, 4.0, 5.0, 6) or r.plan is not None or dense.potential_a is not None:
            raise Fail("result:fields", "fields of a result are mixed up")
        if arr in ("C", "torch"):
            s = dense.sparse_plan
            back = U.OTResult(sparse_plan=s, backend=nx).plan
            if not np.allclose(N(back), full, atol=e):
                raise Fail("result:sparse", "sparse plan differs")
        repr(r), repr(dense)
    return "ok"


# ---- list inputs
LISTS = ["emd", "emd2", "emd_1d", "emd2_1d", "sinkhorn:sinkhorn", "sinkhorn:sinkhorn_log", "sinkhorn:sinkhorn_stabilized", "sinkhorn2:sinkhorn", "greenkhorn", "unbalanced:sinkhorn", "mm_unbalanced:kl", "mm_unbalanced:l2", "lbfgsb_unbalanced",
         "partial", "partial2", "partial_entropic", "partial_lagrange", "sliced", "wasserstein_1d", "lpl1", "l1l2", "cg", "gcg", "smooth_dual:l2", "weak", "factored", "gw", "fgw", "entropic_gw", "srgw", "partial_gw", "dist:sqeuclidean", "solve:exact", "solve:kl", "empirical_sinkhorn", "barycenter:sinkhorn"]


def gen_l(ctx):
    if not calls.CALLS:
        calls.build()
    ctx.choose("name", [x for x in LISTS if x in calls.CALLS])
    ctx.choose("arr", ["C", "torch"])
    ctx.choose("which", list(range(1, 8)))  # subset of the first arguments given as lists
    ctx.choose("var", [0, 1])


class ListData(calls.Data):
    """Hands out the k-th array that is asked for as a list if bit k of `which` is set."""
    which, order = 0, ()

    def __getattr__(self, name):
        if name.startswith("_") or name in ("cv", "seed", "size", "var", "given"):
            raise AttributeError(name)
        z = calls.Data.__getattr__(self, name)
        if name not in self.order:
            self.order = tuple(self.order) + (name,)
        k = self.order.index(name)
        return np.asarray(self.raw(name)).tolist() if self.which >> k & 1 else z


def run_l(case):
    nx, cv = mk(case["arr"])
    f, opts = calls.CALLS[case["name"]]
    base = calls.flatten(call(f, calls.Data(cv, var=case["var"]))[0], nx)
    d = ListData(cv, var=case["var"])
    d.which = case["which"]
    try:
        r = call(f, d)[0]
    except (TypeError, AttributeError, ValueError, IndexError):
        return "lists rejected"
    got = calls.flatten(r, nx)
    if [k for k, _ in got] != [k for k, _ in base]:
        raise Fail("list:" + case["name"], "another structure of the result")
    for (k, x), (_, y) in zip(base, got):
        if x.dtype.kind in "fiu" and (x.shape != y.shape or not np.allclose(np.asarray(x, float), np.asarray(y, float), atol=1e-9, equal_nan=True)) and "time" not in k:
            raise Fail("list:" + case["name"], "%s differs when arguments %s are lists" % (k, [o for i, o in enumerate(d.order) if case["which"] >> i & 1]))
    return "ok"


def gen_ty(ctx):
    """Argument types: lists and arrays of integers, booleans, single precision, in any position."""
    ctx.choose("fun", ["emd", "emd2", "sinkhorn", "sinkhorn_log", "unbalanced", "partial", "solve", "solve_kl", "emd2_1d", "list_to_array", "gw", "mm"])
    for k in ("ta", "tb", "tM"):
        ctx.choose(k, ["f8", "list", "i8", "listint", "f4"])


def run_ty(case):
    n, m = 2, 3
    frac = dict(f8=True, list=True, f4=True, i8=False, listint=False)
    kinds = [case["ta"], case["tb"], case["tM"]]
    a = np.array([0.25, 0.75]) if frac[kinds[0]] else np.array([1.0, 0.0])
    b = np.array([0.5, 0.125, 0.375]) if frac[kinds[1]] else np.array([0.0, 0.0, 1.0])
    M = np.array([[0.5, 1.25, 3.0], [2.5, 0.25, 1.0]]) if frac[kinds[2]] else np.array([[1.0, 3, 2], [5, 1, 2]])
    to = dict(f8=lambda z: z.copy(), list=lambda z: z.tolist(), i8=lambda z: z.astype(np.int64), listint=lambda z: z.astype(int).tolist(), f4=lambda z: z.astype(np.float32))
    A, B, C = (to[k](z) for k, z in zip(kinds, (a, b, M)))
    fun = case["fun"]
    f = {"emd": lambda a, b, M: ot.emd(a, b, M), "emd2": lambda a, b, M: ot.emd2(a, b, M), "sinkhorn": lambda a, b, M: ot.sinkhorn(a, b, M, 2.0), "sinkhorn_log": lambda a, b, M: ot.sinkhorn(a, b, M, 2.0, method="sinkhorn_log"),
         "unbalanced": lambda a, b, M: ot.sinkhorn_unbalanced(a, b, M, 2.0, 1.0), "partial": lambda a, b, M: ot.partial.partial_wasserstein(a, b, M, 0.5), "solve": lambda a, b, M: ot.solve(M, a, b).plan, "solve_kl": lambda a, b, M: ot.solve(M, a, b, reg=2.0).plan,
         "emd2_1d": lambda a, b, M: ot.emd2_1d(M[0][:2], M[1], a, b), "list_to_array": lambda a, b, M: U.list_to_array(a, b, M)[1], "mm": lambda a, b, M: ot.unbalanced.mm_unbalanced(a, b, M, 1.0, div="l2"),
         "gw": lambda a, b, M: ot.gromov.gromov_wasserstein(np.array([[0.0, 1.5], [1.5, 0.0]]), np.array([[0, 1.25, 2], [1.25, 0, 1.0], [2, 1, 0]]), a, b)}[fun]
    with np.errstate(all="ignore"):
        ref = call(f, a, b, M)[0]
        try:
            got, warned = call(f, A, B, C)[:2]
        except (TypeError, AttributeError, ValueError, IndexError, KeyError, AssertionError):
            return "rejected"
    if fun in ("emd", "solve") and np.asarray(got).dtype.kind == "i":  # documented, loud: the plan takes the type of the first marginal
        if not np.allclose(ref, np.round(ref)) and not warned:
            raise Fail("types:silent-cast", "integer plan without a warning for argument types %r" % (kinds,))
        ref = np.trunc(ref)
    if not np.allclose(np.asarray(got, float), ref, atol=1e-4 if "f4" in kinds else 1e-9, equal_nan=True):
        raise Fail("types:" + fun, "%s for argument types %r, expected %s" % (np.asarray(got).tolist(), kinds, np.asarray(ref).tolist()))
    return "ok"


# ---- scalers
def gen_s(ctx):
    ctx.choose("norm", ["standard", "minmax", "l2"])
    ctx.choose("arr", ["C", "strided", "torch", "jax", "tf", "torch32"])
    ctx.choose("data", ["one", "list", "constant", "single", "zero"])
    ctx.choose("seq", list(itertools.product(["fitA", "fitB", "tA", "tB", "ft"], repeat=3)))


def run_s(case):
    norm, arr = case["norm"], case["arr"]
    nx, cv = mk(arr)
    A, B = I.points("signed", 5, 3, 1), 3 + 2 * I.points("lcg", 4, 3, 2)
    if case["data"] == "constant":
        A[:, 1] = 2.0
    elif case["data"] == "single":
        A, B = A[:1], B[:1]
    elif case["data"] == "zero":
        A[2] = 0
    f = (lambda z: [cv(z[:2]), cv(z[2:])]) if case["data"] == "list" else cv
    e = 1e-4 if arr == "torch32" else 1e-9
    N = lambda z: np.concatenate([num(nx, x) for x in z]) if isinstance(z, list) else num(nx, z)

    def ref(X, F):
        if norm == "l2":
            s = np.sqrt((X ** 2).sum(1, keepdims=True))
            return X / np.where(s == 0, 1, s)
        if norm == "standard":
            s = F.std(0)
            return (X - F.mean(0)) / np.where(s == 0, 1, s)
        r = F.max(0) - F.min(0)
        return (X - F.min(0)) / np.where(r == 0, 1, r)
    s, F = U.DataScaler(norm), None
    for op in case["seq"]:
        if op in ("fitA", "fitB"):
            F = A if op == "fitA" else B
            if call(s.fit, f(F))[0] is not s:
                raise Fail("scaler:fit", "fit does not return the scaler")
        elif op == "ft":
            F = B
            o = N(call(s.fit_transform, f(B))[0])
            if not np.allclose(o, ref(B, B), atol=e):
                raise Fail("scaler:" + norm, "fit_transform after %r" % (case["seq"],))
        else:
            X = A if op == "tA" else B
            if F is None and norm != "l2":
                try:
                    s.transform(f(X))
                except RuntimeError:
                    continue
                raise Fail("scaler:unfitted", "transform before fit is accepted")
            o = N(call(s.transform, f(X))[0])
            if o.shape != X.shape or not np.allclose(o, ref(X, F), atol=e * max(1, np.abs(o).max())):
                raise Fail("scaler:" + norm, "%s for %s after %r" % (o.tolist(), ref(X, F).tolist(), case["seq"]))
    if F is not None or norm == "l2":
        p, q = call(U.apply_scaler, f(A), f(B), s)[0]
        g = call(lambda: (s.transform(f(A)), s.transform(f(B))))[0]
        if not np.array_equal(N(p), N(g[0])) or not np.array_equal(N(q), N(g[1])):
            raise Fail("scaler:apply", "apply_scaler differs from the scaler")
    return "ok"


# ---- data sets
def gen_ds(ctx):
    ctx.choose("kind", ["1d", "2d", "3gauss", "3gauss2", "gaussrot", "2gauss_prop", "deprecated"])
    ctx.choose("n", [10, 7, 99, 1])
    ctx.choose("seed", [0, 5])
    ctx.choose("p", [0.5, 0.29, 0.9, 1.0])


def run_ds(case):
    import ot.datasets as ds
    n, s, kind, p = case["n"], case["seed"], case["kind"], case["p"]
    np.random.seed(3)
    st = np.random.get_state()[1].copy()
    if kind == "1d":
        h = ds.make_1D_gauss(n, n * p, 2.0 + s)
        x = np.exp(-(np.arange(n) - n * p) ** 2 / (2 * (2.0 + s) ** 2))
        if h.shape != (n,) or not np.allclose(h, x / x.sum(), atol=1e-14):
            raise Fail("data:1d", "not a discretised Gaussian")
    elif kind == "2d":
        S = np.array([[2.0, 0.5], [0.5, 1.0]])
        m = np.array([3.0, -2.0])
        for sig in (S, 0.7):
            f = lambda r: ds.make_2D_samples_gauss(n, m, sig, random_state=r)
            x, z = f(s), np.random.RandomState(s).randn(n, 2)
            C = S if sig is S else 0.7 * np.eye(2)
            w, Q = np.linalg.eigh(C)
            if x.shape != (n, 2) or not np.allclose(x, z @ (Q * np.sqrt(w)) @ Q.T + m, atol=1e-9) or not np.array_equal(x, f(np.random.RandomState(s))):
                raise Fail("data:2d", "samples are not those of the given Gaussian")
    elif kind == "deprecated":
        a = call(ds.get_2D_samples_gauss, n, [1, 2], 0.3, random_state=s)[0]
        if not np.array_equal(a, ds.make_2D_samples_gauss(n, [1, 2], 0.3, random_state=s)):
            raise Fail("data:deprecated", "get_2D_samples_gauss ignores its random state")
        a, b = call(ds.get_data_classif, "3gauss", n, 0.1, 0.3, random_state=s)[0], ds.make_data_classif("3gauss", n, 0.1, 0.3, random_state=s)
        if not all(np.array_equal(x, y) for x, y in zip(a, b)):
            raise Fail("data:deprecated", "get_data_classif ignores its parameters")
        if not np.array_equal(call(ds.get_1D_gauss, n, 2, 3)[0], ds.make_1D_gauss(n, 2, 3)):
            raise Fail("data:deprecated", "get_1D_gauss")
    else:
        x, y = ds.make_data_classif(kind, n, nz=0.0, theta=0.4, p=p, random_state=s)
        x2, y2 = ds.make_data_classif(kind, n, nz=0.5, theta=0.4, p=p, random_state=s)
        x3, y3 = ds.make_data_classif(kind, n, nz=0.5, theta=0.4, p=p, random_state=np.random.RandomState(s))
        if x.shape != (n, 2) or y.shape != (n,) or x2.shape != (n, 2):
            raise Fail("data:size:" + kind, "%r samples instead of %d" % (x.shape, n))
        if not np.array_equal(x2, x3) or not np.array_equal(y, y2):
            raise Fail("data:seed:" + kind, "not reproducible")
        for c in set(y.tolist()):  # without noise every class is a single point
            if np.abs(x[y == c] - x[y == c][0]).max() > 1e-12:
                raise Fail("data:classes:" + kind, "class %d has several centres" % c)
        if kind == "2gauss_prop" and (y == 1).sum() != int(p * n):
            raise Fail("data:proportion", "%d of %d" % ((y == 1).sum(), n))
    if not np.array_equal(np.random.get_state()[1], st):
        raise Fail("data:global", "the global generator was used although a seed was given")
    return "ok"


def scopes(tier):
    return [
        Scope("dist", gen_d, run_d, dev=1, thorough_dev=3, doc="all metrics against their definitions"),
        Scope("projections", gen_p, run_p, doc="simplex projections against enumeration of supports"),
        Scope("helpers", gen_h, run_h),
        Scope("lazy", gen_z, run_z, doc="every kind of index, reduction and batch size"),
        Scope("lists", gen_l, run_l, doc="every subset of the arguments given as lists"),
        Scope("types", gen_ty, run_ty, doc="every combination of argument types"),
        Scope("scaler", gen_s, run_s, doc="all sequences of operations"),
        Scope("datasets", gen_ds, run_ds),
    ]
