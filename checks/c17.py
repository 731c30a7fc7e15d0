"""C17: batched solvers: every item of a batch is solved as if it were alone, by the documented iterations."""
BACKENDS = ("torch", "jax", "tf")
OMP = 1
import itertools
import warnings

import numpy as np
import ot
import ot.batch as BT
from ot.batch._linear import dist_kl_batch, dist_lp_batch
from scipy.spatial.distance import cdist
from scipy.special import logsumexp, rel_entr

from mc import instances as I
from mc import oracle
from mc.engine import Fail, Scope

from .c14 import backend, conv, num, structure

ASSUMPTIONS = ("items of one batch share their sizes",)


def stack(fs):
    return np.stack([np.asarray(f, float) for f in fs])


def items(case, B):
    """B different weight pairs and costs"""
    n, m = case["shape"]
    wa, wb = case["w"]
    A = stack([I.weights(wa, n, 1 + 3 * k) if wa != "none" else np.ones(n) / n for k in range(B)])
    Q = stack([I.weights(wb, m, 2 + 3 * k) if wb != "none" else np.ones(m) / m for k in range(B)])
    M = stack([I.cost(case["cost"], n, m, 3 + k) * (1, 0.2, 3)[k % 3] for k in range(B)])
    return A, Q, M


def gen_lin(ctx):
    ctx.choose("solver", ["log_sinkhorn", "sinkhorn"])
    ctx.choose("rt", ["entropy", "KL"])
    ctx.choose("reg", [0.1, 1.0, 20.0])
    ctx.choose("w", [("lcg", "lcg"), ("none", "none"), ("none", "lcg"), ("zeros", "lcg"), ("lcg", "zeros"), ("zeros", "zeros"), ("spiky", "uniform")])
    ctx.dev("B", [3, 1, 2, 7])
    ctx.dev("shape", [(3, 4), (4, 3), (1, 1), (1, 4), (3, 1), (5, 5)])
    ctx.dev("cost", ["lcg", "ties", "neg", "const"])
    ctx.dev("arr", ["C", "F", "strided", "torch", "jax", "tf", "torch32"])
    ctx.dev("grad", ["envelope", "detach", "autodiff", "last_step", None])
    ctx.dev("it", [None, 1, 2, 5, 11])
    if ctx.case["grad"] != "envelope" and ctx.case["arr"] not in ("torch", "C"):
        ctx.prune()


def iterate(a, b, M, reg, k):
    """k rounds of the documented scaling iterations, from zero potentials"""
    with np.errstate(divide="ignore"):
        la, lb = np.log(a), np.log(b)
    K, u, v = -M / reg, np.zeros(len(a)), np.zeros(len(b))
    for _ in range(k):
        u = la - logsumexp(K + v[None], axis=1)
        v = lb - logsumexp(K + u[:, None], axis=0)
    return np.exp(K + u[:, None] + v[None])


def objective(T, M, reg, rt, a, b):
    lin = float((T * M).sum())
    pos = T > 0
    R = np.outer(a, b) if rt == "KL" else np.ones_like(T)
    return lin, lin + reg * float((T[pos] * np.log(T[pos] / R[pos])).sum())


def run_lin(case):
    B = case["B"]
    A, Q, M = items(case, B)
    nx, cv = backend(case["arr"]), conv(case["arr"])
    f32 = case["arr"] == "torch32"
    grad = case["grad"]
    if grad == "last_step" and case["arr"] != "torch":
        case = dict(case, arr="torch")
        nx, cv = backend("torch"), conv("torch")
    it = case["it"]
    kw = dict(solver=case["solver"], reg_type=case["rt"], grad=grad, max_iter=it or 1000, tol=1e-6 if f32 else 1e-11)
    ab = [None if w == "none" else cv(z) for w, z in zip(case["w"], (A, Q))]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = BT.solve_batch(cv(M), case["reg"], ab[0], ab[1], **kw)
    tag = "%s:%s" % (case["solver"], case["rt"])
    T, val, lin = num(nx, res.plan), num(nx, res.value), num(nx, res.value_linear)
    if f32 and "float32" not in str(res.plan.dtype):
        raise Fail("dtype:" + tag, "plan of type %s" % res.plan.dtype)
    if T.shape != M.shape or val.shape != (B,) or lin.shape != (B,):
        raise Fail("shape:" + tag, "plan %s value %s linear %s for %d items" % (T.shape, val.shape, lin.shape, B))
    steps = int(res.log["n_iter"]) + 1 if grad != "last_step" else int(res.log["n_iter"]) + 2
    if it and res.log["n_iter"] >= it:
        raise Fail("budget:" + tag, "%d iterations of a budget of %d" % (steps, it))
    t = 2e-5 if f32 else 1e-9
    fu, gv = [num(nx, z) for z in res.potentials]
    for k in range(B):
        ref = iterate(A[k], Q[k], M[k], case["reg"], steps) if case["it"] or steps < 300 else None
        if ref is not None:
            d = np.abs(T[k] - ref).max() if np.isfinite(T[k]).all() else np.inf
            if not d <= t * 10:
                raise Fail("item:" + tag, "item %d of %d differs by %.2e from %d documented iterations on it alone" % (k, B, d, steps))
        if not it and res.log["n_iter"] < 990:
            S = oracle.sinkhorn_ref(A[k], Q[k], M[k], case["reg"])
            d = np.abs(T[k] - S).max()
            if not d <= (5e-4 if f32 else 1e-6):
                raise Fail("plan:" + tag, "item %d of %d differs by %.2e from its optimal plan" % (k, B, d))
        l, v = objective(T[k], M[k], case["reg"], case["rt"], A[k], Q[k])
        for name, got, want in (("value", val[k], v), ("value_linear", lin[k], l)):
            if not abs(got - want) <= (1e-3 if f32 else 1e-8) * (1 + abs(want) + case["reg"]):
                raise Fail(name + ":" + tag, "item %d: %s %.9g, its plan has %.9g" % (k, name, got, want))
        with np.errstate(all="ignore"):
            P = (np.exp(-M[k] / case["reg"] + fu[k][:, None] + gv[k][None]) if case["solver"] == "log_sinkhorn"
                 else fu[k][:, None] * np.exp(-M[k] / case["reg"]) * gv[k][None])
        if not np.abs(P - T[k]).max() <= t * 100:
            raise Fail("potentials:" + tag, "item %d: the potentials do not generate the plan" % k)
    if B > 1 and case["arr"] == "C":            # an item alone, and the reversed batch
        i = B - 1
        one = BT.solve_batch(M[i:], case["reg"], None if ab[0] is None else A[i:], None if ab[1] is None else Q[i:], **kw)
        rev = BT.solve_batch(M[::-1], case["reg"], None if ab[0] is None else A[::-1], None if ab[1] is None else Q[::-1], **kw)
        for name, G in (("alone", one.plan[0]), ("reversed", rev.plan[0])):
            if not np.abs(num(nx, G) - T[i]).max() <= 1e-8:
                raise Fail("batch:" + tag, "item %d depends on the batch (%s)" % (i, name))
    return dict(inner=B, states=B * steps, outcome=tag)


# ---- gradients of the values
def gen_grad(ctx):
    ctx.choose("solver", ["log_sinkhorn", "sinkhorn"])
    ctx.choose("rt", ["entropy", "KL"])
    ctx.choose("grad", ["envelope", "autodiff"])
    ctx.choose("arr", ["torch", "tf"])
    ctx.choose("reg", [0.5, 3.0])
    ctx.dev("B", [2, 1])
    ctx.dev("shape", [(3, 4), (1, 3), (4, 4)])
    ctx.dev("cost", ["lcg", "neg"])
    ctx.case["w"] = ("lcg", "lcg")


def run_grad(case):
    B = case["B"]
    A, Q, M = items(case, B)
    reg = case["reg"]
    kw = dict(solver=case["solver"], reg_type=case["rt"], grad=case["grad"], max_iter=400, tol=1e-12)
    up = 1.0 + np.arange(B)
    nx = backend(case["arr"])
    if case["arr"] == "torch":
        import torch
        V = [torch.tensor(z, requires_grad=True) for z in (M, A, Q)]
        r = BT.solve_batch(V[0], reg, V[1], V[2], **kw)
        G = torch.autograd.grad((r.value * torch.tensor(up)).sum(), V, allow_unused=True)
    else:
        import tensorflow as tf
        V = [tf.constant(z) for z in (M, A, Q)]
        with tf.GradientTape() as tape:
            for z in V:
                tape.watch(z)
            r = BT.solve_batch(V[0], reg, V[1], V[2], **kw)
            s = tf.reduce_sum(r.value * tf.constant(up))
        G = tape.gradient(s, V)
    G = [None if g is None else num(nx, g) for g in G]

    def value(M_, A_, Q_):
        tot = 0.0
        for k in range(B):
            S = oracle.sinkhorn_ref(A_[k], Q_[k], M_[k], reg)
            tot += up[k] * objective(S, M_[k], reg, case["rt"], A_[k], Q_[k])[1]
        return tot
    tag = "%s:%s:%s" % (case["solver"], case["rt"], case["grad"])
    known = []
    h, rng = 1e-4, range(B)
    for pos, what in ((0, "costs"), (1, "source weights"), (2, "target weights")):
        g = G[pos]
        X = [M, A, Q]
        shape = X[pos].shape
        dirs = []
        for k in rng:
            if pos == 0:
                for i in range(shape[1]):
                    for j in range(shape[2]):
                        D = np.zeros(shape)
                        D[k, i, j] = 1
                        dirs.append(D)
            else:
                for i in range(1, shape[1]):
                    D = np.zeros(shape)
                    D[k, 0], D[k, i] = -1, 1
                    dirs.append(D)
        for D in dirs:
            Y, Z = list(X), list(X)
            Y[pos], Z[pos] = X[pos] + h * D * X[pos].max(), X[pos] - h * D * X[pos].max()
            fd = (value(*Y) - value(*Z)) / (2 * h * X[pos].max())
            if g is None:
                continue
            ad = float((g * D).sum())
            if not abs(ad - fd) <= 1e-4 * (1 + abs(fd)):
                if pos and case["grad"] == "envelope":
                    known.append(("batch:envelope:weights", "envelope gradients of solve_batch with reg_type='KL' with respect to the weights"))
                    break
                raise Fail("gradient:" + tag, "gradient with respect to the %s is %.6f, finite differences %.6f" % (what, ad, fd))
    if G[0] is None:
        raise Fail("nograd:" + tag, "no gradient with respect to the costs")
    return dict(inner=B, known=known, outcome=tag)


# ---- costs
def gen_met(ctx):
    ctx.choose("metric", ["sqeuclidean", "euclidean", "minkowski", "kl", "lp", "kl_logits"])
    ctx.choose("d", [1, 2, 3])
    ctx.choose("pts", ["lcg", "same", "offset", "ties"])
    ctx.dev("p", [2, 1, 3, 4.5])
    ctx.dev("q", [1, 2, 3])
    ctx.dev("shape", [(3, 4), (4, 4), (1, 1), (5, 2)])
    ctx.dev("B", [2, 1, 3])
    ctx.dev("arr", ["C", "F", "torch", "jax", "tf", "torch32"])
    if ctx.case["q"] != 1 and ctx.case["metric"] != "lp":
        ctx.prune()


def run_met(case):
    B, (n, m), d, met, p, q = case["B"], case["shape"], case["d"], case["metric"], case["p"], case["q"]
    nx, cv = backend(case["arr"]), conv(case["arr"])
    X = stack([I.points("lcg", n, d, 1 + 7 * k) for k in range(B)])
    Y = stack([I.points("lcg", m, d, 2 + 5 * k) for k in range(B)])
    if case["pts"] == "same":
        Y = X[:, np.arange(m) % n]
    elif case["pts"] == "offset":
        X, Y = X + 30, Y + 30
    elif case["pts"] == "ties":
        X, Y = np.round(2 * X) / 2, np.round(2 * Y) / 2
    if met.startswith("kl"):
        X, Y = np.abs(X) + 0.05, np.abs(Y) + 0.05
        X, Y = X / X.sum(-1, keepdims=True), Y / Y.sum(-1, keepdims=True)
    kl = met.startswith("kl")
    ref = stack([[[rel_entr(y, x).sum() for y in Y[k]] for x in X[k]] if kl
                 else cdist(X[k], Y[k], "sqeuclidean") if met == "sqeuclidean" else cdist(X[k], Y[k]) if met == "euclidean"
                 else cdist(X[k], Y[k], "minkowski", p=p) ** (q if met == "lp" else 1) for k in range(B)])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if met == "lp":
            D = dist_lp_batch(cv(X), cv(Y), p=p, q=q)
        elif met == "kl_logits":
            D = dist_kl_batch(cv(np.log(X)), cv(Y), logits_X=True)
        else:
            D = BT.dist_batch(cv(X), cv(Y), metric=met, p=p)
    f32 = case["arr"] == "torch32"
    if f32 and "float32" not in str(D.dtype):
        raise Fail("dtype:" + met, "costs of type %s" % D.dtype)
    G = num(nx, D)
    scale = 1 + (X ** 2).max()
    tol = (1e-5 if f32 else 1e-12) * scale
    if met == "euclidean":                # square root of a rounded zero
        tol = (3e-3 if f32 else 1e-6) * np.sqrt(scale)
    if kl:
        tol = 1e-4 if f32 else 1e-7
    if G.shape != ref.shape or not np.abs(G - ref).max() <= tol:
        raise Fail("cost:" + met, "batch costs differ from the metric by %s" % (np.abs(G - ref).max() if G.shape == ref.shape else "shape %s" % (G.shape,)))
    if met not in ("lp", "kl_logits") and not f32:
        W = stack([np.outer(np.ones(n) / n, I.weights("lcg", m, k + 1)) for k in range(B)])
        L = num(nx, BT.loss_linear_samples_batch(cv(X), cv(Y), cv(W), metric=met)) if p == 2 else None
        if L is not None and not np.abs(L - (ref * W).sum((1, 2))).max() <= 10 * tol:
            raise Fail("loss:" + met, "loss of given plans is wrong")
        r1 = BT.solve_sample_batch(cv(X), cv(Y), 1.0, metric=met, p=p, max_iter=7)
        r2 = BT.solve_batch(cv(ref), 1.0, max_iter=7)
        if not np.abs(num(nx, r1.plan) - num(nx, r2.plan)).max() <= 100 * tol or not np.abs(num(nx, r1.value) - num(nx, r2.value)).max() <= 100 * tol:
            raise Fail("samples:" + met, "solve_sample_batch differs from solve_batch on the costs")
        if n == m and met != "kl":
            S = num(nx, BT.dist_batch(cv(X), metric=met, p=p))
            if not np.abs(S - num(nx, BT.dist_batch(cv(X), cv(X), metric=met, p=p))).max() <= 1e-12:
                raise Fail("self:" + met, "dist_batch(X) is not dist_batch(X, X)")
    return dict(inner=B, outcome=met)


# ---- Gromov-Wasserstein batches
def gen_gw(ctx):
    ctx.choose("loss", ["sqeuclidean", "sqvec", "kl", "kllogits"])
    ctx.choose("alpha", [None, 0.0, 0.4, 1.0])
    ctx.choose("sym", ["yes", "no", "mixed"])
    ctx.dev("it", [1, 2, 3, 15])
    ctx.dev("given", [None, True])
    ctx.dev("reg", [0.5, 0.05, 5.0])
    ctx.dev("w", [("lcg", "lcg"), ("none", "none"), ("lcg", "none"), ("zeros", "lcg"), ("lcg", "zeros")])
    ctx.dev("shape", [(3, 4), (4, 3), (1, 1), (1, 3), (5, 5)])
    ctx.dev("B", [2, 1, 3])
    ctx.dev("arr", ["C", "F", "torch", "jax", "tf", "torch32"])
    ctx.dev("T0", ["none", "mix"])
    ctx.dev("grad", ["envelope", "detach", "autodiff"])


def gw_tensor(loss, C1, C2):
    if loss == "sqeuclidean":
        return (C1[:, None, :, None] - C2[None, :, None, :]) ** 2
    A, D = C1[:, None, :, None, :], C2[None, :, None, :, :]
    if loss == "sqvec":
        return ((A - D) ** 2).sum(-1)
    if loss == "kllogits":
        A = np.exp(A)
    return (D * (np.log(D) - np.log(A))).sum(-1)


def run_gw(case):
    B, (n, m), loss, al = case["B"], case["shape"], case["loss"], case["alpha"]
    nx, cv = backend(case["arr"]), conv(case["arr"])
    f32 = case["arr"] == "torch32"
    A, Q, _ = items(dict(case, cost="lcg"), B)
    M = stack([I.cost("lcg", n, m, 3 + k) for k in range(B)])
    sym = [case["sym"] == "yes" or (case["sym"] == "mixed" and k % 2 == 0) for k in range(B)]

    def feat(size, s, ok):
        ch = [structure("pos" if ok else "posasym", size, s + 11 * c) for c in range(2)]
        z = np.stack(ch, -1)
        if loss.startswith("kl"):
            z = z / z.sum(-1, keepdims=True)
        return ch[0] if loss == "sqeuclidean" else z
    C1 = stack([feat(n, 1 + 2 * k, sym[k]) for k in range(B)])
    C2 = stack([feat(m, 5 + 2 * k, sym[k]) for k in range(B)])
    if loss == "kllogits":
        C1 = np.log(C1)
    L = [gw_tensor(loss, C1[k], C2[k]) for k in range(B)]
    name = "kl" if loss.startswith("kl") else "sqeuclidean"
    lk = dict(loss=name, logits=(loss == "kllogits") if name == "kl" else None)
    tag = loss
    # objective of given couplings, with weights that need not be those of the tensor
    W = stack([I.weights("lcg", n * m, 9 + k).reshape(n, m) * (1 + k) for k in range(B)])
    want = stack([np.einsum("ijkl,ij,kl->", L[k], W[k], W[k]) for k in range(B)])
    tol = 2e-4 if f32 else 1e-9
    for how in (None, False):
        got = num(nx, BT.loss_quadratic_samples_batch(cv(A), cv(Q), cv(C1), cv(C2), cv(W), symmetric=how, recompute_const=True, **lk))
        if not np.abs(got - want).max() <= tol * (1 + np.abs(want).max()):
            raise Fail("loss:" + tag, "quadratic loss %s of given plans, by definition %s" % (got, want))
    T0 = stack([np.outer(A[k], Q[k]) for k in range(B)])
    kw = dict(lk)
    if case["T0"] == "mix":
        V = stack([ot.emd(A[k], Q[k], np.arange(n)[:, None] * np.arange(m)[None] * 1.0) for k in range(B)])
        T0 = 0.6 * T0 + 0.4 * V
        kw["T_init"] = cv(T0)
    if al is not None:
        kw.update(M=cv(M), alpha=al)
    if case["given"]:
        kw["symmetric"] = all(np.allclose(C, np.swapaxes(C, 1, 2)) for C in (C1, C2))
    ab = [None if w == "none" else cv(z) for w, z in zip(case["w"], (A, Q))]
    args = dict(reg=case["reg"], max_iter=case["it"], tol=1e-12 if not f32 else 1e-7, max_iter_inner=1000, tol_inner=1e-12 if not f32 else 1e-6, grad=case["grad"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = BT.solve_gromov_batch(cv(C1), cv(C2), a=ab[0], b=ab[1], **args, **kw)
    if f32 and "float32" not in str(res.plan.dtype):
        raise Fail("dtype:" + tag, "plan of type %s" % res.plan.dtype)
    T, val, vl, vq = num(nx, res.plan), num(nx, res.value), num(nx, res.value_linear), num(nx, res.value_quad)
    al_ = 1.0 if al is None else al
    k_it = int(res.log["n_iter"]) + 1
    if k_it > case["it"]:
        raise Fail("budget:" + tag, "%d iterations of %d" % (k_it, case["it"]))

    def step(k, G):
        grad = (1 - al_) * M[k] + al_ * (np.einsum("ijkl,kl->ij", L[k], G) + np.einsum("klij,kl->ij", L[k], G))
        with np.errstate(divide="ignore"):
            return oracle.sinkhorn_ref(A[k], Q[k], np.minimum(grad - case["reg"] * np.log(G + 1e-300), 1e3), case["reg"])
    for k in range(B):
        if not np.isfinite(T[k]).all():
            raise Fail("nan:" + tag, "item %d is not finite" % k)
        if k_it <= 3 and not f32:
            G = T0[k]
            for _ in range(k_it):
                G = step(k, G)
            d = np.abs(G - T[k]).max()
            if not d <= 1e-6:
                raise Fail("steps:" + tag, "item %d differs by %.2e from %d documented proximal steps" % (k, d, k_it))
        elif k_it < case["it"]:
            d = np.abs(step(k, T[k]) - T[k]).max()
            if not d <= (1e-3 if f32 else 1e-6):
                raise Fail("fixed:" + tag, "item %d: the returned plan is not a fixed point (%.2e)" % (k, d))
        if not max(np.abs(T[k].sum(1) - A[k]).max(), np.abs(T[k].sum(0) - Q[k]).max()) <= (1e-4 if f32 else 1e-7):
            raise Fail("marginals:" + tag, "item %d violates its marginals" % k)
        lin = (1 - al_) * float((T[k] * M[k]).sum()) if al is not None else 0.0
        qv = al_ * float(np.einsum("ijkl,ij,kl->", L[k], T[k], T[k]))
        for nm, got, want in (("value", val[k], lin + qv), ("value_linear", vl[k], lin), ("value_quad", vq[k], qv)):
            if not abs(got - want) <= (1e-4 if f32 else 1e-8) * (1 + abs(want)):
                raise Fail(nm + ":" + tag, "item %d: %s %.9g, its plan has %.9g" % (k, nm, got, want))
    if B > 1 and case["arr"] == "C" and case["it"] <= 12:
        i = B - 1
        cut = lambda z: None if z is None else z[i:]
        kk = {key: (cut(z) if key in ("M", "T_init") else z) for key, z in kw.items()}
        one = BT.solve_gromov_batch(C1[i:], C2[i:], a=cut(ab[0]), b=cut(ab[1]), **args, **kk)
        if not np.abs(one.plan[0] - T[i]).max() <= 1e-6:
            raise Fail("batch:" + tag, "item %d depends on its batch" % i)
    return dict(inner=B, states=B * k_it, outcome=tag)


def scopes(tier):
    return [
        Scope("linear", gen_lin, run_lin, dev=1, thorough_dev=2, doc="batches of entropic problems: every item is its own documented iteration and optimum"),
        Scope("gradients", gen_grad, run_grad, dev=1, thorough_dev=3, doc="gradients of the values against finite differences of the exact problem"),
        Scope("metrics", gen_met, run_met, dev=1, thorough_dev=3, doc="batched costs against their definition; samples = costs"),
        Scope("gromov", gen_gw, run_gw, dev=1, thorough_dev=2, doc="batched proximal GW: documented steps, fixed points and objectives per item"),
    ]
