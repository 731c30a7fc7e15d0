"""C26: smooth and stochastic dual solvers."""
BACKENDS = ("torch", "jax")
OMP = 1
import itertools

import numpy as np
import ot
import ot.smooth as Sm
import ot.stochastic as St
from scipy.special import xlogy

from checks.c14 import backend, conv, num
from checks.c15 import call
from mc import instances as I
from mc import oracle
from mc.engine import Fail, Scope

ASSUMPTIONS = ("problems up to 6 x 5; random picks of the stochastic solvers are explored exhaustively up to three iterations, longer runs for a few seeds",)


def near(sig, got, want, tol, what):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape or not np.allclose(got, want, rtol=tol, atol=tol):
        raise Fail(sig, "%s %s, expected %s" % (what, got.round(7).tolist(), want.round(7).tolist()))


def make(kind, gamma, k):
    return dict(kl=Sm.NegEntropy, l2=Sm.SquaredL2, sparse=Sm.SparsityConstrained)[kind](gamma=gamma, **(dict(max_nz=k) if kind == "sparse" else {}))


def omega(kind, gamma, T):
    return gamma * xlogy(T, T).sum() if kind == "kl" else 0.5 * gamma * (T ** 2).sum()


def simplex(x, z=1.0):
    """Projection on the simplex by trying every support."""
    best = None
    for s in range(1, len(x) + 1):
        for S in itertools.combinations(range(len(x)), s):
            y = np.zeros(len(x))
            y[list(S)] = x[list(S)] + (z - x[list(S)].sum()) / s
            if y.min() >= -1e-12:
                d = ((y - x) ** 2).sum()
                if best is None or d < best[0]:
                    best = (d, y)
    return best[1]


def conj(kind, gamma, k, x):
    """Conjugate of the regulariser over non-negative vectors, with all supports of size k tried."""
    if kind == "kl":
        g = np.exp(x / gamma - 1)
        return gamma * g.sum(), g
    if kind == "l2" or k >= len(x):
        g = np.maximum(x, 0) / gamma
        return (np.maximum(x, 0) ** 2).sum() / 2 / gamma, g
    best = max(itertools.combinations(range(len(x)), k), key=lambda S: (np.maximum(x[list(S)], 0) ** 2).sum())
    g = np.zeros(len(x))
    g[list(best)] = np.maximum(x[list(best)], 0) / gamma
    return gamma / 2 * (g ** 2).sum(), g


def smax(kind, gamma, k, x, b):
    """max over the simplex of <x, y> - Omega(b y) / b, with all supports tried."""
    if kind == "kl":
        e = np.exp((x - x.max()) / gamma)
        return gamma * np.log(e.sum()) + x.max() - gamma * np.log(b), e / e.sum()
    best = None
    n = len(x)
    for S in itertools.combinations(range(n), min(k, n) if kind == "sparse" else n):
        y = np.zeros(n)
        y[list(S)] = simplex(x[list(S)] / (b * gamma))
        v = x @ y - 0.5 * gamma * b * (y ** 2).sum()
        if best is None or v > best[0] + 1e-13:
            best = (v, y)
    return best


# ---- regularisers
def gen_r(ctx):
    ctx.choose("kind", ["kl", "l2", "sparse"])
    ctx.choose("n", [1, 2, 3, 5])
    ctx.choose("m", [1, 3])
    ctx.choose("gamma", [1.0, 0.3, 5.0])
    ctx.choose("k", [1, 2, 3, 5, 8])
    ctx.choose("data", ["lcg", "signed", "neg", "ties", "big"])
    ctx.choose("b", ["uniform", "lcg"])
    if ctx.case["kind"] != "sparse" and ctx.case["k"] != 1:
        ctx.prune()


def run_r(case):
    kind, n, m, gm, k = (case[z] for z in ("kind", "n", "m", "gamma", "k"))
    X = I.cost("lcg", n, m, 5)
    X = dict(lcg=X, signed=X * 4 - 2, neg=-X, ties=np.round(X * 2) / 2 - 0.5, big=X * 30 - 5)[case["data"]]
    b = I.weights(case["b"], m, 1)
    reg = make(kind, gm, k)
    X1 = X.copy()
    v, G_ = reg.delta_Omega(X1)
    if not (X1 == X).all():
        raise Fail("mutates:delta", "input changed to %s" % X1.tolist())
    W = [conj(kind, gm, k, X[:, j]) for j in range(m)]
    near("delta:value:" + kind, v, [w[0] for w in W], 1e-9, "conjugate")
    if kind != "sparse" or case["data"] != "ties":
        near("delta:gradient:" + kind, G_, np.array([w[1] for w in W]).T, 1e-9, "gradient")
    if kind == "sparse" and (np.count_nonzero(G_, axis=0) > k).any():
        raise Fail("sparsity", "%s non-zeros per column" % np.count_nonzero(G_, axis=0))
    # one-dimensional inputs are single columns
    v1, g1 = reg.delta_Omega(X[:, 0].copy())
    near("delta:vector:" + kind, v1, v[0], 1e-9, "conjugate of a vector")
    near("delta:omega:" + kind, (X * G_).sum() - reg.Omega(G_), v.sum(), 1e-8, "Fenchel equality")
    near("omega:" + kind, reg.Omega(G_), omega(kind, gm, G_), 1e-9, "regularisation")
    Z = np.zeros((n, m))
    near("omega:zero", reg.Omega(Z), 0.0, 0, "regularisation of the null plan")
    X1, b1 = X.copy(), b.copy()
    v, G_ = reg.max_Omega(X1, b1)
    if not ((X1 == X).all() and (b1 == b).all()):
        raise Fail("mutates:max", "inputs changed")
    W = [smax(kind, gm, k, X[:, j], b[j]) for j in range(m)]
    near("max:value:" + kind, v, [w[0] for w in W], 1e-8, "maximum")
    if kind != "sparse" or case["data"] != "ties":
        near("max:argmax:" + kind, G_, np.array([w[1] for w in W]).T, 1e-8, "maximiser")
    if kind == "sparse" and (np.count_nonzero(G_, axis=0) > k).any():
        raise Fail("sparsity", "%s non-zeros per column" % np.count_nonzero(G_, axis=0))
    for z in (1, 2.5):
        P = Sm.projection_simplex(X, z=z, axis=0)
        near("projection:0", P, np.array([simplex(X[:, j], z) for j in range(m)]).T, 1e-9, "projection")
        near("projection:1", Sm.projection_simplex(X, z=z, axis=1), np.array([simplex(X[i], z) for i in range(n)]), 1e-9, "projection")
        near("projection:none", Sm.projection_simplex(X, z=z), simplex(X.ravel(), z) if X.size <= 9 else Sm.projection_simplex(X.ravel()[None], z=z, axis=1)[0], 1e-9, "projection")
    # dual objectives: gradients against central differences
    M = I.cost("lcg", n, m, 9)
    a = I.weights("lcg", n, 2)
    al, be = X[:, 0] * 0.3, np.linspace(0.2, 0.7, m)
    if case["data"] in ("ties", "big") or kind == "sparse":
        return "ok"
    o, ga, gb = Sm.dual_obj_grad(al.copy(), be.copy(), a, b, M, make(kind, gm, k))
    T = al[:, None] + be - M
    near("dual:value:" + kind, o, al @ a + be @ b - sum(conj(kind, gm, k, T[:, j])[0] for j in range(m)), 1e-9, "dual objective")
    o2, g2 = Sm.semi_dual_obj_grad(al.copy(), a, b, M, make(kind, gm, k))
    near("semi:value:" + kind, o2, al @ a - sum(b[j] * smax(kind, gm, k, al - M[:, j], b[j])[0] for j in range(m)), 1e-8, "semi-dual objective")
    h = 1e-6
    for i in range(n):
        e = np.eye(n)[i] * h
        f = lambda z: Sm.dual_obj_grad(al + z, be, a, b, M, make(kind, gm, k))[0]
        near("dual:gradient:" + kind, ga[i], (f(e) - f(-e)) / 2 / h, 1e-5, "gradient")
        f = lambda z: Sm.semi_dual_obj_grad(al + z, a, b, M, make(kind, gm, k))[0]
        near("semi:gradient:" + kind, g2[i], (f(e) - f(-e)) / 2 / h, 1e-5, "gradient")
    for j in range(m):
        e = np.eye(m)[j] * h
        f = lambda z: Sm.dual_obj_grad(al, be + z, a, b, M, make(kind, gm, k))[0]
        near("dual:gradient:" + kind, gb[j], (f(e) - f(-e)) / 2 / h, 1e-5, "gradient")
    return "ok"


# ---- smooth OT
def gen_s(ctx):
    ctx.choose("fun", ["dual", "semi"])
    ctx.choose("n", [(3, 4), (1, 1), (1, 4), (5, 2), (5, 5)])
    ctx.choose("kind", ["kl", "l2", "sparse"])
    ctx.choose("reg", [1.0, 0.1, 10.0])
    ctx.choose("w", ["uniform", "lcg", "zeros", "ramp", "dirac"])
    ctx.choose("k", [2, 1, 8])
    ctx.dev("M", ["lcg", "grid", "const", "big", "sym"])
    ctx.dev("arr", ["C", "torch", "jax", "F", "strided"])
    ctx.dev("method", ["L-BFGS-B", "TNC"])
    c = ctx.case
    if c["kind"] != "sparse" and c["k"] != 2 or c["fun"] == "semi" and c["arr"] in ("torch", "jax"):
        ctx.prune()


def run_s(case):
    n, m = case["n"]
    kind, reg = case["kind"], case["reg"]
    M = dict(lcg=lambda: I.cost("lcg", n, m, 5), grid=lambda: np.round(I.cost("lcg", n, m, 5) * 2), const=lambda: np.ones((n, m)), big=lambda: I.cost("lcg", n, m, 5) * 8, sym=lambda: np.abs(np.arange(n)[:, None] - np.arange(m)) * 1.0)[case["M"]]()
    a, b = I.weights(case["w"], n, 0), I.weights(case["w"], m, 1)
    nx, cv = backend(case["arr"]), conv(case["arr"])
    f = Sm.smooth_ot_dual if case["fun"] == "dual" else Sm.smooth_ot_semi_dual
    kw = dict(reg_type=dict(kl="kl", l2="l2", sparse="sparsity_constrained")[kind], method=case["method"], stopThr=1e-12, numItermax=3000)
    if kind == "sparse":
        kw["max_nz"] = case["k"]
    with np.errstate(all="ignore"):
        G, L = call(f, cv(a), cv(b), cv(M), reg, log=True, **kw)[0]
        G2 = call(f, cv(a), cv(b), cv(M), reg, **kw)[0]
    T, al = num(nx, G), num(nx, L["alpha"])
    if not np.allclose(T, num(nx, G2), equal_nan=True):
        raise Fail("smooth:log", "other plan without log")
    tag = case["fun"] + ":" + kind
    if not np.isfinite(T).all():
        raise Fail("smooth:finite:" + tag + (":zeros" if (b == 0).any() else ""), "plan %s" % T.tolist())
    r = make(kind, reg, case["k"])
    if case["fun"] == "dual":
        be = num(nx, L["beta"])
        W = np.array([conj(kind, reg, case["k"], al + be[j] - M[:, j])[1] for j in range(m)]).T
        if kind != "sparse":
            near("smooth:plan:" + tag, T, W, 1e-9, "plan of the potentials")
    else:
        near("smooth:columns:" + tag, T.sum(0), b, 1e-9, "target marginal")
    if kind == "sparse":
        if (np.count_nonzero(T, axis=0) > case["k"]).any():
            raise Fail("smooth:sparsity", "%s non-zeros per column" % np.count_nonzero(T, axis=0))
        if (T < 0).any():
            raise Fail("smooth:sign", "negative plan")
        if case["k"] < n:
            return "sparse"  # a non-smooth dual: feasibility is not guaranteed
    tol = 2e-3 if kind != "l2" or (a == 0).any() or (b == 0).any() else 2e-4
    if case["method"] != "L-BFGS-B":
        tol = 5e-3
    oracle.check_coupling(Fail, "smooth:marginals:" + tag, T, a, b, tol)
    if kind == "kl":
        R = oracle.sinkhorn_ref(a, b, M, reg)
        if np.abs(R - T).max() > 10 * tol:
            raise Fail("smooth:optimal:" + tag, "plan %s, optimum %s" % (T.round(5).tolist(), R.round(5).tolist()))
    else:  # optimality: <C + reg T, .> is minimised at T over the couplings
        D = M + reg * T
        gap = (D * T).sum() - oracle.transport_lp(a, b, D)
        if abs(gap) > 10 * tol * (1 + np.abs(D).max()):
            raise Fail("smooth:optimal:" + tag, "first-order gap %g" % gap)
    return "ok"


# ---- stochastic solvers: all short histories of picks
def gen_t(ctx):
    ctx.choose("n", [(3, 4), (1, 1), (1, 3), (4, 2)])
    ctx.choose("reg", [1.0, 0.2, 10.0])
    ctx.choose("w", ["uniform", "lcg", "zeros"])
    ctx.choose("fun", ["sag", "asgd", "sgd"])
    ctx.choose("its", [0, 1, 2, 3])
    ctx.choose("lr", [None, 0.5])
    ctx.choose("batch", [1, 2])
    c = ctx.case
    if c["fun"] != "sgd" and c["batch"] != 1 or c["fun"] == "sgd" and (c["lr"] is None or c["batch"] > min(c["n"]) or c["its"] > (2 if c["batch"] == 1 else 1)):
        ctx.prune()


def soft(b, r, reg):
    e = np.exp(-(r - r.min()) / reg) * b
    return e / e.sum()


def explore(case, a, b, M):
    """Every state reachable by the documented updates, for all picks."""
    n, m = M.shape
    reg, its = case["reg"], case["its"]
    lr = case["lr"] or 1.0 / max(a / reg)
    if case["fun"] == "sag":
        S = [(np.zeros(m), np.zeros((n, m)))]
        for _ in range(its):
            T = []
            for be, st in S:
                for i in range(n):
                    st2 = st.copy()
                    st2[i] = a[i] * (b - soft(b, M[i] - be, reg))
                    T.append((be + lr / n * st2.sum(0), st2))
            S = T
        return [s[0] for s in S]
    if case["fun"] == "asgd":
        S = [(np.zeros(m), np.zeros(m))]
        for k in range(1, its + 1):
            T = []
            for be, av in S:
                for i in range(n):
                    c = be + lr / np.sqrt(k) * (b - soft(b, M[i] - be, reg))
                    T.append((c, c / k + (1 - 1 / k) * av))
            S = T
        return [s[1] for s in S]
    S = [(np.zeros(n), np.zeros(m))]
    B = case["batch"]
    for k in range(1, its + 1):
        T = []
        for al, be in S:
            for P in itertools.combinations(range(n), B):
                for Q in itertools.combinations(range(m), B):
                    P_, Q_ = list(P), list(Q)
                    F = np.exp((al[P_][:, None] + be[Q_] - M[np.ix_(P_, Q_)]) / reg) * a[P_][:, None] * b[Q_]
                    x, y = al.copy(), be.copy()
                    x[P_] += lr / np.sqrt(k) * (a[P_] * B / m - F.sum(1))
                    y[Q_] += lr / np.sqrt(k) * (b[Q_] * B / n - F.sum(0))
                    T.append((x, y))
        S = T
    return [np.concatenate(s) for s in S]


def run_t(case):
    n, m = case["n"]
    M = I.cost("lcg", n, m, 5)
    a, b = I.weights(case["w"], n, 0), I.weights(case["w"], m, 1)
    R = np.array(explore(case, a, b, M))
    seen = set()
    for seed in range(12):
        with np.errstate(all="ignore"):
            if case["fun"] == "sgd":
                f = lambda: np.concatenate(St.sgd_entropic_regularization(a, b, M, case["reg"], case["batch"], case["its"], case["lr"], random_state=seed))
            else:
                g = St.sag_entropic_transport if case["fun"] == "sag" else St.averaged_sgd_entropic_transport
                f = lambda: g(a, b, M, case["reg"], numItermax=case["its"], lr=case["lr"], random_state=seed)
            z, z2 = f(), f()
        if not np.array_equal(z, z2):
            raise Fail("seed:" + case["fun"], "two results with the same seed")
        d = np.abs(R - z).max(1)
        if not d.min() <= 1e-10 * (1 + np.abs(z).max()):
            raise Fail("reachable:" + case["fun"], "potential %s is not reachable in %d steps" % (z.tolist(), case["its"]))
        seen.add(int(d.argmin()))
    if case["its"] == 1 and case["fun"] != "sgd" and n > 1 and len(np.unique(R.round(9), axis=0)) > 1 and len(seen) < 2:
        raise Fail("picks:" + case["fun"], "the same sample is picked for 12 seeds")
    return {"inner": len(R), "states": len(R), "outcome": "ok"}


# ---- stochastic solvers: formulas and plans
def gen_p(ctx):
    ctx.choose("n", [(3, 4), (1, 1), (1, 3), (4, 2)])
    ctx.choose("reg", [1.0, 0.2, 10.0, 0.01])
    ctx.choose("w", ["uniform", "lcg", "zeros"])
    ctx.choose("fun", ["formulas", "sag", "asgd", "sgd"])
    ctx.choose("M", ["lcg", "shift"])
    ctx.choose("its", [300, 5])


def run_p(case):
    n, m = case["n"]
    reg = case["reg"]
    M = I.cost("lcg", n, m, 5) + (50 if case["M"] == "shift" else 0)
    a, b = I.weights(case["w"], n, 0), I.weights(case["w"], m, 1)
    be = I.cost("lcg", 1, m, 8)[0]
    if case["fun"] == "formulas":
        for i in range(n):
            with np.errstate(all="ignore"):
                g = St.coordinate_grad_semi_dual(b, M, reg, be, i)
            near("coordinate:" + ("underflow" if case["M"] == "shift" or reg < 0.1 else "grad"), g, b - soft(b, M[i] - be, reg), 1e-9, "gradient")
        al = St.c_transform_entropic(b, M, reg, be)
        r = M - be
        want = r.min(1) - reg * np.log((np.exp(-(r - r.min(1, keepdims=True)) / reg) * b).sum(1))
        near("c_transform", al, want, 1e-9, "transform")
        if case["M"] == "lcg" and reg > 0.1:
            for P, Q in ((list(range(n)), list(range(m))), ([0], [m - 1]), (list(range(n))[::-1], [0])):
                ga, gb = St.batch_grad_dual(a, b, M, reg, al * 0.1, be * 0.1, 1, np.array(P), np.array(Q))
                F = np.exp((al[P][:, None] * 0.1 + be[Q] * 0.1 - M[np.ix_(P, Q)]) / reg) * a[P][:, None] * b[Q]
                wa, wb = np.zeros(n), np.zeros(m)
                wa[P], wb[Q] = a[P] * len(Q) / m - F.sum(1), b[Q] * len(P) / n - F.sum(0)
                near("batch:alpha", ga, wa, 1e-10, "gradient")
                near("batch:beta", gb, wb, 1e-10, "gradient")
        return "ok"
    if case["fun"] == "sgd" and (case["M"] == "shift" or reg < 0.1):
        return "n/a"
    np.random.seed(3)
    with np.errstate(all="ignore"):
        if case["fun"] == "sgd":
            P, L = St.solve_dual_entropic(a, b, M, reg, min(n, m), numItermax=case["its"], lr=0.5, log=True)
        else:
            P, L = St.solve_semi_dual_entropic(a, b, M, reg, case["fun"], numItermax=case["its"], log=True)
    al, be = L["alpha"], L["beta"]
    if not np.isfinite(P).all():
        raise Fail("finite:" + case["fun"], "plan %s" % P.tolist())
    near("plan:" + case["fun"], P, np.exp((al[:, None] + be - M) / reg) * a[:, None] * b, 1e-8, "plan")
    if case["fun"] != "sgd":
        near("rows:" + case["fun"], P.sum(1), a, 1e-8, "source marginal")
        near("c_transform:" + case["fun"], al, St.c_transform_entropic(b, M, reg, be), 1e-9, "potential")
        v = lambda be: (a * St.c_transform_entropic(b, M, reg, be)).sum() + be @ b
        if case["fun"] == "sag" and case["its"] == 300 and not v(be) >= v(np.zeros(m)) - 1e-9:
            raise Fail("ascent:sag", "semi-dual %g below the initial %g" % (v(be), v(np.zeros(m))))
    if case["its"] == 300 and case["fun"] != "asgd" and reg == 10.0 and case["M"] == "lcg":
        np.random.seed(3)
        if case["fun"] == "sag":
            P = St.solve_semi_dual_entropic(a, b, M, reg, "SAG", numItermax=6000)
            near("limit:sag", P, oracle.sinkhorn_ref(a, b, M, reg), 1e-2, "plan")
    return "ok"


# ---- dual losses and plans
def gen_l(ctx):
    ctx.choose("n", [(3, 4), (1, 1), (1, 3), (4, 2)])
    ctx.choose("reg", [1, 0.3, 5.0])
    ctx.choose("w", ["none", "lcg", "zeros"])
    ctx.choose("metric", ["sqeuclidean", "euclidean", "callable"])
    ctx.choose("arr", ["C", "torch", "jax", "torch32", "strided"])
    ctx.choose("pot", ["zero", "lcg", "opt"])
    ctx.choose("fun", ["entropic", "quadratic"])


def run_l(case):
    n, m = case["n"]
    X, Y = I.points("lcg", n, 2, 3), I.points("lcg", m, 2, 4)
    nx, cv = backend(case["arr"]), conv(case["arr"])
    reg = case["reg"]
    D = ((X[:, None] - Y[None]) ** 2).sum(-1)
    M = dict(sqeuclidean=D, euclidean=np.sqrt(D), callable=X @ Y.T)[case["metric"]]
    metric = (lambda x, y: x @ y.T) if case["metric"] == "callable" else case["metric"]
    ws = None if case["w"] == "none" else I.weights(case["w"], n, 0)
    wt = None if case["w"] == "none" else I.weights(case["w"], m, 1)
    a, b = (np.ones(n) / n, np.ones(m) / m) if ws is None else (ws, wt)
    u, v = np.zeros(n), np.zeros(m)
    opt = case["pot"] == "opt"
    if case["pot"] == "lcg":
        u, v = I.cost("lcg", 1, n, 7)[0] * 0.5, I.cost("lcg", 1, m, 8)[0]
    if opt:
        if case["fun"] == "quadratic":
            return "n/a"
        for _ in range(5000):
            u = -reg * np.log((np.exp((v - M) / reg) * b).sum(1))
            v = -reg * np.log((np.exp((u[:, None] - M) / reg) * a[:, None]).sum(0))
    kw = dict(reg=reg, metric=metric)
    if ws is not None:
        kw.update(ws=cv(ws), wt=cv(wt))
    loss, plan = (St.loss_dual_entropic, St.plan_dual_entropic) if case["fun"] == "entropic" else (St.loss_dual_quadratic, St.plan_dual_quadratic)
    A = [cv(z) for z in (u, v, X, Y)]
    lv, pv = float(num(nx, loss(*A, **kw))), num(nx, plan(*A, **kw))
    S = u[:, None] + v - M
    if case["fun"] == "entropic":
        F, P = -reg * np.exp(S / reg), np.exp(S / reg)
    else:
        F, P = -np.maximum(S, 0) ** 2 / 4 / reg, np.maximum(S, 0) / 2 / reg
    ab = np.outer(a, b)
    t = 1e-4 if case["arr"] == "torch32" else 1e-9
    near("loss:" + case["fun"], lv, u @ a + v @ b + (ab * F).sum(), t, "loss")
    near("plan:" + case["fun"], pv, ab * P, t, "plan")
    if opt:
        oracle.check_coupling(Fail, "plan:optimal", pv, a, b, max(t, 1e-6))
    if case["arr"] == "torch":  # ascent direction of the loss: defect of the marginals
        A = [z.detach().clone().requires_grad_(i < 2) for i, z in enumerate(A)]
        loss(*A, **kw).backward()
        near("gradient:u", A[0].grad.numpy(), a - (ab * P).sum(1), 1e-9, "gradient")
        near("gradient:v", A[1].grad.numpy(), b - (ab * P).sum(0), 1e-9, "gradient")
    return "ok"


def scopes(tier):
    return [
        Scope("regularisers", gen_r, run_r, doc="conjugates and semi-dual maxima against all supports, projections, gradients of the dual objectives"),
        Scope("smooth", gen_s, run_s, dev=1, thorough_dev=2, doc="smooth OT: plans of the potentials, sparsity, marginals, optimality"),
        Scope("histories", gen_t, run_t, doc="stochastic solvers stay in the set of states reachable by all histories of picks"),
        Scope("stochastic", gen_p, run_p, doc="gradients, transforms and plans of the stochastic solvers"),
        Scope("losses", gen_l, run_l, doc="dual losses, plans and gradients on all backends"),
    ]
