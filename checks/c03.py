"""C03: every route to the exact OT value agrees with the dense reference."""
BACKENDS = ()
OMP = 4
import itertools

import numpy as np
import ot
import scipy.sparse as sp

from checks import c01
from mc import instances as I
from mc import oracle
from mc.engine import Fail, Scope

METRICS = ["sqeuclidean", "euclidean", "cityblock"]
ASSUMPTIONS = ("the oracle for sparse problems is an exact integer min-cost-flow solver written for this check",)


# ------------------------------------------------ sparse: every edge subset of small graphs
def sparse_pairs(tier):
    out = []
    for n, m in [(1, 2), (2, 2), (2, 3), (3, 2), (3, 3)]:
        T = max(n, m)
        ps = list(itertools.product(oracle.compositions(T, n), oracle.compositions(T, m)))
        if (n, m) == (3, 3):
            ps = [((1, 1, 1), (1, 1, 1)), ((1, 2, 3), (3, 2, 1)), ((1, 0, 2), (1, 1, 1)), ((2, 2, 2), (1, 5, 0)),
                  ((0, 0, 3), (1, 1, 1))]
        for a, b in ps:
            out.append((a, b))
    if tier == "thorough":
        out += [((1, 1, 1), (1, 1, 1, 0)), ((2, 1, 1, 2), (3, 1, 2)), ((1, 2, 2, 1), (3, 3))]
    return out


COSTS = ["intcost", "neg", "negbig", "zero", "mixed"]


def icost(kind, n, m):
    i, j = np.arange(n)[:, None], np.arange(m)[None, :]
    base = (i * i * 7 + j * 11 + i * j * 5) % 13
    return {"intcost": base + 1, "neg": -base - 1, "negbig": -100 * base + 3, "zero": base * 0, "mixed": base - 6}[kind]


def gen_sparse(ctx):
    ctx.choose("pair", sparse_pairs(TIER))
    ctx.choose("cost", COSTS)


def run_sparse(case):
    a, b = case["pair"]
    n, m = len(a), len(b)
    s = float(sum(a))
    af, bf = np.array(a, float) / s, np.array(b, float) / s
    Ci = icost(case["cost"], n, m)
    cells = [(i, j) for i in range(n) for j in range(m)]
    feas = infeas = 0
    for mask in range(1 << len(cells)):
        E = [c for k, c in enumerate(cells) if mask >> k & 1]
        if not E:
            continue
        if mask % 3 == 1:
            E = E[::-1]  # the order of the stored entries must not matter
        C = [[None] * m for _ in range(n)]
        for i, j in E:
            C[i][j] = int(Ci[i, j])
        want = oracle.transport_exact(a, b, C)
        S = sp.coo_matrix(([float(Ci[e]) for e in E], ([e[0] for e in E], [e[1] for e in E])), shape=(n, m))
        fmt = mask % 4
        if fmt == 1 and (Ci != 0).all():
            S = S.tocsr()
        elif fmt == 2 and (Ci != 0).all():
            S = S.tocsc()
        G, log = ot.emd(af, bf, S, log=True)
        what = "a=%s b=%s edges=%s" % (a, b, [(e, int(Ci[e])) for e in E])
        if want is None:
            infeas += 1
            if log["warning"] is None:
                raise Fail("sparse:infeasible-missed", what + ": infeasible problem reported as solved")
            continue
        feas += 1
        if log["warning"] is not None:
            raise Fail("sparse:warning", what + ": " + log["warning"])
        D = np.asarray(G.todense()) if sp.issparse(G) else np.asarray(G)
        oracle.check_coupling(Fail, "sparse", D, af, bf)
        for i, j in cells:
            if (i, j) not in E and D[i, j] != 0:
                raise Fail("sparse:edge", what + ": mass on a missing edge %s" % ((i, j),))
        c = float((D * Ci).sum())
        if abs(c - want / s) > 1e-8 or abs(float(log["cost"]) - want / s) > 1e-8:
            raise Fail("sparse:value", what + ": cost %r/%r, optimum %r" % (c, log["cost"], want / s))
        u, v = np.asarray(log["u"]), np.asarray(log["v"])
        for i, j in E:
            if a[i] > 0 and b[j] > 0 and u[i] + v[j] > Ci[i, j] + 1e-7 * 1000:
                raise Fail("sparse:dual", what + ": infeasible dual on %s" % ((i, j),))
        val, l2 = ot.emd2(af, bf, S, log=True, return_matrix=True)
        if abs(float(val) - want / s) > 1e-8:
            raise Fail("sparse:emd2", what + ": emd2 %r, optimum %r" % (val, want / s))
        D2 = np.asarray(l2["G"].todense())
        oracle.check_coupling(Fail, "sparse:emd2", D2, af, bf)
    return dict(inner=feas * 2 + infeas, states=feas + infeas, transitions=feas + infeas, outcome=(a, b, case["cost"], feas))


# ------------------------------------------------ sparse, larger, banded
def gen_band(ctx):
    ctx.choose("shape", [(6, 6), (12, 9), (15, 40), (60, 60)] + ([(150, 100)] if TIER == "thorough" else []))
    ctx.choose("band", [2, 4, 1000])
    ctx.choose("cost", ["lcg", "mixed", "ties", "neg", "big"])
    ctx.choose("w", ["uniform", "lcg", "zeros"])
    ctx.choose("api", ["emd", "emd2", "csr"])


def run_band(case):
    n, m = case["shape"]
    M = I.cost(case["cost"], n, m) + 1e-3
    a, b = I.weights(case["w"], n, 3), I.weights(case["w"], m, 4)
    i, j = np.arange(n)[:, None], np.arange(m)[None, :]
    # a north-west-corner plan always lives on the support, so the problem is feasible
    mask = np.abs(i * m - j * n) <= case["band"] * max(n, m)
    ca, cb = a.cumsum(), b.cumsum()
    p = q = 0
    while p < n and q < m:
        mask[p, q] = True
        if p == n - 1 and q == m - 1:
            break
        if q == m - 1 or (p < n - 1 and ca[p] <= cb[q]):
            p += 1
        else:
            q += 1
    for p in range(1, n):
        pass
    r, c = np.nonzero(mask)
    S = sp.coo_matrix((M[r, c], (r, c)), shape=(n, m))
    if case["api"] == "csr":
        S = S.tocsr()
    big = 1e5 if case["cost"] != "big" else 1e7
    D = np.where(mask, M, big)
    opt = oracle.transport_lp(a, b, D)
    if opt > big * 1e-9 + 2 * np.abs(M).max():
        return "infeasible by rounding"
    if case["api"] == "emd2":
        v, log = ot.emd2(a, b, S, log=True, return_matrix=True)
        G = log["G"]
        v = float(v)
    else:
        G, log = ot.emd(a, b, S, log=True)
        v = float(log["cost"])
    if log["warning"] is not None:
        raise Fail("band:warning", log["warning"])
    G = np.asarray(G.todense())
    oracle.check_coupling(Fail, "band", G, a, b)
    if np.abs(G[~mask]).max(initial=0) > 0:
        raise Fail("band:edge", "mass on a missing edge")
    sc = 1 + np.abs(M).max()
    ref = ot.emd2(a, b, D)
    if abs(v - ref) > 1e-7 * sc:
        raise Fail("band:value", "sparse %r, dense with prohibitive costs %r, lp %r" % (v, ref, opt))
    return round(v, 9)


# ------------------------------------------------ lazy costs
def gen_lazy(ctx):
    ctx.choose("metric", METRICS)
    ctx.dev("n", [3, 1, 2, 5, 12, 40])
    ctx.dev("m", [4, 1, 2, 3, 11, 33])
    ctx.dev("d", [2, 1, 3, 5])
    ctx.dev("pts", ["lcg", "grid", "dup", "signed", "same", "shifted"])
    ctx.dev("wa", ["lcg", "uniform", "zeros", "zero_end", "dirac", "none"])
    ctx.dev("wb", ["lcg", "uniform", "zeros", "zero_end", "dirac", "none"])
    ctx.dev("lay", I.LAYOUTS)
    ctx.dev("dtype", ["float64", "float32", "int64"])
    ctx.dev("warm", ["none", "zeros", "optimal", "junk"])
    ctx.dev("center", [True, False])
    ctx.dev("api", ["lazy", "lazy-nomatrix", "lazy-plain", "solve_sample"])


def run_lazy(case):
    n, m, d = case["n"], case["m"], case["d"]
    X, Y = I.points(case["pts"], n, d, 1), I.points(case["pts"], m, d, 2)
    if case["dtype"] == "int64":
        X, Y = np.round(3 * X), np.round(3 * Y)
    X, Y = X.astype(case["dtype"]), Y.astype(case["dtype"])
    Xr, Yr = X.astype(float), Y.astype(float)
    D = np.abs(Xr[:, None] - Yr[None])
    M = {"sqeuclidean": (D ** 2).sum(-1), "euclidean": np.sqrt((D ** 2).sum(-1)), "cityblock": D.sum(-1)}[case["metric"]]
    a = None if case["wa"] == "none" else I.weights(case["wa"], n, 1)
    b = None if case["wb"] == "none" else I.weights(case["wb"], m, 2)
    if case["dtype"] == "int64" and a is None and b is None:
        return "skip"  # uniform weights take the integer dtype of the points
    if case["dtype"] == "int64" and case["api"] == "solve_sample" and (a is None or b is None):
        return "skip"
    ar = np.ones(n) / n if a is None else a
    br = np.ones(m) / m if b is None else b
    opt = oracle.transport_lp(ar, br, M)
    sc = 1 + np.abs(M).max()
    eps = 2e-6 if case["dtype"] == "float32" else 1e-8
    pot = {"none": None, "zeros": (np.zeros(n), np.zeros(m)),
           "junk": (3.0 * np.arange(n) - 5, 2.0 * np.arange(m))}.get(case["warm"])
    if case["warm"] == "optimal":
        l0 = ot.emd(ar, br, M, log=True)[1]
        pot = l0["u"], l0["v"]
    Xl, Yl = I.layout(X, case["lay"]), I.layout(Y, case["lay"])
    api = case["api"]
    G = None
    u = v = None
    if api == "solve_sample":
        if a is None and b is None:
            return "skip"
        r = ot.solve_sample(Xl, Yl, a, b, metric=case["metric"], lazy=True)
        val = float(r.value)
        G = r.plan
    elif api == "lazy-plain":
        val = float(ot.lp.emd2_lazy(Xl, Yl, a, b, metric=case["metric"], return_matrix=False, center_dual=case["center"], potentials_init=pot))
    else:
        val, log = ot.lp.emd2_lazy(Xl, Yl, a, b, metric=case["metric"], log=True, return_matrix=api == "lazy",
                                   center_dual=case["center"], potentials_init=pot)
        val = float(val)
        G = log.get("G")
        u, v = np.asarray(log["u"], float), np.asarray(log["v"], float)
        if log["warning"] is not None:
            raise Fail("lazy:warning", str(log["warning"]))
    if abs(val - opt) > eps * sc:
        raise Fail("lazy:value:" + api, "lazy %r, optimum %r" % (val, opt))
    if G is not None:
        G = np.asarray(G.todense()) if sp.issparse(G) else np.asarray(G)
        oracle.check_coupling(Fail, "lazy:" + api, G.astype(float), ar, br, tol=1e-6 if eps > 1e-7 else 1e-9)
        if abs(float((G * M).sum()) - opt) > eps * sc:
            raise Fail("lazy:plan", "plan costs %r, optimum %r" % ((G * M).sum(), opt))
    if u is not None:
        S = (u[:, None] + v[None] - M)[np.ix_(ar > 0, br > 0)]
        if S.max() > eps * 10 * sc:
            raise Fail("lazy:dual", "dual infeasible by %g" % S.max())
        if abs(u @ ar + v @ br - opt) > eps * 10 * sc:
            raise Fail("lazy:dualvalue", "dual value %r, optimum %r" % (u @ ar + v @ br, opt))
    return round(val, 9)


# ------------------------------------------------ warm starts: any potentials, same optimum
def gen_warm(ctx):
    ctx.choose("shape", [(1, 1), (2, 2), (2, 3), (3, 3)])
    ctx.choose("w", ["uniform", "lcg", "zeros", "zero_end"])
    ctx.choose("cost", ["intcost", "ties", "mixed", "neg", "const", "line"])


def run_warm(case):
    n, m = case["shape"]
    M = I.cost(case["cost"], n, m)
    a, b = I.weights(case["w"], n, 1), I.weights(case["w"], m, 2)
    opt = oracle.transport_lp(a, b, M)
    vals = (-3.0, 0.0, 7.0) if n + m <= 5 else (-3.0, 7.0)
    cnt = 0
    cands = list(itertools.product(vals, repeat=n + m))
    if n + m == 6 or TIER == "thorough":
        cands += list(itertools.product((-1e6, 0.0, 1e-9), repeat=min(n + m, 5)))
    for p in cands:
        p = (p + (0.5,) * (n + m))[: n + m]
        pot = np.array(p[:n]), np.array(p[n:])
        G, log = ot.emd(a, b, M, log=True, potentials_init=pot)
        cnt += 1
        if log["warning"] is not None:
            raise Fail("warm:warning", "potentials %s: %s" % (p, log["warning"]))
        oracle.check_coupling(Fail, "warm", G, a, b)
        if abs(float(log["cost"]) - opt) > 1e-8 * (1 + np.abs(M).max()):
            raise Fail("warm:value", "potentials %s: cost %r, optimum %r" % (p, log["cost"], opt))
        v = float(ot.emd2(a, b, M, potentials_init=pot))
        if abs(v - opt) > 1e-8 * (1 + np.abs(M).max()):
            raise Fail("warm:emd2", "potentials %s: emd2 %r, optimum %r" % (p, v, opt))
    return dict(inner=2 * cnt, states=cnt, transitions=cnt, outcome=round(opt, 9))


def gen_warmbig(ctx):
    ctx.choose("shape", [(5, 7), (12, 12), (30, 20), (50, 60)])
    ctx.choose("w", ["uniform", "lcg", "zeros", "spiky", "dyadic"])
    ctx.choose("cost", ["lcg", "ties", "mixed", "neg", "const", "line", "big"])
    ctx.choose("pot", ["zeros", "optimal", "optimal-shifted", "optimal-nocenter", "neighbour", "rowmin", "junk", "huge", "noisy"])
    ctx.choose("threads", [1, 2])


def run_warmbig(case):
    n, m = case["shape"]
    M = I.cost(case["cost"], n, m)
    a, b = I.weights(case["w"], n, 1), I.weights(case["w"], m, 2)
    ref, l0 = ot.emd(a, b, M, log=True)
    k = case["pot"]
    u, v = l0["u"], l0["v"]
    if k == "zeros":
        u, v = np.zeros(n), np.zeros(m)
    elif k == "optimal-shifted":
        u, v = u + 3, v - 3
    elif k == "optimal-nocenter":
        l1 = ot.emd(a, b, M, log=True, center_dual=False)[1]
        u, v = l1["u"], l1["v"]
    elif k == "neighbour":
        l1 = ot.emd(a, b, M + 0.3 * I.cost("lcg", n, m, 9), log=True)[1]
        u, v = l1["u"], l1["v"]
    elif k == "rowmin":
        u = M.min(1)
        v = (M - u[:, None]).min(0)
    elif k == "junk":
        u, v = np.sin(np.arange(n)) * 9, np.cos(np.arange(m)) * 9
    elif k == "huge":
        u, v = 1e8 * np.ones(n), -1e8 * np.ones(m)
    elif k == "noisy":
        u, v = u + 1e-3 * np.sin(np.arange(n)), v + 1e-3 * np.cos(np.arange(m))
    G, log = ot.emd(a, b, M, log=True, potentials_init=(u, v), numThreads=case["threads"])
    if log["warning"] is not None:
        raise Fail("warmbig:warning", str(log["warning"]))
    oracle.check_coupling(Fail, "warmbig", G, a, b)
    sc = 1 + np.abs(M).max()
    tol = 1e-7 if k != "huge" else 1e-6
    if abs(float(log["cost"]) - float((ref * M).sum())) > tol * sc:
        raise Fail("warmbig:value", "cost %r, cold start %r" % (log["cost"], (ref * M).sum()))
    return round(float(log["cost"]), 9)


# ------------------------------------------------ unified entry point and thread counts
def gen_unified(ctx):
    ctx.choose("shape", [(1, 1), (3, 4), (6, 6), (20, 31)])
    ctx.choose("cost", ["lcg", "ties", "neg", "mixed", "negconst", "line"])
    ctx.choose("w", ["uniform", "lcg", "zeros"])
    ctx.choose("route", ["solve", "solve_sample", "threads2", "threads4", "threads-max", "emd_1d", "multi", "zero-filter"])


def run_unified(case):
    n, m = case["shape"]
    M = I.cost(case["cost"], n, m)
    a, b = I.weights(case["w"], n, 1), I.weights(case["w"], m, 2)
    r = case["route"]
    if r in ("solve_sample", "emd_1d"):
        d = 1 if r == "emd_1d" else 2
        X, Y = I.points("signed", n, d, 1), I.points("dup", m, d, 2)
        M = ((X[:, None] - Y[None]) ** 2).sum(-1)
    ref = float(ot.emd2(a, b, M))
    G = None
    if r == "solve":
        s = ot.solve(M, a, b)
        val, G = float(s.value), s.plan
        if abs(float(s.value_linear) - val) > 1e-9 * (1 + abs(val)):
            raise Fail("solve:linear", "%r %r" % (s.value_linear, val))
    elif r == "solve_sample":
        s = ot.solve_sample(X, Y, a, b)
        val, G = float(s.value), s.plan
    elif r == "emd_1d":
        val = float(ot.emd2_1d(X[:, 0], Y[:, 0], a, b))
        G = ot.emd_1d(X[:, 0], Y[:, 0], a, b)
    elif r == "multi":
        val = float(ot.emd2(a, np.stack([b, b], 1), M)[1])
    elif r == "zero-filter":
        # embedding the problem among empty bins changes nothing
        A, B = np.zeros(2 * n + 1), np.zeros(2 * m + 1)
        A[1::2], B[1::2] = a, b
        MM = np.full((2 * n + 1, 2 * m + 1), -50.0)
        MM[1::2, 1::2] = M
        GG, log = ot.emd(A, B, MM, log=True)
        val = float(log["cost"])
        G = GG[1::2, 1::2]
        if abs(GG.sum() - G.sum()) > 1e-12:
            raise Fail("zero-filter:mass", "mass on empty bins")
    else:
        nt = {"threads2": 2, "threads4": 4, "threads-max": "max"}[r]
        G, log = ot.emd(a, b, M, log=True, numThreads=nt)
        val = float(log["cost"])
    sc = 1 + np.abs(M).max()
    if abs(val - ref) > 1e-8 * sc:
        raise Fail("unified:" + r, "value %r, emd2 %r" % (val, ref))
    if G is not None:
        oracle.check_coupling(Fail, "unified:" + r, G, a, b)
        if abs(float((G * M).sum()) - ref) > 1e-8 * sc:
            raise Fail("unified:plan:" + r, "plan costs %r, emd2 %r" % ((G * M).sum(), ref))
    return round(val, 9)


def scopes(tier):
    global TIER
    TIER = c01.TIER = tier
    return [
        Scope("sparse-all-subsets", gen_sparse, run_sparse, doc="every edge subset of small bipartite graphs against an exact flow solver"),
        Scope("sparse-banded", gen_band, run_band),
        Scope("lazy", gen_lazy, run_lazy, dev=2, thorough_dev=3),
        Scope("warm-small", gen_warm, run_warm, doc="every warm start over a potential alphabet"),
        Scope("warm-large", gen_warmbig, run_warmbig),
        Scope("routes", gen_unified, run_unified),
    ]
