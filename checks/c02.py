"""C02: the dual potentials returned by exact OT certify optimality."""
BACKENDS = ("torch",)
OMP = 4
import numpy as np
import ot

from checks import c01
from mc import instances as I
from mc import oracle
from mc.engine import Fail, Scope

ASSUMPTIONS = ("dual feasibility tolerance 1e-8 relative to the cost scale (1e-5 for single precision)",)


def check_duals(sig, u, v, a, b, M, cost, eps, G=None, centered=None, active_only=False):
    u, v = np.asarray(u, float), np.asarray(v, float)
    if u.shape != (len(a),) or v.shape != (len(b),):
        raise Fail(sig + ":shape", "%s %s" % (u.shape, v.shape))
    S = u[:, None] + v[None, :] - M
    if active_only:
        S = S[np.ix_(a > 0, b > 0)]
    if not np.all(np.isfinite(S)):
        raise Fail(sig + ":finite", "non-finite potentials")
    sc = 1 + np.abs(M).max()
    if S.max() > eps * sc:
        raise Fail(sig + ":infeasible", "u_i + v_j exceeds M_ij by %g" % S.max())
    d = float(u @ a + v @ b)
    if abs(d - cost) > eps * sc * max(1, a.sum()):
        raise Fail(sig + ":gap", "dual value %r, primal %r" % (d, cost))
    if G is not None and not active_only:
        bad = np.abs(S[np.asarray(G) > 1e-9 * a.sum()]).max(initial=0)
        if bad > 10 * eps * sc:
            raise Fail(sig + ":slack", "slack %g on the support of the plan" % bad)
    if centered:
        if abs(float(u @ a - v @ b)) > eps * sc * max(1, a.sum()) * 10:
            raise Fail(sig + ":center", "<u,a>=%r <v,b>=%r" % (float(u @ a), float(v @ b)))


def gen_small(ctx):
    pairs = [p for p in c01.small_pairs("quick") if len(p[2]) ** (len(p[0]) * len(p[1])) <= (800 if TIER == "quick" else 20000)]
    a, b, al = ctx.choose("pair", pairs)
    ctx.choose("center", [True, False])


def run_small(case):
    a, b, al = case["pair"]
    n, m = len(a), len(b)
    C = I.all_costs(n, m, al)
    opt = I.optimal_costs(a, b, al)
    s = float(sum(a))
    af, bf = np.array(a, float) / s, np.array(b, float) / s
    outs = set()
    for k in range(len(C)):
        M = C[k].reshape(n, m).astype(float)
        G, log = ot.emd(af, bf, M, log=True, center_dual=case["center"])
        check_duals("emd", log["u"], log["v"], af, bf, M, opt[k] / s, 1e-8, G, case["center"])
        outs.add((tuple(np.round(log["u"], 6)), tuple(np.round(log["v"], 6))))
    return dict(inner=len(C), states=len(C), transitions=len(C), outcome=(a, b, case["center"], len(outs)))


def gen_forms(ctx):
    ctx.dev("shape", c01.SHAPES)
    ctx.dev("wa", c01.WK + ["empty"])
    ctx.dev("wb", c01.WK + ["empty"])
    ctx.dev("cost", c01.CK)
    ctx.dev("lay", I.LAYOUTS)
    ctx.dev("wlay", ["C", "strided", "reversed"])
    ctx.dev("mdtype", ["float64", "float32", "int64"])
    ctx.dev("wdtype", ["float64", "float32", "list"])
    ctx.dev("scale", [1.0, 0.01, 100.0])
    ctx.dev("threads", [1, 2])
    ctx.dev("center", [True, False])
    ctx.dev("warm", ["none", "zeros", "optimal", "junk", "half"])
    ctx.dev("api", ["emd", "emd2", "emd2-multi", "solve", "solve-nocenter"])


def run_forms(case):
    a, b, M, ar, br, Mr = c01.build(case)
    opt = oracle.transport_lp(ar, br, Mr)
    eps = 5e-6 if c01.f32(case) else 1e-8
    kw = dict(numThreads=case["threads"], center_dual=case["center"])
    n, m = Mr.shape
    pot = {"none": None, "zeros": (np.zeros(n), np.zeros(m)), "junk": (np.arange(n) * 3.0 - 4, 5.0 - np.arange(m)),
           "half": (Mr.min(1) / 2, Mr.min(0) / 2)}.get(case["warm"])
    if case["warm"] == "optimal":
        l0 = ot.emd(a, b, M, log=True)[1]
        pot = (np.asarray(l0["u"], float), np.asarray(l0["v"], float))
    api = case["api"]
    cen = case["center"]
    zero = (ar == 0).any() or (br == 0).any()
    if pot is not None and not api.startswith("solve"):
        kw["potentials_init"] = pot
    G = None
    if api == "emd":
        G, log = ot.emd(a, b, M, log=True, **kw)
        u, v = log["u"], log["v"]
    elif api == "emd2":
        val, log = ot.emd2(a, b, M, log=True, **kw)
        u, v = log["u"], log["v"]
    elif api == "emd2-multi":
        if isinstance(b, list) or b is None:
            return "skip"
        cols = [br, br[::-1].copy()]
        dt = np.asarray(b).dtype
        res = ot.emd2(a, np.stack(cols, 1).astype(dt), M, log=True, **kw)
        for k, c in enumerate(cols):
            c = c * ar.sum() / c.sum()
            val, log = res[k]
            o = oracle.transport_lp(ar, c, Mr)
            check_duals("emd2-multi", log["u"], log["v"], ar, c, Mr, o, eps, None, cen)
        return round(opt, 9)
    else:
        if isinstance(a, list) or isinstance(b, list):
            return "skip"
        if not case["center"]:
            return "skip"
        res = ot.solve(M.astype(float), a, b)
        u, v = res.potentials
        G = res.plan
    check_duals(api, u, v, ar, br, Mr, opt, eps, None if c01.f32(case) else np.asarray(G) if G is not None else None, cen)
    return tuple(np.round(np.asarray(u, float), 5))


def gen_big(ctx):
    ctx.choose("shape", [(40, 50), (80, 64), (100, 13), (13, 100)] + ([(200, 200), (300, 50)] if TIER == "thorough" else []))
    ctx.choose("cost", ["lcg", "line", "ties", "mixed", "intcost", "const", "antirank1"])
    ctx.choose("w", ["uniform", "lcg", "zeros", "spiky"])
    ctx.choose("threads", [1, 2])


def run_big(case):
    n, m = case["shape"]
    M = I.cost(case["cost"], n, m)
    a, b = I.weights(case["w"], n, 3), I.weights(case["w"], m, 4)
    G, log = ot.emd(a, b, M, log=True, numThreads=case["threads"])
    c = float((G * M).sum())
    check_duals("big", log["u"], log["v"], a, b, M, c, 1e-8, G, True)
    return round(c, 9)


def gen_line(ctx):
    ctx.choose("shape", [(1, 1), (2, 2), (1, 3), (3, 2), (3, 3)] + ([(4, 3), (4, 4)] if TIER == "thorough" else []))
    ctx.choose("w", ["none", "ints", "zeros-u", "zeros-v", "equal"])
    ctx.choose("p", [1, 2])
    ctx.dev("sort", [True, False])
    ctx.dev("batch", [0, 1])


def run_line(case):
    """Every placement of the atoms on an integer grid (ties included)."""
    import itertools
    import torch
    n, m = case["shape"]
    g = 3 if n + m > 5 else 4
    wu, wv = {"none": (np.ones(n), np.ones(m)), "ints": (1.0 + np.arange(n), 2.0 + np.arange(m) % 2), "equal": (np.ones(n), np.ones(m)),
              "zeros-u": (1.0 * (np.arange(n) % 2 == 0), np.ones(m)), "zeros-v": (np.ones(n), 1.0 * (np.arange(m) % 2 == 0))}[case["w"]]
    wu, wv = wu / wu.sum(), wv / wv.sum()
    X = np.array(list(itertools.product(range(g), repeat=n)), float).T
    Y = np.array(list(itertools.product(range(g), repeat=m)), float).T
    if not case["sort"]:
        X = X[:, (np.diff(X, axis=0) >= 0).all(0)]
        Y = Y[:, (np.diff(Y, axis=0) >= 0).all(0)]
    if X.shape[1] * Y.shape[1] > (1500 if TIER == "quick" else 60000):
        X, Y = X[:, ::7], Y[:, ::5]
    kx, ky = X.shape[1], Y.shape[1]
    X, Y = np.repeat(X, ky, 1), np.tile(Y, (1, kx))
    T = torch.tensor
    a = None if case["w"] == "none" else T(wu)
    b = None if case["w"] == "none" else T(wv)
    if case["batch"]:
        a, b = T(np.repeat(wu[:, None], kx * ky, 1)), T(np.repeat(wv[:, None], kx * ky, 1))
    f, h, cost = ot.emd_1d_dual_backprop(T(X), T(Y), a, b, p=case["p"], require_sort=case["sort"])
    f, h, cost = f.detach().numpy(), h.detach().numpy(), cost.detach().numpy()
    if f.shape != X.shape or h.shape != Y.shape or cost.shape != (kx * ky,):
        raise Fail("line:shape", "%s %s %s" % (f.shape, h.shape, cost.shape))
    for k in range(kx * ky):
        M = np.abs(X[:, k][:, None] - Y[:, k][None]) ** case["p"]
        want = oracle.line_cost(X[:, k], Y[:, k], wu, wv, case["p"])
        check_duals("line", f[:, k], h[:, k], wu, wv, M, want, 1e-9, active_only=True)
        if abs(cost[k] - want) > 1e-9 * (1 + want):
            raise Fail("line:cost", "%r, optimum %r" % (cost[k], want))
    return dict(inner=kx * ky, states=kx * ky, transitions=kx * ky, outcome=round(float(cost.sum()), 6))


def scopes(tier):
    global TIER
    TIER = c01.TIER = tier
    return [
        Scope("small-integer", gen_small, run_small, doc="all cost matrices over integer alphabets: exact duality"),
        Scope("forms", gen_forms, run_forms, dev=2, thorough_dev=3, doc="input forms x options x warm starts"),
        Scope("large-structured", gen_big, run_big),
        Scope("line", gen_line, run_line, dev=1, thorough_dev=2, doc="all placements on an integer grid: potentials of the one-dimensional solver"),
    ]
