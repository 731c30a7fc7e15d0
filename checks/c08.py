"""C08: partial OT transports exactly the requested mass at minimum cost."""
BACKENDS = ()
OMP = 1
import functools
import itertools
import warnings

import numpy as np
import ot

from mc import instances as I
from mc import oracle
from mc.engine import Fail, Scope

ASSUMPTIONS = ("entropic partial OT: positive weights, compared to its optimality conditions at the accuracy its Dykstra iterations reach",)
TIER = "quick"


@functools.lru_cache(maxsize=None)
def partial_vertices(a, b, m):
    """vertices of {G >= 0, G1 <= a, G'1 <= b, sum G = m} for integers (slack row/column, dummy-dummy forbidden)"""
    n, k = len(a), len(b)
    V = I.vertices(a + (sum(b) - m,), b + (sum(a) - m,))
    V = V[V[:, -1] == 0].reshape(-1, n + 1, k + 1)
    return V[:, :n, :k].reshape(-1, n * k)


def feasible(G, a, b, m, name, tol=1e-9):
    G = np.asarray(G)
    if G.shape != (len(a), len(b)):
        raise Fail(name + ":shape", "plan of shape %r" % (G.shape,))
    if not np.all(np.isfinite(G)) or G.min() < -tol:
        raise Fail(name + ":sign", "plan is negative or not finite: %r" % (G,))
    if (G.sum(1) - a).max() > tol or (G.sum(0) - b).max() > tol:
        raise Fail(name + ":marginals", "plan exceeds a marginal: %r for a=%s b=%s" % (G, a, b))
    if m is not None and abs(G.sum() - m) > tol:
        raise Fail(name + ":mass", "plan moves %r instead of %r (a=%s b=%s)" % (G.sum(), m, a, b))


SH = {"quick": [((2, 2), (-1, 0, 1)), ((1, 2), (-1, 0, 2)), ((2, 3), (0, 1)), ((3, 2), (-1, 0))],
      "thorough": [((2, 2), (-2, -1, 0, 1, 3)), ((1, 3), (-1, 0, 2)), ((2, 3), (-1, 0, 1)), ((3, 2), (-1, 0, 1)), ((3, 3), (0, 1))]}


def gen_int(ctx):
    sh, al = ctx.choose("shape", SH[TIER])
    n, k = sh
    hi = 2
    a = ctx.choose("a", [x for x in itertools.product(range(hi + 1), repeat=n) if sum(x)])
    b = ctx.choose("b", [x for x in itertools.product(range(hi + 1), repeat=k) if sum(x)])
    if TIER == "quick" and n * k > 4 and (sum(a) > 4 or sum(b) > 4):
        ctx.prune()
    ctx.choose("m", list(range(0, min(sum(a), sum(b)) + 1)))


def run_int(case):
    (n, k), al = case["shape"]
    a, b, m = case["a"], case["b"], case["m"]
    V = partial_vertices(a, b, m)
    C = I.all_costs(n, k, al)
    opt = (C @ V.T).min(1)
    af, bf = np.array(a, float), np.array(b, float)
    tot = 0
    for q, c in enumerate(C):
        M = c.reshape(n, k).astype(float)
        G, log = ot.partial.partial_wasserstein(af, bf, M, m=m, nb_dummies=1 + (q % 3), log=True)
        feasible(G, af, bf, m, "partial")
        if abs((G * M).sum() - opt[q]) > 1e-9 or abs(log["partial_w_dist"] - opt[q]) > 1e-9:
            raise Fail("partial:cost", "a=%s b=%s m=%s M=%s: cost %r (log %r), optimum %r" % (a, b, m, M.tolist(), (G * M).sum(), log["partial_w_dist"], opt[q]))
        tot += 1
    return dict(inner=tot, states=tot, transitions=tot * 3, outcome=(a, b, m))


def gen_lag(ctx):
    sh, al = ctx.choose("shape", SH[TIER])
    n, k = sh
    a = ctx.choose("a", [x for x in itertools.product(range(3), repeat=n) if sum(x)])
    b = ctx.choose("b", [x for x in itertools.product(range(3), repeat=k) if sum(x)])
    if TIER == "quick" and n * k > 4 and (sum(a) > 3 or sum(b) > 3):
        ctx.prune()
    ctx.choose("reg", [None, 0.0, 0.5, 1.0, 1.5, -0.5, -5.0])


def run_lag(case):
    (n, k), al = case["shape"]
    a, b, reg = case["a"], case["b"], case["reg"]
    C = I.all_costs(n, k, al)
    af, bf = np.array(a, float) / 8, np.array(b, float) / 8
    tot = 0
    mm = min(sum(a), sum(b))
    best = {m: (C @ partial_vertices(a, b, m).T).min(1) / 8 for m in range(mm + 1)}
    for q, c in enumerate(C):
        M = c.reshape(n, k).astype(float)
        r = M.max() + 1 if reg is None else reg
        want = min(best[m][q] - r * m / 8 for m in best)
        out = ot.partial.partial_wasserstein_lagrange(af, bf, M, reg_m=reg, nb_dummies=1 + q % 2, log=True)
        if not isinstance(out, tuple):
            raise Fail("lagrange:log", "log=True returned only a plan (reg_m=%r)" % reg)
        G = out[0]
        feasible(G, af, bf, None, "lagrange")
        got = ((M - r) * G).sum()
        if abs(got - want) > 1e-9:
            raise Fail("lagrange:cost", "a=%s/8 b=%s/8 reg_m=%s M=%s: penalised cost %r, optimum %r" % (a, b, reg, M.tolist(), got, want))
        if abs(out[1]["cost"] - (M * G).sum()) > 1e-9:
            raise Fail("lagrange:logcost", "log cost %r, plan %r" % (out[1]["cost"], (M * G).sum()))
        G2 = ot.partial.partial_wasserstein(af, bf, M, reg_m=reg)
        if abs(((M - r) * G2).sum() - want) > 1e-9:
            raise Fail("lagrange:via-partial", "partial_wasserstein(m=None, reg_m=%r)" % reg)
        tot += 1
    return dict(inner=tot, states=tot, transitions=tot * 3, outcome=(a, b, reg))


def gen_big(ctx):
    ctx.choose("shape", [(1, 1), (1, 4), (3, 3), (5, 8), (12, 7), (30, 25)])
    ctx.choose("cost", ["lcg", "ties", "mixed", "neg", "zero", "big", "tiny", "const", "rank1"])
    ctx.choose("frac", [0.0, 0.3, 0.7, 1.0])
    ctx.dev("wa", ["uniform", "lcg", "zeros", "dirac", "spiky", "empty"])
    ctx.dev("wb", ["uniform", "lcg", "zeros", "ramp", "empty"])
    ctx.dev("mass", [(1.0, 1.0), (1.0, 0.4), (0.5, 2.0), (3.0, 3.0)])
    ctx.dev("nb", [1, 2, 7])
    ctx.dev("lay", ["C", "F", "strided", "list"])
    ctx.dev("dtype", [np.float64, np.float32])


def run_big(case):
    n, k = case["shape"]
    M = I.cost(case["cost"], n, k, 3)
    sa, sb = case["mass"]
    mk = lambda kd, n, s, q: np.array([]) if kd == "empty" else I.weights(kd, n, q) * s
    a, b = mk(case["wa"], n, sa, 1), mk(case["wb"], k, sb, 2)
    dt = case["dtype"]
    a, b, M = a.astype(dt), b.astype(dt), M.astype(dt)
    ax = (np.ones(n) / n if len(a) == 0 else a).astype(float)
    bx = (np.ones(k) / k if len(b) == 0 else b).astype(float)
    top = min(ax.sum(), bx.sum())
    m = top * case["frac"] * (1 - 1e-6 * (dt == np.float32))
    ar = [I.layout(z, case["lay"]) if case["lay"] != "list" else z.tolist() for z in (a, b, M)]
    if case["lay"] == "F":
        ar[0], ar[1] = a, b
    # slack formulation for the LP, dummy-dummy priced out
    D = np.zeros((n + 1, k + 1))
    D[:n, :k] = M
    D[n, k] = 4 * np.abs(M).max() + 1
    want = oracle.transport_lp(np.r_[ax, bx.sum() - m], np.r_[bx, ax.sum() - m], D)
    tol = 1e-9 if dt == np.float64 else 2e-5
    sc = 1 + np.abs(M).max()
    G, log = ot.partial.partial_wasserstein(*ar, m=m, nb_dummies=case["nb"], log=True)
    feasible(G, ax, bx, m, "big", tol * 10)
    w2 = ot.partial.partial_wasserstein2(*ar, m=m, nb_dummies=case["nb"])
    for nm, v in (("plan", (np.asarray(G) * M).sum()), ("log", log["partial_w_dist"]), ("value", w2)):
        if abs(v - want) > tol * sc * 10:
            raise Fail("big:" + nm, "%r, optimum %r" % (v, want))
    u, v = np.asarray(log["u"]), np.asarray(log["v"])
    if u.shape != (n,) or v.shape != (k,):
        raise Fail("big:duals", "u, v of shapes %r %r" % (u.shape, v.shape))
    for bad in (-0.1, top * 1.01 + 1e-3):
        try:
            ot.partial.partial_wasserstein(*ar, m=bad)
        except ValueError:
            pass
        else:
            raise Fail("big:bad-mass", "m=%r accepted for masses %r %r" % (bad, ax.sum(), bx.sum()))
    return round(float(want), 9)


def gen_1d(ctx):
    n = ctx.choose("n", [1, 2, 3, 4])
    k = ctx.choose("k", [1, 2, 3, 4])
    if n + k > (7 if TIER == "quick" else 8):
        ctx.prune()
    ctx.choose("x", list(itertools.product(range(3 if n > 2 else 4), repeat=n)))
    ctx.choose("p", [1, 2])


@functools.lru_cache(maxsize=None)
def subsets(n, r):
    return np.array(list(itertools.combinations(range(n), r)))


def run_1d(case):
    n, k, p = case["n"], case["k"], case["p"]
    x = np.array(case["x"], float)
    xs = np.sort(x)
    tot = 0
    for yt in itertools.product(range(3 if k > 2 else 4), repeat=k):
        y = np.array(yt, float) + 0.25 * (tot % 2)
        ys = np.sort(y)
        r = min(n, k)
        ix, iy, mc = ot.partial.partial_wasserstein_1d(x, y, p=p)
        if len(ix) != r or len(iy) != r or len(mc) != r or len(set(ix)) != r or len(set(iy)) != r:
            raise Fail("1d:indices", "x=%s y=%s: indices %r %r" % (x, y, ix, iy))
        cs = np.cumsum(mc)
        for q in range(1, r + 1):
            A, B = xs[subsets(n, q)], ys[subsets(k, q)]
            best = (np.abs(A[:, None] - B[None]) ** p).sum(-1).min()
            mine = (np.abs(np.sort(x[ix[:q]]) - np.sort(y[iy[:q]])) ** p).sum()
            if abs(mine - best) > 1e-9 or abs(cs[q - 1] - best) > 1e-9:
                raise Fail("1d:optimal", "x=%s y=%s p=%d, %d samples: selected pairs cost %r, cumulated costs %r, optimum %r" % (x, y, p, q, mine, cs[q - 1], best))
        s = 1 + tot % r
        jx, jy, mq = ot.partial.partial_wasserstein_1d(x[:, None], y[:, None], n_transported_samples=s, p=p)
        if list(jx) != list(ix[:s]) or list(jy) != list(iy[:s]) or len(mq) != s:
            raise Fail("1d:prefix", "asking for %d samples is not the prefix of the full path" % s)
        tot += 1
    return dict(inner=tot, states=tot, transitions=tot * r, outcome=(case["x"], k, p))


def gen_ent(ctx):
    ctx.choose("shape", [(1, 1), (2, 2), (3, 4), (7, 5)])
    ctx.choose("cost", ["lcg", "ties", "mixed", "const"])
    ctx.choose("reg", [1.0, 0.3, 5.0])
    ctx.choose("frac", [None, 0.3, 0.8, 1.0])
    ctx.choose("mass", [(1.0, 1.0), (1.0, 0.4), (0.5, 2.0)])
    ctx.choose("w", ["uniform", "lcg", "zeros"])


def kkt(G, M, reg, a, b, tol):
    """G = exp(-M/reg) * exp(al_i + be_j + c), al, be <= 0, zero where the marginal has slack"""
    G, M, a, b = G[a > 0][:, b > 0], M[a > 0][:, b > 0], a[a > 0], b[b > 0]
    L = np.log(G) + M / reg
    r, c = L.mean(1), L.mean(0)
    if np.abs(L - r[:, None] - c[None] + L.mean()).max() > tol:
        return "not a diagonal scaling of the kernel"
    for z, s, w in ((r, G.sum(1), a), (c, G.sum(0), b)):
        slack = s < w - 10 * tol
        if slack.any() and (z.max() - z[slack].min() > tol * 20):
            return "multiplier of a slack marginal is not the largest"
    return None


def run_ent(case):
    n, k = case["shape"]
    M = I.cost(case["cost"], n, k, 3)
    M = M / max(np.abs(M).max(), 1e-300)
    sa, sb = case["mass"]
    a, b = I.weights(case["w"], n, 1) * sa, I.weights(case["w"], k, 2) * sb
    top = min(a.sum(), b.sum())
    m = None if case["frac"] is None else top * case["frac"]
    known = []
    out = []
    for method in ("sinkhorn", "sinkhorn_log"):
        G, log = ot.partial.entropic_partial_wasserstein(a, b, M, case["reg"], m=m, method=method, numItermax=20000, stopThr=1e-13, log=True)
        feasible(G, a, b, top if m is None else m, "entropic", 1e-5)
        if abs(log["partial_w_dist"] - (G * M).sum()) > 1e-9:
            raise Fail("entropic:log", "partial_w_dist %r, plan %r" % (log["partial_w_dist"], (G * M).sum()))
        e = kkt(G, M, case["reg"], a, b, 1e-4)
        if e:
            raise Fail("entropic:" + method, "%s: %s" % (method, e))
        out.append(G)
    if len(out) == 2 and np.abs(out[0] - out[1]).max() > 1e-5:
        raise Fail("entropic:methods", "sinkhorn and sinkhorn_log differ by %g" % np.abs(out[0] - out[1]).max())
    return dict(outcome=round(float(out[0].max()), 8) if out else "zero", known=known[:1])


def scopes(tier):
    global TIER
    TIER = tier
    return [
        Scope("integer", gen_int, run_int, doc="all costs over an alphabet x all integer weights x every mass, against all vertices of the partial transport polytope"),
        Scope("lagrangian", gen_lag, run_lag),
        Scope("larger", gen_big, run_big, dev=1, thorough_dev=3),
        Scope("one-dimensional", gen_1d, run_1d, doc="all placements of integer samples: the whole path of k-matchings against all k-subsets"),
        Scope("entropic", gen_ent, run_ent),
    ]
