"""C01: exact OT returns an optimal coupling, and reports its cost."""
BACKENDS = ()
OMP = 4
import itertools

import numpy as np
import ot

from mc import instances as I
from mc import oracle
from mc.engine import Fail, Scope

TOL = 1e-7
ASSUMPTIONS = (
    "HiGHS (scipy) is the oracle for instances with non-integer data; integer instances use exhaustive vertex enumeration",
    "cost comparison tolerance 1e-7 relative to the cost scale; marginal tolerance 1e-9",
)

# ---------------------------------------------------------------- scope 1: all small integer instances


def small_pairs(tier):
    """(a, b, alphabet): integer weights (zeros included) and the cost alphabet explored completely."""
    out = []
    shapes = [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3), (2, 4), (4, 2)]
    for n, m in shapes:
        T = {1: 2, 2: 3, 3: 3, 4: 4}[max(n, m)]
        al = ([(0, 1, 3), (-2, 0, 1)] if tier == 'thorough' else [(-2, 0, 1)]) if n * m <= 6 else [(0, 1)]
        if n * m <= 4:
            al.append((-7, -6, -1, 0, 5))
        for a in oracle.compositions(T, n):
            for b in oracle.compositions(T, m):
                for x in al:
                    out.append((a, b, x))
    for a, b, x in [((1, 1, 1), (1, 1, 1), (0, 1, 3)), ((1, 2, 3), (3, 2, 1), (-1, 0, 3)),
                    ((2, 2, 1), (4, 1, 0), (-4, -3, -1))]:
        out.append((a, b, x))
    out += [((1, 1, 2, 2), (2, 3, 1), (0, 1)), ((3, 1, 2), (1, 2, 2, 1), (-1, 2))]
    if tier == "thorough":
        for a, b in [((1, 1, 1, 1), (1, 1, 1, 1)), ((1, 2, 3, 1), (2, 2, 2, 1)), ((0, 2, 1, 1), (1, 1, 2, 0)),
                     ((3, 1, 1, 2), (1, 1, 1, 4))]:
            out.append((a, b, (0, 1)))
            out.append((a, b, (-3, 2)))
        for a in oracle.compositions(3, 3):
            for b in oracle.compositions(3, 3):
                out.append((a, b, (0, 1, 3)))
                out.append((a, b, (-5, -1, 2)))
        out += [((2, 3), (1, 1, 1, 1, 1), (0, 1, 2)), ((1, 2, 1, 2, 1), (4, 3), (-1, 0, 2))]
    return out


def gen_small(ctx):
    a, b, al = ctx.choose("pair", small_pairs(TIER))
    n = len(a) * len(b)
    total = len(al) ** n
    nblk = max(1, total // 4000)
    ctx.choose("block", range(nblk))
    return dict(nblk=nblk)


def run_small(case):
    a, b, al = case["pair"]
    n, m = len(a), len(b)
    C = I.all_costs(n, m, al)
    opt = I.optimal_costs(a, b, al)
    af, bf = np.array(a, float), np.array(b, float)
    s = af.sum()
    af, bf = af / s, bf / s
    idx = range(case["block"], len(C), case["nblk"])
    outs = set()
    cnt = 0
    for k in idx:
        M = C[k].reshape(n, m).astype(float)
        G, log = ot.emd(af, bf, M, log=True)
        cnt += 1
        want = opt[k] / s
        sig = "emd-small"
        if log["warning"] is not None:
            raise Fail(sig + ":warning", "a=%s b=%s M=%s: solver reports %r" % (a, b, M.tolist(), log["warning"]))
        oracle.check_coupling(Fail, sig, G, af, bf)
        c = float((G * M).sum())
        if abs(c - want) > TOL * (1 + abs(want)):
            raise Fail(sig + ":suboptimal", "a=%s b=%s M=%s: plan costs %r, optimum %r" % (a, b, M.tolist(), c, want))
        if abs(float(log["cost"]) - c) > TOL * (1 + abs(want)):
            raise Fail(sig + ":logcost", "a=%s b=%s M=%s: log cost %r, plan cost %r" % (a, b, M.tolist(), log["cost"], c))
        v = float(ot.emd2(af, bf, M))
        if abs(v - want) > TOL * (1 + abs(want)):
            raise Fail("emd2-small:value", "a=%s b=%s M=%s: emd2=%r, optimum %r" % (a, b, M.tolist(), v, want))
        outs.add(tuple((G > 0).ravel().tolist()))
    return dict(inner=2 * cnt, states=cnt, transitions=2 * cnt, outcome=(a, b, len(outs)))


# ---------------------------------------------------------------- scope 2: input forms and options

SHAPES = [(3, 4), (1, 5), (5, 1), (6, 6), (9, 12), (13, 7), (25, 31), (2, 40)]
WK = ["lcg", "uniform", "zeros", "zero_end", "dirac", "spiky", "dyadic"]
CK = ["lcg", "line", "ties", "const", "zero", "neg", "mixed", "negconst", "antirank1", "big", "tiny", "intcost"]


def gen_forms(ctx):
    ctx.dev("shape", SHAPES)
    ctx.dev("wa", WK + ["empty"])
    ctx.dev("wb", WK + ["empty"])
    ctx.dev("cost", CK)
    ctx.dev("lay", I.LAYOUTS)
    ctx.dev("wlay", ["C", "strided", "reversed"])
    ctx.dev("mdtype", ["float64", "float32", "int64", "int32"])
    ctx.dev("wdtype", ["float64", "float32", "list"])
    ctx.dev("scale", [1.0, 0.01, 100.0])
    ctx.dev("threads", [1, 2, 3])
    ctx.dev("center", [True, False])
    ctx.dev("api", ["emd+log", "emd", "emd2", "emd2+log", "emd2+matrix", "emd2-multi"])


def build(case):
    n, m = case["shape"]
    M = I.cost(case["cost"], n, m)
    if case["mdtype"].startswith("int"):
        M = np.round(M * 4)
    M = M.astype(case["mdtype"])
    s = 1.0 if case["wdtype"] == "float32" or f32(case) else case["scale"]
    if "none" in (case["wa"], case["wb"]) or "empty" in (case["wa"], case["wb"]):
        s = 1.0

    def w(kind, k, seed):
        if kind == "none":
            return None, np.ones(k) / k
        if kind == "empty":
            return [], np.ones(k) / k
        x = I.weights(kind, k, seed) * s
        if case["wdtype"] == "float32":
            x = x.astype(np.float32)
        ref = x.astype(float)
        if case["wdtype"] == "list":
            # lists take the floating dtype of the other inputs
            return [float(t) for t in x], x.astype(np.float32).astype(float) if case["mdtype"] == "float32" else ref
        return I.layout(x, case["wlay"]), ref

    a, ar = w(case["wa"], n, 1)
    b, br = w(case["wb"], m, 2)
    br = br * (ar.sum() / br.sum())
    return a, b, I.layout(M, case["lay"]), ar, br, M.astype(float)


def f32(case):
    if case["mdtype"] == "float32" and (case["wdtype"] == "list" or "empty" in (case["wa"], case["wb"])):
        return True
    return case["wdtype"] == "float32" and (case["wa"] not in ("none", "empty") or case["wb"] not in ("none", "empty"))


def run_forms(case):
    a, b, M, ar, br, Mr = build(case)
    Mc = M.tolist() if isinstance(a, list) and isinstance(b, list) and False else M
    opt = oracle.transport_lp(ar, br, Mr)
    scale = 1 + np.abs(Mr).max() * ar.sum()
    eps = (2e-5 if f32(case) else 1e-8)
    kw = dict(numThreads=case["threads"], center_dual=case["center"])
    api = case["api"]
    sig = "forms:" + api
    G = None
    if api == "emd":
        G = ot.emd(a, b, Mc, **kw)
        val = float((np.asarray(G, float) * Mr).sum())
    elif api == "emd+log":
        G, log = ot.emd(a, b, Mc, log=True, **kw)
        val = float(log["cost"])
        if log["warning"] is not None:
            raise Fail(sig + ":warning", str(log["warning"]))
    elif api == "emd2":
        val = float(ot.emd2(a, b, Mc, **kw))
    elif api == "emd2+log":
        val, log = ot.emd2(a, b, Mc, log=True, **kw)
        val = float(val)
        if abs(float(log["cost"]) - val) > eps * scale:
            raise Fail(sig + ":logcost", "%r vs %r" % (log["cost"], val))
        if log["warning"] is not None:
            raise Fail(sig + ":warning", str(log["warning"]))
    elif api == "emd2+matrix":
        val, log = ot.emd2(a, b, Mc, return_matrix=True, **kw)
        val, G = float(val), log["G"]
    else:
        # several target histograms at once: one loss per column
        if b is None or isinstance(b, list):
            return "skip"
        cols = [np.asarray(b, float), np.asarray(b, float)[::-1].copy(), np.ones(len(br)) / len(br) * ar.sum()]
        B = np.stack(cols, 1).astype(np.asarray(b).dtype)
        vals = ot.emd2(a, B, Mc, **kw)
        if len(vals) != 3:
            raise Fail(sig + ":count", "expected 3 losses, got %d" % len(vals))
        for k, c in enumerate(cols):
            o = oracle.transport_lp(ar, c * (ar.sum() / c.sum()), Mr)
            if abs(float(vals[k]) - o) > max(eps, 2e-6 if f32(case) else 0) * scale:
                raise Fail(sig + ":value", "column %d: %r, optimum %r" % (k, vals[k], o))
        return ("multi", round(float(vals[0]), 9))
    if abs(val - opt) > eps * scale:
        raise Fail(sig + ":value", "value %r, optimum %r" % (val, opt))
    if G is not None:
        oracle.check_coupling(Fail, sig, np.asarray(G, float), ar, br, tol=(2e-6 if f32(case) else 1e-9) * max(1, ar.sum()))
        c = float((np.asarray(G, float) * Mr).sum())
        if abs(c - opt) > eps * scale:
            raise Fail(sig + ":plan", "plan costs %r, optimum %r" % (c, opt))
    return round(opt, 9)


# ---------------------------------------------------------------- scope 3: larger structured instances

BIG = [(40, 50), (64, 64), (150, 20), (20, 150), (101, 101)]
BIGT = BIG + [(200, 150), (256, 256), (400, 60), (1, 300), (300, 2)]


def gen_big(ctx):
    ctx.choose("shape", BIGT if TIER == "thorough" else BIG)
    ctx.choose("cost", ["lcg", "line", "ties", "absline", "mixed", "neg", "rank1", "intcost", "const"])
    ctx.choose("w", ["uniform", "lcg", "zeros", "spiky"])
    ctx.choose("threads", [1, 2])


def run_big(case):
    n, m = case["shape"]
    M = I.cost(case["cost"], n, m)
    a, b = I.weights(case["w"], n, 3), I.weights(case["w"], m, 4)
    G, log = ot.emd(a, b, M, log=True, numThreads=case["threads"])
    if log["warning"] is not None:
        raise Fail("big:warning", str(log["warning"]))
    oracle.check_coupling(Fail, "big", G, a, b)
    sc = 1 + np.abs(M).max()
    if abs(float(log["cost"]) - float((G * M).sum())) > 1e-9 * sc:
        raise Fail("big:logcost", "%r vs %r" % (log["cost"], (G * M).sum()))
    opt = oracle.transport_lp(a, b, M)
    if abs(float(log["cost"]) - opt) > 1e-7 * sc:
        raise Fail("big:suboptimal", "%r, optimum %r" % (log["cost"], opt))
    return round(opt, 9)


def scopes(tier):
    global TIER
    TIER = tier
    return [
        Scope("small-integer", gen_small, run_small, doc="every cost matrix over a small integer alphabet, every small integer histogram pair"),
        Scope("forms", gen_forms, run_forms, dev=3, thorough_dev=4, doc="input forms x options, deviation bounded"),
        Scope("large-structured", gen_big, run_big, doc="structured instances past the solver's block thresholds"),
    ]
