"""C12: ot.solve returns the optimum of the problem selected by its options, and consistent fields."""
BACKENDS = ("torch", "jax")
OMP = 1
import warnings

import numpy as np
import ot

from checks.c10 import pair, total
from mc import instances as I
from mc import oracle
from mc.engine import Fail, Scope

ASSUMPTIONS = ("regularisation 0.3 to 5 times the cost scale", "solvers run with enough iterations to converge")
TIER = "quick"
inf = float("inf")
TUP = (lambda G: 0.5 * (G ** 2).sum(), lambda G: G)


def call(f, *a, **k):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = f(*a, **k)
    return r, [str(x.message) for x in w if "onverge" in str(x.message) or "umerical error" in str(x.message)]


def directions(n, m, G, balanced):
    out = []
    for i in range(n):
        for j in range(i + 1, n):
            for k in range(m):
                for l in range(m):
                    if k != l and (n * m <= 20 or (i + j + k + l) % 5 == 0):
                        E = np.zeros((n, m))
                        E[i, k] = E[j, l] = 1
                        E[i, l] = E[j, k] = -1
                        out.append(E)
    if not balanced:
        for i in range(n):
            for j in range(m):
                E = np.zeros((n, m))
                E[i, j] = 1
                out.append(E)
        for i in range(n):
            E = np.zeros((n, m))
            E[i] = 1
            out.append(E)
        for j in range(m):
            E = np.zeros((n, m))
            E[:, j] = 1
            out.append(E)
        out += [G, np.ones((n, m))]
    return out


def best_gain(obj, G, balanced):
    base, gain = obj(G), 0.0
    for E in directions(*G.shape, G, balanced):
        for t in (1e-2, -1e-2, 1e-3, -1e-3):
            H = G + t * E
            if H.min() < 0:
                if balanced:
                    neg = E * np.sign(t) < 0
                    s = min(abs(t), (G[neg] / -(E * np.sign(t))[neg]).min())
                    if s <= 1e-12:
                        continue
                    H = np.maximum(G + np.sign(t) * s * E, 0)
                else:
                    H = np.maximum(H, 0)
            gain = max(gain, base - obj(H))
    return gain


def gen(ctx):
    ctx.choose("reg", [None, 0.5] if TIER == "quick" else [None, 0, 0.3, 0.5, 3.0])
    ctx.choose("reg_type", ["KL", "entropy", "L2", "tuple"])
    ctx.choose("unbalanced", [None, 1.0, (0.5, 2.0), inf])
    ctx.choose("unb_type", ["KL", "L2", "TV"])
    if not ctx.case["reg"] and ctx.case["reg_type"] != "KL" and not (ctx.case["unbalanced"] and ctx.case["unb_type"] == "TV"):
        ctx.prune()
    if ctx.case["unbalanced"] is None and ctx.case["unb_type"] != "KL":
        ctx.prune()
    ctx.dev("shape", [(3, 4), (1, 1), (1, 3), (4, 1), (5, 2), (12, 11)])
    ctx.dev("w", [("lcg", "lcg"), ("none", "none"), ("none", "ramp"), ("ramp", "none"), ("zeros", "lcg"), ("lcg", "zeros"), ("spiky", "uniform")])
    ctx.dev("cost", ["lcg", "ties", "mixed", "neg", "zero"])
    ctx.dev("c", ["none", "given"])
    ctx.dev("arr", ["C", "F", "strided", "torch", "jax", "torch32"])
    ctx.dev("names", ["as is", "lower", "upper"])
    ctx.dev("init", ["none", "plan", "potentials", "optimal"])
    ctx.dev("cont", ["scalar", "list", "array", "list2"])
    ctx.dev("threads", [1, 2])
    ctx.dev("grad", ["autodiff", "envelope", "last_step", "detach"])
    ctx.dev("mass", [1.0, 2.5])
    if case_skip(ctx.case):
        ctx.prune()


def case_skip(c):
    """Options that do not concern the selected solver."""
    bal = c["unbalanced"] in (None, inf)
    if c["threads"] != 1 and (c["reg"] or not bal):
        return True
    if c["grad"] != "autodiff" and not (bal and c["reg"] and c["reg_type"] in ("KL", "entropy")):
        return True
    if c["unbalanced"] is None and c["cont"] != "scalar":
        return True
    return c["unbalanced"] == inf and c["unb_type"] != "KL" and TIER == "quick" and (c["cont"] == "scalar")


def run(case):
    import ot.backend as B
    n, m = case["shape"]
    reg, rt, un, ut = case["reg"], case["reg_type"], case["unbalanced"], case["unb_type"]
    a, b = [np.ones(k) / k if w == "none" else I.weights(w, k, s) for w, k, s in zip(case["w"], (n, m), (1, 2))]
    if "none" not in case["w"]:
        a, b = a * case["mass"], b * case["mass"] * (1.3 if un not in (None, inf) else 1)
    M = I.cost(case["cost"], n, m, 5)
    M = M / max(np.abs(M).max(), 1e-300)
    if un not in (None, inf) and not reg and M.min() < 0:
        return "unbounded cost"
    c = np.outer(a, b)
    if case["c"] == "given":
        c = np.outer(a, b) * (0.5 + I.cost("lcg", n, m, 9)) if "zeros" in case["w"] else 0.1 + 0.2 * I.cost("lcg", n, m, 9)
    balanced = un in (None, inf)
    div = {"KL": "kl", "entropy": "entropy", "L2": "l2", "tuple": "l2"}[rt]
    cr = c
    if rt == "tuple" or rt == "entropy":
        cr = np.zeros((n, m)) if rt == "tuple" else np.ones((n, m))
    if balanced and rt == "L2" and case["c"] == "none":
        cr = np.zeros((n, m))
    arr = case["arr"]
    f32 = arr == "torch32"
    if arr == "jax":
        import jax
        jax.config.update("jax_enable_x64", True)
    nx = {"torch": lambda: B.TorchBackend(), "torch32": lambda: B.TorchBackend(), "jax": lambda: B.JaxBackend()}.get(arr, lambda: B.NumpyBackend())()
    if (rt == "tuple" and balanced and reg and arr == "jax"):
        return "n/a"
    cv = lambda z: (I.layout(z, arr) if (arr != "F" or z.ndim == 2) else z) if arr in ("C", "F", "strided") else nx.from_numpy(z.astype(np.float32) if f32 else z)
    nm = {"as is": str, "lower": str.lower, "upper": str.upper}[case["names"]]
    if rt == "tuple" and not balanced and arr not in ("C", "F", "strided"):
        return "n/a"
    kw = dict(reg=reg, reg_type=TUP if rt == "tuple" else nm(rt), unbalanced_type=nm(ut), n_threads=case["threads"], grad=case["grad"])
    kw["max_iter"], kw["tol"] = 20000, (1e-7 if f32 else 1e-12)
    if un is not None:
        kw["unbalanced"] = un
        if case["cont"] == "list":
            kw["unbalanced"] = [un] if not isinstance(un, tuple) else list(un)
        elif case["cont"] == "list2":
            kw["unbalanced"] = list(pair(un))
        elif case["cont"] == "array":
            kw["unbalanced"] = cv(np.array(pair(un), float))
    elif case["cont"] != "scalar":
        return "n/a"
    if case["c"] == "given":
        kw["c"] = cv(c)
    if case["init"] == "plan":
        kw["plan_init"] = cv(np.outer(a, b) / np.sqrt(a.sum() * b.sum()) * (1 if balanced else 0.9) + (0 if balanced else 0.01))
    elif case["init"] == "potentials":
        kw["potentials_init"] = (cv(0.1 * np.arange(n) - 0.2), cv(0.3 - 0.1 * np.arange(m)))
    ar = [cv(M)] + [None if w == "none" else cv(z) for w, z in zip(case["w"], (a, b))]
    if case["init"] == "optimal":
        r0, _ = call(ot.solve, *ar, **kw)
        if r0.potentials is None:
            return "no potentials"
        kw["potentials_init"] = r0.potentials
    tag = "%s:%s:%s" % ("exact" if not reg else rt, "balanced" if balanced else ut, "jax" if arr == "jax" else "np")
    res, wn = call(ot.solve, *ar, **kw)
    if wn and rt != "tuple":
        raise Fail("warned:" + tag, "%s" % wn[:2])
    P = nx.to_numpy(nx.detach(res.plan)) if arr[0] in "tj" else np.asarray(res.plan)
    P = P.astype(float)
    val, lin = float(nx.to_numpy(res.value)), float(nx.to_numpy(res.value_linear))
    if P.shape != (n, m) or not np.isfinite(P).all() or P.min() < -1e-12 or not np.isfinite([val, lin]).all():
        raise Fail("plan:" + tag, "plan %r value %r" % (P, val))
    if f32 and "float32" not in str(res.plan.dtype):
        raise Fail("dtype:" + tag, "plan of type %s" % res.plan.dtype)
    eps = 3e-5 if f32 else 1e-7
    sc = 1 + a.sum() + b.sum()
    if balanced:
        mt = 1e-4 if rt == "L2" and reg else eps
        if max(np.abs(P.sum(1) - a).max(), np.abs(P.sum(0) - b).max()) > mt * sc:
            raise Fail("marginals:" + tag, "%r %r for %r %r" % (P.sum(1), P.sum(0), a, b))
    if abs((P * M).sum() - lin) > eps * sc:
        raise Fail("value-linear:" + tag, "value_linear %r, plan cost %r" % (lin, (P * M).sum()))
    ma, mb = [np.asarray(nx.to_numpy(z)) for z in res.marginals]
    if np.abs(ma - P.sum(1)).max() > eps * sc or np.abs(mb - P.sum(0)).max() > eps * sc:
        raise Fail("fields:marginals:" + tag, "%r %r" % (ma, mb))
    if (res.potentials is None) != (res.potential_a is None) or res.value_quad is not None:
        raise Fail("fields:" + tag, "inconsistent result object")
    r1, r2 = (inf, inf) if balanced else pair(un)
    obj = lambda G: total(G, M, a, b, cr, reg, r1, r2, div, ut.lower())
    want = obj(P)
    if rt == "entropy" and reg:  # the balanced form documents R(T) = sum T log T up to the constant mass
        alt = want + reg * P.sum()
    elif balanced and rt == "KL" and reg and case["c"] == "none" and case["mass"] != 1.0:
        alt = want + reg * (P.sum() - np.outer(a, b).sum())  # Kullback-Leibler without the mass terms, which are constant
    else:
        alt = want
    if min(abs(val - want), abs(val - alt)) > (1e-3 if f32 else 1e-6) * sc:
        raise Fail("value:" + tag, "value %r, objective of the plan %r" % (val, want))
    if balanced and not reg:
        o = oracle.transport_lp(a, b, M)
        if abs(o - lin) > eps * sc:
            raise Fail("optimal:" + tag, "%r, optimum %r" % (lin, o))
    elif ut != "TV" or balanced:
        tol = 2e-3 if rt == "tuple" and balanced else 1e-4 if f32 else 3e-5
        if rt == "tuple" and balanced:
            pass
        g = best_gain(obj, P, balanced)
        if g > tol * sc:
            raise Fail("optimal:" + tag, "objective %r improves by %g" % (want, g))
    if reg and res.potentials is not None and rt != "tuple":
        u, v = [np.asarray(nx.to_numpy(nx.detach(z))).astype(float) if arr[0] in "tj" else np.asarray(z) for z in res.potentials]
        with np.errstate(all="ignore"):
            if rt == "L2":
                Q = np.maximum(u[:, None] + v[None] - M + (reg * c if case["c"] == "given" else 0), 0) / reg
            else:
                Q = np.exp(u[:, None] + v[None] - M / reg)
                if not balanced or (rt == "KL" and case["c"] == "given"):
                    Q = Q * c
        Q[a == 0] = 0
        Q[:, b == 0] = 0
        if not np.abs(Q - P).max() <= (1e-3 if f32 else 1e-6) * sc:
            raise Fail("potentials:" + tag, "the potentials give another plan (%g)" % np.abs(Q - P).max())
    if case["arr"] == "C":
        S = res.sparse_plan
        if np.abs(np.asarray(S.todense()) - P).max() > 0:
            raise Fail("fields:sparse:" + tag, "sparse plan differs")
    return round(want, 5)


def gen_semi(ctx):
    ctx.choose("reg", [None, 0.5])
    ctx.choose("reg_type", ["KL", "L2", "entropy"])
    ctx.choose("unbalanced", [(inf, 1.0), (1.0, inf)])
    ctx.choose("unb_type", ["KL", "L2", "TV"])
    ctx.choose("shape", [(3, 4), (4, 2)])


def run_semi(case):
    n, m = case["shape"]
    a, b, M = I.weights("lcg", n, 1), I.weights("lcg", m, 2) * 1.3, I.cost("lcg", n, m, 5)
    reg, rt, ut = case["reg"], case["reg_type"], case["unb_type"]
    try:
        res, _ = call(ot.solve, M, a, b, reg=reg, reg_type=rt, unbalanced=case["unbalanced"], unbalanced_type=ut, max_iter=20000, tol=1e-12)
    except (NotImplementedError, ValueError) as e:
        return "rejected"
    P = np.asarray(res.plan)
    r1, r2 = case["unbalanced"]
    ok = np.isfinite(P).all() and np.isfinite(res.value)
    if ok:
        d = np.abs(P.sum(1) - a).max() if r1 == inf else np.abs(P.sum(0) - b).max()
        ok = d < 1e-6
    if not ok:
        if not (reg and rt == "KL" and ut == "KL"):
            return dict(outcome="finding", known=[("semirelaxed:%s" % ut, "ot.solve with one infinite penalty, reg=%s, returns value %r" % (reg, res.value))])
        raise Fail("semirelaxed:sinkhorn", "value %r marginals %r %r" % (res.value, P.sum(1), P.sum(0)))
    return round(float(res.value), 6)


def gen_bad(ctx):
    ctx.choose("what", ["reg_type", "unb_type", "unb_type-reg", "last_step0", "tuple3"])


def run_bad(case):
    M, a = I.cost("lcg", 3, 3), np.ones(3) / 3
    kw = {"reg_type": dict(reg=1.0, reg_type="foo"), "unb_type": dict(unbalanced=1.0, unbalanced_type="foo"),
          "unb_type-reg": dict(reg=1.0, unbalanced=1.0, unbalanced_type="foo"), "last_step0": dict(reg=1.0, grad="last_step", max_iter=0),
          "tuple3": dict(reg=1.0, unbalanced=(1.0, 2.0, 3.0))}[case["what"]]
    try:
        ot.solve(M, a, a, **kw)
    except (NotImplementedError, ValueError):
        return "rejected"
    raise Fail("accepts:" + case["what"], "unknown option accepted: %r" % kw)


def scopes(tier):
    global TIER
    TIER = tier
    return [
        Scope("options", gen, run, dev=1, thorough_dev=2, doc="regularisation x unbalanced type x options: optimality, values, fields"),
        Scope("semirelaxed", gen_semi, run_semi),
        Scope("rejected", gen_bad, run_bad),
    ]
