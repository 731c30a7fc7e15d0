"""C04: exact OT never misreports how a solve ended."""
BACKENDS = ()
OMP = 4
import warnings

import numpy as np
import ot
import scipy.sparse as sp

from checks import c01
from mc import instances as I
from mc import oracle
from mc.engine import Fail, Scope

ASSUMPTIONS = ("a solve is 'complete' when its value equals the independent LP optimum to 1e-8 of the cost scale",)


def call(route, a, b, M, cap, X=None, Y=None):
    """(value, warning text in the log, python warnings raised, plan)"""
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        if route == "emd":
            G, log = ot.emd(a, b, M, numItermax=cap, log=True)
            v = log["cost"]
        elif route == "emd-threads":
            G, log = ot.emd(a, b, M, numItermax=cap, log=True, numThreads=2)
            v = log["cost"]
        elif route == "emd2":
            v, log = ot.emd2(a, b, M, numItermax=cap, log=True, return_matrix=True)
            G = log["G"]
        elif route == "emd2-plain":
            v = ot.emd2(a, b, M, numItermax=cap)
            log, G = {"warning": "?"}, None
        elif route == "emd-plain":
            G = ot.emd(a, b, M, numItermax=cap)
            log, v = {"warning": "?"}, (np.asarray(G) * M).sum()
        elif route == "warm":
            G, log = ot.emd(a, b, M, numItermax=cap, log=True, potentials_init=(M.min(1), 0 * M.min(0)))
            v = log["cost"]
        elif route == "sparse":
            r, c = np.nonzero(np.ones_like(M))
            G, log = ot.emd(a, b, sp.coo_matrix((M.ravel(), (r, c)), shape=M.shape), numItermax=cap, log=True)
            G = G.toarray()
            v = log["cost"]
        elif route == "sparse2":
            r, c = np.nonzero(np.ones_like(M))
            v, log = ot.emd2(a, b, sp.coo_matrix((M.ravel(), (r, c)), shape=M.shape), numItermax=cap, log=True, return_matrix=True)
            G = log["G"].toarray()
        elif route == "lazy":
            v, log = ot.lp.emd2_lazy(X, Y, a, b, numItermax=cap, log=True)
            G = log["G"].toarray()
        elif route == "solve":
            r = ot.solve(M, a, b, max_iter=cap)
            G, v = r.plan, r.value
            log = {"warning": None if r.status == "Converged" else r.status}
        else:
            raise KeyError(route)
    msgs = [str(w.message) for w in rec]
    return float(v), log.get("warning"), msgs, None if G is None else np.asarray(G), log


ROUTES = ["emd", "emd-threads", "emd2", "emd2-plain", "emd-plain", "warm", "sparse", "sparse2", "lazy", "solve"]


def gen_cap(ctx):
    ctx.choose("shape", [(2, 2), (3, 3), (4, 5), (6, 6), (12, 9), (20, 30)] + ([(40, 40)] if TIER == "thorough" else []))
    ctx.choose("cost", ["lcg", "ties", "mixed", "intcost", "neg"])
    ctx.choose("w", ["uniform", "lcg", "zeros"])
    ctx.choose("route", ROUTES)


def run_cap(case):
    n, m = case["shape"]
    M = I.cost(case["cost"], n, m)
    a, b = I.weights(case["w"], n, 1), I.weights(case["w"], m, 2)
    X = Y = None
    if case["route"] == "lazy":
        X, Y = I.points("signed", n, 2, 1), I.points("lcg", m, 2, 2)
        M = ((X[:, None] - Y[None]) ** 2).sum(-1)
    opt = oracle.transport_lp(a, b, M)
    sc = 1 + np.abs(M).max()
    first_ok = None
    r = case["route"]
    caps = list(range(1, 41)) if n * m <= 40 else list(range(1, 12)) + [15, 20, 30, 40, 50, 60, 80, 100, 150, 200, 300]
    outs = []
    for cap in caps + [100000]:
        v, warn, msgs, G, log = call(r, a, b, M, cap, X, Y)
        quiet = not any("numItermax" in s or "infeasible" in s.lower() for s in msgs)
        if warn != "?" and (warn is None) != quiet:
            raise Fail("status:%s:silent" % r, "cap %d: log says %r, warnings raised: %r" % (cap, warn, msgs))
        if quiet:
            if abs(v - opt) > 1e-8 * sc:
                raise Fail("status:%s:false-success" % r, "cap %d: no warning, value %r, optimum %r" % (cap, v, opt))
            if G is not None:
                oracle.check_coupling(Fail, "status:" + r, G, a, b)
            if first_ok is None:
                first_ok = cap
        else:
            txt = " ".join(msgs)
            if "infeasible" in txt.lower():
                raise Fail("status:%s:false-infeasible" % r, "cap %d: feasible problem reported infeasible" % cap)
            if "numItermax" not in txt:
                raise Fail("status:%s:text" % r, "cap %d: %r" % (cap, msgs))
            if first_ok is not None:
                raise Fail("status:%s:nonmonotone" % r, "cap %d hits the limit although cap %d was enough" % (cap, first_ok))
            if cap == 100000:
                raise Fail("status:%s:never" % r, "still not optimal after %d pivots on a %dx%d problem" % (cap, n, m))
            if G is not None:
                # an interrupted solve still never returns negative or non-finite mass
                if not np.isfinite(G).all() or G.min() < -1e-9 or G.sum() > a.sum() + b.sum():
                    raise Fail("status:%s:partial-plan" % r, "cap %d: interrupted plan has negative mass" % cap)
        outs.append(quiet)
    return dict(inner=len(outs), states=len(outs), transitions=len(outs), outcome=(case["route"], first_ok))


def gen_bad(ctx):
    ctx.choose("kind", ["negative-a", "negative-b", "mass", "dim-a", "dim-b", "mass-nocheck", "lazy-dim", "lazy-metric"])
    ctx.choose("route", ["emd", "emd2", "threads", "sparse", "lazy"])
    ctx.choose("shape", [(2, 2), (3, 4), (5, 5)])


def run_bad(case):
    n, m = case["shape"]
    k, r = case["kind"], case["route"]
    M = I.cost("lcg", n, m)
    a, b = np.ones(n) / n, np.ones(m) / m
    X, Y = I.points("signed", n, 2, 1), I.points("lcg", m, 2, 2)
    metric = "sqeuclidean"
    kw = {}
    if k == "negative-a":
        a = a.copy()
        a[0] += 0.3 + 1.0 / n
        a[1] -= 0.3 + 1.0 / n
    elif k == "negative-b":
        b = b.copy()
        b[-1] += 0.3 + 1.0 / m
        b[0] -= 0.3 + 1.0 / m
    elif k == "mass":
        a = a * 1.5
    elif k == "mass-nocheck":
        a = a * 1.5
        kw["check_marginals"] = False
    elif k == "dim-a":
        a = np.ones(n + 1) / (n + 1)
    elif k == "dim-b":
        b = np.ones(m + 1) / (m + 1)
    elif k == "lazy-dim":
        Y = I.points("lcg", m, 3, 2)
    elif k == "lazy-metric":
        metric = "chebyshev"
    if k.startswith("lazy") != (r == "lazy") and k.startswith("lazy"):
        return "skip"
    if k.startswith("negative") and r == "lazy":
        return "skip"  # the lazy solver treats a negative weight as an empty bin
    Mx = M
    if r == "sparse":
        rr, cc = np.nonzero(np.ones_like(M))
        Mx = sp.coo_matrix((M.ravel(), (rr, cc)), shape=M.shape)
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        try:
            if r == "emd2":
                val = ot.emd2(a, b, Mx, log=True, return_matrix=True, **kw)
                log = val[1]
                G = log["G"]
            elif r == "lazy":
                val, log = ot.lp.emd2_lazy(X, Y, a, b, metric=metric, log=True, **kw)
                G = log["G"].toarray()
            else:
                G, log = ot.emd(a, b, Mx, log=True, numThreads=2 if r == "threads" else 1, **kw)
                G = G.toarray() if r == "sparse" else G
        except (AssertionError, ValueError) as e:
            if k in ("mass", "dim-a", "dim-b", "lazy-dim", "lazy-metric"):
                return "rejected"
            raise Fail("bad:%s:%s:raised" % (k, r), "%s: %s" % (type(e).__name__, e))
    if k in ("mass", "dim-a", "dim-b", "lazy-dim", "lazy-metric"):
        raise Fail("bad:%s:%s:accepted" % (k, r), "inconsistent input was accepted silently")
    if k.startswith("negative"):
        if log["warning"] is None or "nfeasible" not in log["warning"]:
            raise Fail("bad:%s:%s:missed" % (k, r), "negative weight not reported as infeasible: %r" % log["warning"])
        if not any("nfeasible" in str(w.message) for w in rec):
            raise Fail("bad:%s:%s:silent" % (k, r), "no Python warning")
        return "infeasible"
    # mass mismatch that the caller asked to accept: targets are rescaled to the mass of a
    if log["warning"] is not None:
        raise Fail("bad:mass-nocheck:" + r, str(log["warning"]))
    oracle.check_coupling(Fail, "bad:mass-nocheck:" + r, np.asarray(G), a, b * a.sum() / b.sum())
    return "rescaled"


def gen_sub(ctx):
    ctx.choose("T", [16, 1024, 1 << 20])
    ctx.choose("shape", [(2, 2), (2, 3), (3, 2), (3, 3)])
    ctx.choose("perm", [0, 1, 2])
    ctx.choose("route", ["emd", "emd2"])
    ctx.choose("scale", [1.0, 100.0])


def run_sub(case):
    """all edge subsets; one bin holds nearly all the mass, the others one part in T"""
    T, (n, m), k = case["T"], case["shape"], case["perm"]
    a, b = [1] * n, [1] * m
    a[k % n], b[(2 * k) % m] = T - n + 1, T - m + 1
    af, bf = np.array(a, float) / T * case["scale"], np.array(b, float) / T * case["scale"]
    cells = [(i, j) for i in range(n) for j in range(m)]
    cnt = [0, 0]
    for mask in range(1, 1 << len(cells)):
        E = [c for q, c in enumerate(cells) if mask >> q & 1]
        C = [[None] * m for _ in range(n)]
        for i, j in E:
            C[i][j] = 1 + (i * 5 + j * 3) % 7
        want = oracle.transport_exact(a, b, C)
        S = sp.coo_matrix(([float(C[i][j]) for i, j in E], ([e[0] for e in E], [e[1] for e in E])), shape=(n, m))
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            if case["route"] == "emd":
                _, log = ot.emd(af, bf, S, log=True)
            else:
                _, log = ot.emd2(af, bf, S, log=True, return_matrix=True)
        said = any("nfeasible" in str(w.message) for w in rec)
        cnt[want is None] += 1
        if (want is None) != said or (want is None) != (log["warning"] is not None):
            raise Fail("feasibility:%s" % case["route"], "a=%r b=%r edges=%r: problem is %s but log=%r, warned=%r" % (
                a, b, E, "infeasible" if want is None else "feasible", log["warning"], said))
    return dict(inner=sum(cnt), states=sum(cnt), transitions=sum(cnt), outcome=tuple(cnt))


def scopes(tier):
    global TIER
    TIER = c01.TIER = tier
    return [
        Scope("iteration-cap", gen_cap, run_cap, doc="every iteration budget 1..40 (and a ladder above) on every route"),
        Scope("invalid-inputs", gen_bad, run_bad),
        Scope("feasibility", gen_sub, run_sub, doc="every edge subset of small bipartite graphs with one dominant bin: infeasible if and only if reported"),
    ]
