"""C27: regularisation paths of the L2-penalised unbalanced OT problems."""
BACKENDS = ()
OMP = 1
import contextlib
import io

import numpy as np
import ot
import ot.regpath as R

from mc import instances as I
from mc.engine import Fail, Scope

ASSUMPTIONS = ("problems up to 6 x 5 with generic costs (ties between breakpoints are outside the assumptions of the homotopy method)",)


def near(sig, got, want, tol, what):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape or not np.allclose(got, want, rtol=tol, atol=tol):
        raise Fail(sig, "%s %s, expected %s" % (what, got.round(7).tolist(), want.round(7).tolist()))


def gen_p(ctx):
    ctx.choose("n", [(3, 4), (1, 1), (1, 3), (3, 1), (2, 2), (4, 3), (5, 5), (6, 4)])
    ctx.choose("semi", [False, True])
    ctx.choose("reg", [1e-4, 1e-2, 0.3, 2.0, 50.0])
    ctx.choose("w", ["lcg", "uniform", "ramp", "mass", "spiky"])
    ctx.choose("seed", list(range(8)))
    ctx.choose("kind", ["lcg", "points", "scaled"])


def problem(case):
    n, m = case["n"]
    C = I.cost("lcg", n, m, 11 + 7 * case["seed"]) + 0.05
    if case["kind"] == "points":
        X, Y = I.points("lcg", n, 2, 3 + case["seed"]), I.points("lcg", m, 2, 40 + case["seed"])
        C = ((X[:, None] - Y[None]) ** 2).sum(-1) + 1e-3
    if case["kind"] == "scaled":
        C = C * 20
    w = case["w"]
    a, b = I.weights("lcg" if w == "mass" else w, n, 0), I.weights("lcg" if w == "mass" else w, m, 1)
    if w == "mass":
        a, b = 1.7 * a, 0.6 * b
    return a, b, C


def kkt(tag, t, g, a, b, C, semi, tol=1e-7):
    """Optimality of t for the penalised problem with coefficient g; necessary and sufficient (convex)."""
    T = t.reshape(C.shape)
    if not np.isfinite(T).all():
        raise Fail(tag + ":finite", "plan %s" % T.tolist())
    sc = 1 + g * C.max()
    if T.min() < -tol:
        raise Fail(tag + ":sign", "plan %s at %g" % (T.round(6).tolist(), g))
    D = g * C + (T.sum(1) - a)[:, None]
    if semi:
        near(tag + ":columns", T.sum(0), b, 1e-7, "target marginal")
        D = D - D.min(0)
    else:
        D = D + (T.sum(0) - b)
    if D.min() < -tol * sc:
        raise Fail(tag + ":dual", "reduced cost %g at coefficient %g" % (D.min(), g))
    if np.abs(D * T).max() > tol * sc:
        raise Fail(tag + ":complementarity", "product %g at coefficient %g" % (np.abs(D * T).max(), g))


def run_p(case):
    a, b, C = problem(case)
    semi, reg = case["semi"], case["reg"]
    keep = a.copy(), b.copy(), C.copy()
    f = R.semi_relaxed_path if semi else R.fully_relaxed_path
    out = io.StringIO()
    with contextlib.redirect_stdout(out), np.errstate(all="ignore"):
        t, tl, gl = R.regularization_path(a, b, C, reg=reg, semi_relaxed=semi)
        t2, tl2, gl2 = f(a, b, C, reg=reg)
    if not all(np.array_equal(x, y) for x, y in zip(keep, (a, b, C))):
        raise Fail("inputs", "inputs changed")
    if not (np.array_equal(t, t2) and gl == gl2 and all(np.array_equal(x, y) for x, y in zip(tl, tl2))):
        raise Fail("dispatch", "regularization_path differs from the path function")
    tag = "semi" if semi else "full"
    if len(tl) != len(gl) or not np.array_equal(t, tl[-1]):
        raise Fail(tag + ":lists", "%d plans, %d coefficients" % (len(tl), len(gl)))
    near(tag + ":end", gl[-1], reg, 1e-12, "last coefficient")
    if len(gl) > 1 and any(y > x * (1 + 1e-9) for x, y in zip(gl, gl[1:])):
        raise Fail(tag + ":decreasing", "coefficients %s" % gl)
    n = 0
    for g, s in zip(gl, tl):  # every breakpoint of the path
        kkt(tag + ":breakpoint", np.asarray(s), g, a, b, C, semi)
        n += 1
    grid = [x for p, q in zip(gl, gl[1:]) for x in (0.5 * (p + q), 0.9 * p + 0.1 * q)]
    if len(gl) > 1 or not semi:
        grid += [gl[0] * 1.5] if not semi or len(gl) > 1 else []
    for g in grid:  # every piece between two breakpoints
        kkt(tag + ":between", np.asarray(R.compute_transport_plan(g, gl, tl)), g, a, b, C, semi)
        n += 1
    near(tag + ":below", R.compute_transport_plan(reg * 0.5, gl, tl), tl[-1], 1e-12, "plan below the path")
    return {"inner": n, "states": n, "outcome": tag}


def gen_l(ctx):
    ctx.choose("n", [(3, 4), (1, 1), (1, 3), (3, 1), (2, 2), (4, 3)])
    ctx.choose("w", ["lcg", "uniform", "ramp"])
    ctx.choose("its", [1, 2, 3, 6])
    ctx.choose("semi", [False, True])


def run_l(case):
    n, m = case["n"]
    case.update(seed=1, kind="lcg")
    a, b, C = problem(case)
    H, y, c = R.recast_ot_as_lasso(a, b, C)
    T = I.cost("lcg", n, m, 3)
    near("recast:H", H.dot(T.ravel()), np.concatenate([T.sum(1), T.sum(0)]), 1e-12, "marginals")
    near("recast:y", y, np.concatenate([a, b]), 0, "target")
    near("recast:c", c, C.ravel(), 0, "cost")
    Hr, Hc, c = R.recast_semi_relaxed_as_lasso(a, b, C)
    near("recast:Hr", Hr.dot(T.ravel()), T.sum(1), 1e-12, "source marginal")
    near("recast:Hc", Hc.dot(T.ravel()), T.sum(0), 1e-12, "target marginal")
    # the updates of the inverse of the Gram matrix, for every order of a few additions and removals
    HtH = H.T.dot(H).toarray()
    act, inv = [], np.array([[]])
    order = [(0, 0), (n * m - 1, 0), (min(1, n * m - 1), 0)][: 1 + (n * m > 1) + (n * m > 2)]
    k = 0
    for j, _ in order:
        if j in act:
            continue
        inv = R.complement_schur(inv, HtH[np.ix_(act, [j])] if act else np.array([]), 2.0, -1)
        act.append(j)
        G = HtH[np.ix_(act, act)]
        if abs(np.linalg.det(G)) > 1e-9:
            near("schur:add", inv, np.linalg.inv(G), 1e-9, "inverse")
        k += 1
        for p in range(len(act)):
            if len(act) > 1:
                rest = [x for i, x in enumerate(act) if i != p]
                near("schur:remove", R.complement_schur(inv, None, 2.0, p), np.linalg.inv(HtH[np.ix_(rest, rest)]), 1e-8, "inverse")
                k += 1
    # stopping after a few steps gives the beginning of the path
    f = R.semi_relaxed_path if case["semi"] else R.fully_relaxed_path
    with contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
        t, tl, gl = f(a, b, C, reg=1e-4)
        s, sl, hl = f(a, b, C, reg=1e-4, itmax=case["its"] + 1)
    q = min(len(hl), len(gl)) - 1
    if len(sl) != len(hl) or not np.array_equal(s, sl[-1]):
        raise Fail("budget:lists", "%d plans, %d coefficients" % (len(sl), len(hl)))
    kkt("budget:last", np.asarray(s), hl[-1], a, b, C, case["semi"])
    if len(sl) > len(tl):
        raise Fail("budget", "longer path with fewer iterations")
    for i in range(q):
        near("budget:gamma", hl[i], gl[i], 1e-10, "coefficient")
        near("budget:plan", sl[i], tl[i], 1e-10, "plan")
    return {"inner": k, "outcome": "ok"}


def scopes(tier):
    return [
        Scope("paths", gen_p, run_p, dev=2, thorough_dev=4, doc="optimality conditions at every breakpoint of the path and between them"),
        Scope("steps", gen_l, run_l, dev=2, thorough_dev=4, doc="lasso matrices, updates of the inverse, truncated paths"),
    ]
