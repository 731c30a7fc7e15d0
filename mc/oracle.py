"""Reference models: boring, independent, exact where inputs are integers."""
import itertools
from fractions import Fraction

import numpy as np


def transport_exact(a, b, C):
    """Exact optimal transport cost for integer supplies (any exact-number costs).

    Successive shortest paths with Bellman-Ford on the residual network; C[i][j]
    may be None for a forbidden edge.  Returns None if infeasible.
    """
    n, m = len(a), len(b)
    sup, dem = list(a), list(b)
    f = {}
    total = 0
    while True:
        if not any(s > 0 for s in sup):
            break
        # multi-source Bellman-Ford over nodes 0..n-1 (sources), n..n+m-1 (targets)
        dist = [None] * (n + m)
        prev = [None] * (n + m)
        for i in range(n):
            if sup[i] > 0:
                dist[i] = 0
        changed = True
        while changed:
            changed = False
            for i in range(n):
                if dist[i] is not None:
                    Ci = C[i]
                    for j in range(m):
                        c = Ci[j]
                        if c is None:
                            continue
                        d = dist[i] + c
                        if dist[n + j] is None or d < dist[n + j]:
                            dist[n + j] = d
                            prev[n + j] = i
                            changed = True
            for (i, j), fl in f.items():
                if fl > 0 and dist[n + j] is not None:
                    d = dist[n + j] - C[i][j]
                    if dist[i] is None or d < dist[i]:
                        dist[i] = d
                        prev[i] = n + j
                        changed = True
        best = None
        for j in range(m):
            if dem[j] > 0 and dist[n + j] is not None:
                if best is None or dist[n + j] < dist[n + best]:
                    best = j
        if best is None:
            return None
        path = []
        v = n + best
        while prev[v] is not None:
            path.append((prev[v], v))
            v = prev[v]
        amt = min(sup[v], dem[best])
        for p, q in path:
            if p >= n:
                amt = min(amt, f[(q, p - n)])
        for p, q in path:
            if p < n:
                f[(p, q - n)] = f.get((p, q - n), 0) + amt
                total += amt * C[p][q - n]
            else:
                f[(q, p - n)] -= amt
                total -= amt * C[q][p - n]
        sup[v] -= amt
        dem[best] -= amt
    return total


def transport_lp(a, b, C):
    """Optimal transport cost by an independent LP solver (HiGHS)."""
    from scipy.optimize import linprog

    n, m = C.shape
    A = np.zeros((n + m, n * m))
    for i in range(n):
        A[i, i * m:(i + 1) * m] = 1
    for j in range(m):
        A[n + j, j::m] = 1
    s = a.sum() / 1000.0  # keep the masses far above the solver's tolerances
    cs = max(np.abs(C).max(), 1e-300)
    r = linprog(C.ravel() / cs, A_eq=A, b_eq=np.concatenate([a / s, b * (1000.0 / b.sum())]), bounds=(0, None),
                method="highs")
    return r.fun * s * cs if r.status == 0 else None


def compositions(total, parts, positive=False):
    """All tuples of `parts` nonnegative (or positive) ints with the given sum."""
    lo = 1 if positive else 0
    if parts == 1:
        if total >= lo:
            yield (total,)
        return
    for k in range(lo, total + 1):
        for rest in compositions(total - k, parts - 1, positive):
            yield (k,) + rest


def check_coupling(Fail, sig, G, a, b, tol=1e-9, what="plan"):
    G = np.asarray(G)
    if G.shape != (len(a), len(b)):
        raise Fail(sig + ":shape", "%s has shape %s, expected %s" % (what, G.shape, (len(a), len(b))))
    if not np.all(np.isfinite(G)):
        raise Fail(sig + ":finite", "%s has non-finite entries" % what)
    if G.min(initial=0) < -tol:
        raise Fail(sig + ":negative", "%s has negative entry %g" % (what, G.min()))
    e1 = np.abs(G.sum(1) - a).max(initial=0)
    e2 = np.abs(G.sum(0) - b).max(initial=0)
    if e1 > tol or e2 > tol:
        raise Fail(sig + ":marginals", "%s violates its marginals by %g / %g" % (what, e1, e2))


def sinkhorn_ref(a, b, M, reg):
    """The entropic OT plan for positive or zero weights, by Newton on the dual after log-domain sweeps (to ~1e-13)."""
    a, b, M = np.asarray(a, float), np.asarray(b, float), np.asarray(M, float)
    I, J = a > 0, b > 0
    A, B, L = a[I], b[J], -M[np.ix_(I, J)] / reg
    n, m = L.shape
    f, g = np.zeros(n), np.zeros(m)

    def lse(X, ax):
        mx = X.max(ax, keepdims=True)
        return (np.log(np.exp(X - mx).sum(ax, keepdims=True)) + mx).squeeze(ax)

    for it in range(4000):
        g = np.log(B) - lse(L + f[:, None], 0)
        f = np.log(A) - lse(L + g[None], 1)
        P = np.exp(L + f[:, None] + g[None])
        e = np.abs(P.sum(0) - B).max()
        if e < 1e-14:
            break
        if e < 1e-3 and it > 5:
            r = np.r_[A - P.sum(1), B - P.sum(0)]
            H = np.block([[np.diag(P.sum(1)), P], [P.T, np.diag(P.sum(0))]])
            s = np.linalg.lstsq(H, r, rcond=1e-13)[0]
            f2, g2 = f + s[:n], g + s[n:]
            P2 = np.exp(L + f2[:, None] + g2[None])
            if max(np.abs(P2.sum(0) - B).max(), np.abs(P2.sum(1) - A).max()) < e:
                f, g = f2, g2
                P = P2
    out = np.zeros((len(a), len(b)))
    out[np.ix_(I, J)] = P
    return out


def line_cost(x, y, a, b, p):
    """Cost of the monotone coupling of two weighted point sets of the line (north-west corner rule)."""
    i, j = np.argsort(x, kind="stable"), np.argsort(y, kind="stable")
    x, y, a, b = x[i], y[j], list(np.asarray(a, float)[i]), list(np.asarray(b, float)[j])
    s, t, c = 0, 0, 0.0
    while s < len(a) and t < len(b):
        d = min(a[s], b[t])
        c += d * abs(x[s] - y[t]) ** p
        a[s] -= d
        b[t] -= d
        if a[s] <= b[t]:
            s += 1
        else:
            t += 1
    return c
