"""C30: Gromov-Wasserstein dictionaries, quantized and sampled solvers."""
BACKENDS = ("torch", "jax")
OMP = 1
import itertools
import warnings

import numpy as np
import ot
import ot.gromov as gw

from mc import instances as I
from mc.engine import Fail, Scope

ASSUMPTIONS = ("structures of up to 8 nodes; unmixing alternates between couplings and weights: both blocks and descent, not global optimality",
               "random draws of the sampled solvers are explored exhaustively up to two iterations")


def near(sig, got, want, tol, what):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape or not np.allclose(got, want, rtol=tol, atol=tol):
        raise Fail(sig, "%s %s, expected %s" % (what, got.round(6).tolist(), want.round(6).tolist()))


def sq(X, Y):
    return ((X[:, None] - Y[None]) ** 2).sum(-1)


def gwobj(C1, C2, T):
    return np.einsum("ij,kl,ikjl->", T, T, (C1[:, :, None, None] - C2[None, None]) ** 2, optimize=True)


def struct(kind, n, s):
    if kind == "dist":
        X = I.points("lcg", n, 2, s)
        return np.sqrt(sq(X, X))
    A = I.cost("lcg", n, n, 5 + s)
    return A if kind == "asym" else (A + A.T) / 2


def arr(kind, *xs):
    if kind == "torch":
        import torch

        return [None if x is None else [torch.tensor(v) for v in x] if isinstance(x, list) else torch.tensor(x) for x in xs]
    if kind == "jax":
        import jax.numpy as jnp

        return [None if x is None else [jnp.asarray(v) for v in x] if isinstance(x, list) else jnp.asarray(x) for x in xs]
    return xs


# ---- unmixing and dictionaries
def gen_u(ctx):
    ctx.choose("n", [(4, 3), (3, 3), (2, 4), (1, 2), (2, 1)])
    ctx.choose("D", [3, 1, 4])
    ctx.choose("kind", ["dist", "sym", "asym"])
    ctx.choose("fused", [False, True])
    ctx.choose("w", ["uniform", "lcg", None])
    ctx.dev("reg", [0.0, 0.05, -0.2])
    ctx.dev("alpha", [0.5, 0.1, 0.9])
    ctx.dev("outer", [20, 1, 2])
    ctx.dev("arr", ["C", "torch", "strided"])
    ctx.dev("exact", [False, True])


def unmix_data(case):
    n, m = case["n"]
    Cd = np.stack([struct(case["kind"], m, 20 + 3 * k) * (1 + 0.3 * k) for k in range(case["D"])])
    Yd = np.stack([I.points("lcg", m, 2, 70 + k) for k in range(case["D"])])
    C, Y = struct(case["kind"], n, 1), I.points("lcg", n, 2, 9)
    if case["exact"] and n == m:
        C, Y = Cd[-1].copy(), Yd[-1].copy()
    return C, Y, Cd, Yd


def run_u(case):
    n, m = case["n"]
    C, Y, Cd, Yd = unmix_data(case)
    p, q = (None, None) if case["w"] is None else (I.weights(case["w"], n, 0), I.weights(case["w"], m, 1))
    P, Q = (np.full(n, 1 / n), np.full(m, 1 / m)) if p is None else (p, q)
    reg, al = case["reg"], case["alpha"]
    keep = [v.copy() for v in (C, Y, Cd, Yd)]
    a = (np.asfortranarray(C), Y, Cd.transpose(0, 2, 1).copy().transpose(0, 2, 1), Yd, p, q) if case["arr"] == "strided" else arr(case["arr"], C, Y, Cd, Yd, p, q)
    kw = dict(reg=reg, p=a[4], q=a[5], tol_outer=1e-6, tol_inner=1e-7, max_iter_outer=case["outer"], max_iter_inner=200)
    sym = case["kind"] != "asym"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if case["fused"]:
            w, Ce, Ye, T, loss = gw.fused_gromov_wasserstein_linear_unmixing(a[0], a[1], a[2], a[3], al, symmetric=sym, **kw)
        else:
            w, Ce, T, loss = gw.gromov_wasserstein_linear_unmixing(a[0], a[2], symmetric=sym, **kw)
            Ye, al = np.zeros((m, 2)), 1.0
    w, Ce, Ye, T, loss = (np.asarray(v, float) for v in (w, Ce, Ye, T, loss))
    if not all(np.array_equal(x, y) for x, y in zip(keep, (C, Y, Cd, Yd))):
        raise Fail("unmix:inputs", "inputs changed")
    tag = "fused" if case["fused"] else "gw"
    if w.shape != (case["D"],) or w.min() < -1e-9 or abs(w.sum() - 1) > 1e-6:
        raise Fail("unmix:simplex:" + tag, "weights %s" % w.tolist())
    jx = 1e-5 if case["arr"] == "jax" else 1e-8
    near("unmix:structure:" + tag, Ce, np.tensordot(w, Cd, 1), jx, "embedded structure")
    if case["fused"]:
        near("unmix:features", Ye, np.tensordot(w, Yd, 1), jx, "embedded features")
    near("unmix:rows:" + tag, T.sum(1), P, 1e-6, "source marginal")
    near("unmix:columns:" + tag, T.sum(0), Q, 1e-6, "target marginal")

    def F(v, T):
        r = al * gwobj(C, np.tensordot(v, Cd, 1), T) - reg * (v ** 2).sum()
        if al < 1:
            r += (1 - al) * (T * sq(Y, np.tensordot(v, Yd, 1))).sum()
        return r

    near("unmix:loss:" + tag, loss, F(w, T), max(jx, 1e-6), "reported loss")
    w0 = np.full(case["D"], 1 / case["D"])
    start = F(w0, np.outer(P, Q))
    if loss > start + 1e-6:
        raise Fail("unmix:descent:" + tag, "loss %g, %g at the start" % (loss, start))
    # the weights are a quadratic problem over the simplex for the returned coupling
    g = np.array([(F(w + 1e-5 * (e - w), T) - F(w - 1e-5 * (e - w), T)) / 2e-5 for e in np.eye(case["D"])])
    sc = 1 + abs(start)
    if g.min() < -2e-2 * sc:  # conditional gradient steps stop on relative progress
        raise Fail("unmix:weights:" + tag, "derivative towards the atoms %s" % g.round(5).tolist())
    return {"outcome": tag}


def gen_d(ctx):
    ctx.choose("S", [2, 1, 3])
    ctx.choose("kind", ["sym", "dist", "asym"])
    ctx.choose("fused", [False, True])
    ctx.choose("proj", ["nonnegative_symmetric", "symmetric", "nonnegative", ""])
    ctx.choose("adam", [True, False])
    ctx.choose("batch", [32, 1])
    ctx.dev("epochs", [3, 1, 2])
    ctx.dev("reg", [0.0, 0.05])
    ctx.dev("D", [2, 1, 3])
    ctx.dev("nt", [3, 2])
    ctx.dev("w", [None, "lcg"])
    ctx.dev("arr", ["C", "torch"])
    ctx.dev("rate", [0.1, 1.0])
    ctx.dev("alpha", [0.5, 0.2])


def run_d(case):
    S, D, nt, al = case["S"], case["D"], case["nt"], case["alpha"]
    sizes = [3, 4, 2][:S]
    Cs, Ys = [struct(case["kind"], n, 3 * i) for i, n in enumerate(sizes)], [I.points("lcg", n, 2, 9 + i) for i, n in enumerate(sizes)]
    ps, q = (None, None) if case["w"] is None else ([I.weights("lcg", n, i) for i, n in enumerate(sizes)], I.weights("lcg", nt, 7))
    C0 = np.stack([struct("asym", nt, 30 + k) - 0.2 for k in range(D)])
    Y0 = np.stack([I.points("lcg", nt, 2, 70 + k) for k in range(D)])
    a = arr(case["arr"], Cs, Ys, C0.copy(), Y0.copy(), ps, q)
    sub = dict(reg=case["reg"], tol_outer=1e-5, tol_inner=1e-5, max_iter_outer=5, max_iter_inner=50)
    kw = dict(ps=a[4], q=a[5], epochs=case["epochs"], batch_size=case["batch"], Cdict_init=a[2], projection=case["proj"], use_adam_optimizer=case["adam"], random_state=0, use_log=True, **sub)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if case["fused"]:
            Cd, Yd, log = gw.fused_gromov_wasserstein_dictionary_learning(a[0], a[1], D, nt, al, Ydict_init=a[3], learning_rate_C=case["rate"], learning_rate_Y=case["rate"], **kw)
        else:
            Cd, log = gw.gromov_wasserstein_dictionary_learning(a[0], D, nt, learning_rate=case["rate"], **kw)
            Yd, al = Y0, 1.0
        near("dict:inputs", a[2], C0, 0, "given dictionary after the call")
        near("dict:inputs", a[3], Y0, 0, "given features after the call")
        # every state reachable by the documented updates, for all orders of the batches
        Q = np.full(nt, 1 / nt) if q is None else q
        Pj = lambda X: np.maximum(s, 0) if (s := (X + X.transpose(0, 2, 1)) / 2 if "symmetric" in case["proj"] else X) is not None and "nonnegative" in case["proj"] else s
        sym = "symmetric" in case["proj"]
        bs = min(case["batch"], S)
        nb = -(-S // bs)
        picks = [tuple(range(S))] if bs == S else [(i,) for i in range(S)]

        def grads(batch, X, Z):
            gC, gY, tot = np.zeros_like(X), np.zeros_like(Z), 0
            for i in batch:
                p = np.full(sizes[i], 1 / sizes[i]) if ps is None else ps[i]
                if case["fused"]:
                    w, Ce, Ye, T, l = gw.fused_gromov_wasserstein_linear_unmixing(Cs[i], Ys[i], X, Z, al, p=p, q=Q, symmetric=sym, **sub)
                else:
                    w, Ce, T, l = gw.gromov_wasserstein_linear_unmixing(Cs[i], X, p=p, q=Q, symmetric=sym, **sub)
                # derivative of sum_ijkl T_ik T_jl (C_ij - sum_d w_d D_kl)^2
                r = 2 * (np.outer(Q, Q) * np.tensordot(w, X, 1) - T.T @ Cs[i] @ T)
                gC += al * w[:, None, None] * r
                if case["fused"]:
                    gY += (1 - al) * w[:, None, None] * 2 * (Q[:, None] * np.tensordot(w, Z, 1) - T.T @ Ys[i])
                tot += l
            return gC / len(batch), gY / len(batch), tot

        def step(V, g, mom, t):
            if not case["adam"]:
                return V - case["rate"] * g, mom
            m, v = 0.9 * mom[0] + 0.1 * g, 0.99 * mom[1] + 0.01 * g ** 2
            return V - case["rate"] * (m / (1 - 0.9 ** t)) / (np.sqrt(v / (1 - 0.99 ** t)) + 1e-9), (m, v)

        zero = (np.zeros_like(C0), np.zeros_like(C0)), (np.zeros_like(Y0), np.zeros_like(Y0))
        lb = [float(v) for v in log["loss_batches"]]
        if len(lb) != nb * case["epochs"] or len(log["loss_epochs"]) != case["epochs"]:
            raise Fail("dict:log", "%d losses of batches, %d of epochs" % (len(lb), len(log["loss_epochs"])))
        le = np.array(log["loss_epochs"], float)
        near("dict:epochs", le, np.array(lb).reshape(-1, nb).sum(1), 1e-9, "losses of the epochs")
        states = 0

        def search(picks, noises):
            """follow all histories whose losses are the logged ones"""
            nonlocal states
            front = [(Pj(C0), Y0, zero[0], zero[1])]
            for t, l in enumerate(lb):
                new = []
                for X, Z, mC, mY in front:
                    for b in picks:
                        for e in noises:
                            gC, gY, tot = grads(b, X * (1 + e * np.cos(np.arange(X.size)).reshape(X.shape)), Z)
                            states += 1
                            if abs(tot - l) < 1e-7 * (1 + abs(l)):
                                X2, mC2 = step(X, gC, mC, t + 1)
                                Z2, mY2 = step(Z, gY, mY, t + 1)
                                X2 = Pj(X2)
                                if not any(np.allclose(X2, n[0], atol=1e-9) and np.allclose(Z2, n[1], atol=1e-9) for n in new):
                                    new.append((X2, Z2, mC2, mY2))
                front = new[:8]
                if not front:
                    return Fail("dict:history", "loss %g of batch %d is not reachable by the documented updates" % (l, t))
                if (t + 1) % nb == 0 and le[(t + 1) // nb - 1] < le.min() + 1e-9:
                    for X, Z, _, _ in front:
                        if np.allclose(X, np.asarray(Cd), atol=1e-6) and (not case["fused"] or np.allclose(Z, np.asarray(Yd), atol=1e-6)):
                            return None
            return Fail("dict:result", "dictionary %s is not the one of the best epoch" % np.asarray(Cd).round(4).tolist())

        r = search(picks, [0])
        if r is not None:  # couplings that hang on the last bits: all orders of the sums, rounded states
            r = search(list(itertools.permutations(range(S))) if bs == S else picks, [0, 1e-14, -1e-14, 1e-12, -1e-12])
        if r is not None:
            raise r
    return {"outcome": case["proj"], "states": states}


# ---- quantized
def gen_q(ctx):
    ctx.choose("n", [(6, 5), (5, 6), (4, 4), (3, 2), (1, 3)])
    ctx.choose("parts", [(2, 2), (2, 3), (1, 2), (9, 9), (3, 1)])
    ctx.choose("method", ["random", "fluid", "louvain", "spectral", "samples:random", "samples:kmeans"])
    ctx.choose("rep", ["random", "pagerank"])
    ctx.choose("fused", [None, "features", "fused"])
    ctx.dev("w", [None, "lcg"])
    ctx.dev("alpha", [0.5, 0.9])
    ctx.dev("arr", ["C", "torch"])
    ctx.dev("seed", [0, 1, 2])
    ctx.dev("log", [True, False])


def run_q(case):
    n, m = case["n"]
    X1, X2 = I.points("lcg", n, 2, 1), I.points("lcg", m, 2, 40)
    F1, F2 = I.points("lcg", n, 2, 80), I.points("lcg", m, 2, 90)
    samples = case["method"].startswith("samples")
    if (samples and case["rep"] != "random"):
        return {"outcome": "skip"}
    C1, C2 = (sq(X1, X1), sq(X2, X2)) if samples else (0.2 + struct("sym", n, 1), 0.2 + struct("sym", m, 2))
    p, q = (None, None) if case["w"] is None else (I.weights("lcg", n, 0), I.weights("lcg", m, 1))
    P, Q = (np.full(n, 1 / n), np.full(m, 1 / m)) if p is None else (p, q)
    al = 1.0 if case["fused"] is None else case["alpha"]
    f1, f2 = (None, None) if case["fused"] is None else (F1, F2)
    suf = "_fused" if case["fused"] == "fused" else ""
    kw = dict(alpha=al, log=case["log"], random_state=case["seed"])
    a = arr(case["arr"], X1 if samples else C1, X2 if samples else C2, p, q, f1, f2)
    k1, k2 = case["parts"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if samples:
            f = lambda: gw.quantized_fused_gromov_wasserstein_samples(a[0], a[1], k1, k2, a[2], a[3], F1=a[4], F2=a[5], method=case["method"][8:] + suf, **kw)
        else:
            f = lambda: gw.quantized_fused_gromov_wasserstein(a[0], a[1], k1, k2, a[2], a[3], F1=a[4], F2=a[5], part_method=case["method"] + suf, rep_method=case["rep"] + suf, **kw)
        r, r2 = f(), f()
    Tg, Tl, T = np.asarray(r[0]), r[1], np.asarray(r[2])
    if not np.array_equal(T, np.asarray(r2[2])):
        raise Fail("quantized:seed", "two calls with one seed differ")
    near("quantized:rows", T.sum(1), P, 1e-7, "source marginal")
    near("quantized:columns", T.sum(0), Q, 1e-7, "target marginal")
    if T.min() < -1e-12:
        raise Fail("quantized:sign", "negative plan")
    if k1 >= n and Tg.shape[0] != n or k1 == 1 and Tg.shape[0] != 1 or case["method"] in ("fluid", "spectral", "samples:kmeans") and Tg.shape[0] != min(k1, n):
        raise Fail("quantized:parts", "%d parts for %d requested" % (Tg.shape[0], k1))
    near("quantized:global", Tg.sum(), 1, 1e-7, "global mass")
    if case["log"]:
        v = al * gwobj(C1, C2, T) + (0 if case["fused"] is None else (1 - al) * (sq(F1, F2) * T).sum())
        near("quantized:value", r[3]["qFGW_dist"], v, 1e-6, "value of the plan")
    # blocks: the plan restricted to a pair of parts is the global mass times a coupling of the conditional weights
    for (i, j), t in Tl.items():
        t = np.asarray(t)
        near("quantized:local", t.sum(), 1, 1e-7, "mass of a local plan")
        want = np.sort((Tg[i, j] * t)[(Tg[i, j] * t) > 1e-12])
        have = T[T > 1e-12]
        if not all(np.isclose(have, x, rtol=1e-6, atol=1e-12).any() for x in want):
            raise Fail("quantized:block", "entries of the local plan %s are missing" % ((i, j),))
    if k1 >= n and k2 >= m:  # every node is a part
        near("quantized:nodes", T, Tg, 1e-9, "plan between nodes")
    return {"outcome": case["method"]}


def parts(n):
    """all partitions of range(n), as labels"""
    out = [[]]
    for _ in range(n):
        out = [a + [k] for a in out for k in range(max(a, default=-1) + 2)]
    return out


def gen_p(ctx):
    ctx.choose("n", [(4, 3), (3, 4), (3, 3)])
    ctx.choose("labels", [0, 1])  # identity or reversed numbering
    ctx.choose("alpha", [1.0, 0.5])
    ctx.choose("w", ["uniform", "lcg"])
    ctx.choose("rep", ["random", "pagerank"])
    ctx.choose("samples", [False, True])


def run_p(case):
    n, m = case["n"]
    al = case["alpha"]
    C1, C2 = 0.2 + struct("sym", n, 1), 0.2 + struct("sym", m, 2)
    X1, X2 = I.points("lcg", n, 2, 1), I.points("lcg", m, 2, 40)
    F1, F2 = I.points("lcg", n, 2, 80), I.points("lcg", m, 2, 90)
    P, Q = I.weights(case["w"], n, 0), I.weights(case["w"], m, 1)
    k = 0
    for a1, a2 in itertools.product(parts(n), parts(m)):
        a1, a2 = np.array(a1, float), np.array(a2, float)
        if case["labels"]:
            a1, a2 = a1.max() - a1, a2.max() - a2
        R = []
        for C, X, F, w, a in ((C1, X1, F1, P, a1), (C2, X2, F2, Q, a2)):
            reps = [int(r) for r in gw.get_graph_representants(C, a, rep_method=case["rep"])]
            ids = np.unique(a)
            if any(a[r] != i for r, i in zip(reps, ids)) or len(reps) != len(ids):
                raise Fail("format:representants", "representants %s of partition %s" % (reps, a.tolist()))
            if case["samples"]:
                out = gw.format_partitioned_samples(X, w, a, reps, F if al < 1 else None, al)
                C = sq(X, X)
            else:
                out = gw.format_partitioned_graph(C, w, a, reps, F if al < 1 else None, sq(F, F) if al < 1 else None, al)
            near("format:CR", out[0], C[np.ix_(reps, reps)], 1e-9, "structure of the representants")
            for i, c in enumerate(ids):
                o = np.where(a == c)[0]
                near("format:R", np.ravel(out[1][i]), al * C[reps[i], o] + (1 - al) * sq(F, F)[reps[i], o], 1e-9, "distances to the representant")
                near("format:p", out[2][i], w[o], 0, "weights of a part")
            if al < 1:
                near("format:FR", out[3], F[reps], 0, "features of the representants")
            R.append(out)
        A, B = R
        MR = sq(A[3], B[3]) if al < 1 else None
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            Tg, Tl, T, log = gw.quantized_fused_gromov_wasserstein_partitioned(A[0], B[0], A[1], B[1], A[2], B[2], MR, al, build_OT=True, log=True)
        g1, g2 = np.array([x.sum() for x in A[2]]), np.array([x.sum() for x in B[2]])
        near("partitioned:global", Tg.sum(1), g1, 1e-7, "global source marginal")
        near("partitioned:global", Tg.sum(0), g2, 1e-7, "global target marginal")
        v = al * gwobj(A[0], B[0], Tg) + (0 if al == 1 else (1 - al) * (MR * Tg).sum())
        near("partitioned:value", log["global dist"], v, 1e-7, "global value")
        rows = []
        for i in range(len(g1)):
            row = []
            for j in range(len(g2)):
                if Tg[i, j] == 0:
                    row.append(np.zeros((len(A[2][i]), len(B[2][j]))))
                    continue
                t = Tl[(i, j)]
                x, y = np.ravel(A[1][i]), np.ravel(B[1][j])
                u, w = A[2][i] / g1[i], B[2][j] / g2[j]
                near("partitioned:local", t.sum(1), u, 1e-9, "local source marginal")
                near("partitioned:local", t.sum(0), w, 1e-9, "local target marginal")
                c = (x[:, None] - y[None]) ** 2
                near("partitioned:local-value", (t * c).sum(), ot.emd2(u, w, c), 1e-9, "local value")
                near("partitioned:local-log", log["local dist (%d,%d)" % (i, j)], (t * c).sum(), 1e-9, "logged local value")
                row.append(Tg[i, j] * t)
            rows.append(np.hstack(row))
        near("partitioned:plan", T, np.vstack(rows), 1e-12, "plan")
        k += 1
    return {"inner": k, "outcome": "ok"}


# ---- sampled solvers
LOSS = {"sq": lambda x, y: (x - y) ** 2, "asym": lambda x, y: np.maximum(x - y, 0) + 2 * np.maximum(y - x, 0) ** 2}


def gen_s(ctx):
    ctx.choose("n", [(3, 3), (3, 2), (2, 3), (2, 2), (1, 2), (4, 3)])
    ctx.choose("loss", ["sq", "asym"])
    ctx.choose("kind", ["sym", "asym"])
    ctx.choose("w", ["uniform", "lcg"])
    ctx.choose("what", ["pointwise", "pointwise-mix", "sampled", "sampled-emd", "estimate"])


def run_s(case):
    (n, m), f = case["n"], LOSS[case["loss"]]
    C1, C2 = struct(case["kind"], n, 1), struct(case["kind"], m, 2)
    p, q = I.weights(case["w"], n, 0), I.weights(case["w"], m, 1)
    L = f(C1[:, :, None, None], C2[None, None])  # i j k l
    k = 0
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if case["what"].startswith("pointwise"):
            al = 1 if case["what"] == "pointwise" else 0.4
            E = {(i, j): ot.emd_1d(C1[i], C2[j], p, q) for i in range(n) for j in range(m)}
            near("emd_1d", E[0, 0].sum(1), p, 1e-9, "marginal")
            reach = {s: T for s, T in E.items()}
            if al == 1:
                ok = list(E.values())
            else:
                ok = [(1 - al) * T + al * E[i, j] for T in reach.values() for i in range(n) for j in range(m) if T[i, j] > 0]
            for seed in range(12):
                T, log = gw.pointwise_gromov_wasserstein(C1, C2, p, q, f, alpha=al, max_iter=1, random_state=seed, log=True)
                T = np.asarray(T.todense())
                if not any(np.allclose(T, R, atol=1e-9) for R in ok):
                    raise Fail("pointwise:reach", "plan %s is not reachable" % T.round(4).tolist())
                T3 = np.asarray(gw.pointwise_gromov_wasserstein(C1, C2, p, q, f, alpha=al, max_iter=23, random_state=seed).todense())
                near("pointwise:rows", T3.sum(1), p, 1e-9, "source marginal")
                near("pointwise:columns", T3.sum(0), q, 1e-9, "target marginal")
                if not 0 <= log["gw_dist_estimated"] <= L.max() + 1e-12:
                    raise Fail("pointwise:estimate", "estimate %g" % log["gw_dist_estimated"])
                k += 1
        elif case["what"].startswith("sampled"):
            eps = 0.5 if case["what"] == "sampled" else 0
            T0 = np.outer(p, q)
            ok = []
            for js in itertools.product(range(m), repeat=n):
                for tr in itertools.product([0, 1], repeat=n if case["kind"] == "asym" else 0):
                    # contribution of the pair (i, js[i]): loss between rows (or columns) i of C1 and js[i] of C2
                    G = sum(L[:, i, :, js[i]] if tr and tr[i] else L[i, :, js[i], :] for i in range(n))
                    if G.max() == 0:
                        ok.append(T0)
                        continue
                    G = G / G.max()
                    if eps:
                        ok.append(ot.sinkhorn(p, q, G - eps * np.log(T0), eps))
                    else:
                        ok.append(ot.emd(p, q, G))
            for seed in range(10):
                T, log = gw.sampled_gromov_wasserstein(C1, C2, p, q, f, nb_samples_grad=n, epsilon=eps, max_iter=1, random_state=seed, log=True)
                if not any(np.allclose(T, R, atol=1e-6) for R in ok):
                    raise Fail("sampled:reach", "plan %s is not reachable" % T.round(4).tolist())
                T3 = gw.sampled_gromov_wasserstein(C1, C2, p, q, f, nb_samples_grad=n, epsilon=eps, max_iter=7, random_state=seed)
                near("sampled:columns", T3.sum(0), q, 1e-4, "target marginal")
                near("sampled:rows", T3.sum(1), p, 1e-4, "source marginal")
                k += 1
        else:
            # with a deterministic plan and all samples the estimate is the value itself
            if n < m or case["w"] != "uniform":
                plans = []
            else:
                plans = [np.eye(m)[list(s)] / n for s in itertools.product(range(m), repeat=n)]
            if n < m and case["w"] == "uniform":
                plans = [np.eye(n)[list(s)].T / m for s in itertools.product(range(n), repeat=m)]
            for T in plans:
                P, Q = T.sum(1), T.sum(0)
                if n < m and Q.min() == 0 or n >= m and P.min() == 0:
                    continue
                v = np.einsum("ik,jl,ijkl->", T, T, L)
                for sp in (False, True):
                    import scipy.sparse as ss

                    Z = ss.csr_matrix(T) if sp else T
                    est, std = gw.GW_distance_estimation(C1, C2, P, Q, f, Z, nb_samples_p=max(n, m), random_state=3)
                    near("estimate:value", est, v, 1e-9, "estimate of a deterministic plan")
                    near("estimate:std", std, 0, 1e-9, "deviation of a deterministic plan")
                    near("estimate:value", gw.GW_distance_estimation(C1, C2, P, Q, f, Z, nb_samples_p=max(n, m), nb_samples_q=3, std=False, random_state=3), v, 1e-9, "estimate of a deterministic plan")
                    k += 1
            # exact law: the average over seeds of the estimate is the value (bounded deviation, fixed seeds)
            T = np.outer(p, q)
            if n >= m and case["w"] == "uniform":
                es = [gw.GW_distance_estimation(C1, C2, p, q, f, T, nb_samples_p=n, nb_samples_q=20, std=False, random_state=s) for s in range(60)]
                v = np.einsum("ik,jl,ijkl->", T, T, L)
                if abs(np.mean(es) - v) > 0.1 * L.max():
                    raise Fail("estimate:mean", "average estimate %g of %g" % (np.mean(es), v))
                k += 60
    return {"inner": k, "outcome": case["what"]}


def scopes(tier):
    return [
        Scope("unmixing", gen_u, run_u, dev=1, thorough_dev=3, doc="linear unmixing: simplex, couplings, loss, descent, optimal weights"),
        Scope("dictionaries", gen_d, run_d, dev=1, thorough_dev=2, doc="dictionary learning: reachable by the documented updates for some history of batches"),
        Scope("quantized", gen_q, run_q, dev=1, thorough_dev=3, doc="quantized (F)GW: couplings of the samples, values, partitions, seeds"),
        Scope("partitions", gen_p, run_p, doc="all partitions of both graphs: representants, blocks, local optimality"),
        Scope("sampled", gen_s, run_s, doc="pointwise and sampled GW: membership in the reachable plans; estimates"),
    ]
