"""C21: calls are pure: arguments, global state and later calls are not affected; results depend on the arguments only."""
BACKENDS = ("torch",)
OMP = 1
import contextlib
import inspect
import io
import os
import random
import warnings

import numpy as np
import ot
import scipy.special

from mc import calls
from mc.engine import Fail, Scope

from .c14 import backend

ASSUMPTIONS = ("one thread of OpenMP and BLAS",)
TABLE = calls.build()
BK = dict(n="numpy", t="torch")


def data(bk, var=0, **kw):
    nx = backend(bk)

    def cv(z):
        return z.copy() if bk == "numpy" else nx.from_numpy(z.copy())
    return calls.Data(cv, var=var, **kw), nx


def global_state():
    import torch
    st = dict(numpy=tuple(map(lambda q: q.tobytes() if hasattr(q, "tobytes") else q, np.random.get_state())), random=random.getstate(), torch=torch.get_rng_state().numpy().tobytes(),
              errstate=tuple(sorted(np.geterr().items())), dtype=str(torch.get_default_dtype()), grad=torch.is_grad_enabled(), threads=torch.get_num_threads(),
              environ=tuple(sorted(os.environ.items())), cwd=os.getcwd(), filters=tuple(map(str, warnings.filters)), print=str(np.get_printoptions()), err=str(scipy.special.geterr()))
    return st


def defaults():
    """all mutable default arguments of the package, by value"""
    out = {}
    for mod in [m for n, m in list(__import__("sys").modules.items()) if n == "ot" or n.startswith("ot.")]:
        for nm, f in list(vars(mod).items()):
            fs = [(nm, f)] if inspect.isfunction(f) else [("%s.%s" % (nm, k), v) for k, v in vars(f).items() if inspect.isfunction(v)] if inspect.isclass(f) else []
            for k, g in fs:
                if getattr(g, "__module__", "").startswith("ot"):
                    for i, d in enumerate(tuple(g.__defaults__ or ()) + tuple((g.__kwdefaults__ or {}).values())):
                        if isinstance(d, (list, dict, set, np.ndarray)):
                            out[g.__module__, k, i] = repr(d)
            if isinstance(f, (list, dict)) and not nm.startswith("__") and mod.__name__.startswith("ot") and nm not in ("_BACKENDS",):
                out[mod.__name__, nm, "global"] = repr(f)[:2000]
    return out


def same(r, s):
    return [p for p, _ in r] == [p for p, _ in s] and all(x.shape == y.shape and x.dtype == y.dtype and x.tobytes() == y.tobytes() for (_, x), (_, y) in zip(r, s))


def diff(r, s):
    if [p for p, _ in r] != [p for p, _ in s]:
        return "different results"
    for (p, x), (_, y) in zip(r, s):
        if x.shape != y.shape or x.tobytes() != y.tobytes():
            return "%s: %s, then %s" % (p, np.ravel(x)[:4].tolist(), np.ravel(y)[:4].tolist())


def raw(name, d):
    f, _ = TABLE[name]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(d)


def scribble(z, depth=0):
    """overwrite every array of a result, as its owner may do"""
    if isinstance(z, (list, tuple)):
        for q in z:
            scribble(q, depth + 1)
    elif isinstance(z, dict):
        for q in list(z.values()):
            scribble(q, depth + 1)
    elif isinstance(z, np.ndarray) and z.flags.writeable and z.size:
        z[...] = 77
    elif type(z).__name__ == "Tensor" and z.numel() and not z.requires_grad:
        z.fill_(77) if z.layout.__str__() == "torch.strided" else None
    elif type(z).__name__ == "OTResult":
        for k in ("plan", "potentials", "value"):
            try:
                scribble(getattr(z, k), depth + 1)
            except NotImplementedError:
                pass


def gen_pure(ctx):
    name = ctx.choose("fn", list(TABLE))
    ctx.choose("bk", [BK[k] for k in TABLE[name][1]["bk"] if k in BK])
    ctx.choose("what", ["arguments", "global", "repeat", "output", "results", "copies"])


def run_pure(case):
    name, bk, what = case["fn"], case["bk"], case["what"]
    d, nx = data(bk)
    tag = "%s:%s" % (name, bk)
    if what == "arguments":
        calls.execute(name, d, nx)
        for k, (z, orig) in d.given.items():
            if not np.array_equal(np.asarray(nx.to_numpy(z)), orig):
                raise Fail("mutates:" + tag, "%s changes its argument %s (%s): %s -> %s" % (name, k, bk, orig.ravel()[:4].tolist(), np.ravel(nx.to_numpy(z))[:4].tolist()))
    elif what == "global":
        calls.execute(name, d, nx)              # lazy imports and compilations
        d2, _ = data(bk)
        import torch
        np.random.seed(11)
        random.seed(12)
        torch.manual_seed(13)
        s0, m0 = global_state(), defaults()
        calls.execute(name, d2, nx)
        s1, m1 = global_state(), defaults()
        for k in s0:
            if s0[k] != s1[k]:
                raise Fail("global-%s:%s" % (k, tag), "%s changes the global state: %s" % (name, k))
        for k in m0:
            if m0[k] != m1.get(k):
                raise Fail("default:" + tag, "%s changes %s: %s -> %s" % (name, k, m0[k], m1.get(k)))
    elif what == "repeat":
        r = calls.execute(name, d, nx)
        st = np.random.get_state()
        np.random.seed(987)                      # results must not depend on the global generators
        random.seed(987)
        import torch
        ts = torch.get_rng_state()
        torch.manual_seed(987)
        s = calls.execute(name, d, nx)           # same arrays again
        t = calls.execute(name, data(bk)[0], nx)
        np.random.set_state(st)
        torch.set_rng_state(ts)
        for k, z in (("the same arrays", s), ("equal arrays", t)):
            if not same(r, z):
                raise Fail("repeat:" + tag, "%s called again with %s: %s" % (name, k, diff(r, z)))
    elif what == "output":
        out, err = io.StringIO(), io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            calls.execute(name, d, nx)
        if out.getvalue() and name not in ("prw", "wda"):
            raise Fail("prints:" + tag, "%s prints %r without being asked to" % (name, out.getvalue()[:200]))
    elif what == "results":
        r0 = calls.execute(name, data(bk)[0], nx)
        scribble(raw(name, data(bk)[0]))
        r1 = calls.execute(name, data(bk)[0], nx)
        if not same(r0, r1):
            raise Fail("cached:" + tag, "%s depends on what its caller did to an earlier result: %s" % (name, diff(r0, r1)))
    elif name != "sliced":                       # whose log holds the given projections
        z = raw(name, d)
        scribble(z)
        for k, (y, orig) in d.given.items():
            if not np.array_equal(np.asarray(nx.to_numpy(y)), orig):
                raise Fail("alias:" + tag, "the result of %s shares memory with its argument %s" % (name, k))
    return dict(outcome=what)


# ---- histories
BAD = ["emd-sum", "emd-shape", "sinkhorn-method", "sinkhorn-nan", "gw-nan", "partial-m"]


def bad(k):
    """calls that are rejected or fail"""
    d, _ = data("numpy")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            if k == "emd-sum":
                ot.emd(d.a, 2 * d.b, d.M)
            elif k == "emd-shape":
                ot.emd(d.a, d.a, d.M)
            elif k == "sinkhorn-method":
                ot.sinkhorn(d.a, d.b, d.M, 1.0, method="none")
            elif k == "sinkhorn-nan":
                ot.sinkhorn(d.a, d.b, d.M * np.nan, 1.0)
            elif k == "gw-nan":
                ot.gromov.entropic_gromov_wasserstein(d.C1 * np.nan, d.C2, d.a, d.b, epsilon=0.1, max_iter=2)
            else:
                ot.partial.partial_wasserstein(d.a, d.b, d.M, m=3)
        except (ValueError, AssertionError, FloatingPointError, UnboundLocalError):
            pass


_ALONE = {}


def alone(name, bk, var):
    k = name, bk, var
    if k not in _ALONE:
        d, nx = data(bk, var)
        _ALONE[k] = calls.execute(name, d, nx)
    return _ALONE[k]


def gen_pairs(ctx, tier):
    names = [n for n in TABLE if "n" in TABLE[n][1]["bk"] and not TABLE[n][1].get("slow")]
    ctx.choose("first", names + BAD)


SLOW = ("wda", "prw", "ewca")


def run_pairs(case, tier):
    """every call after the given one returns what it returns alone"""
    names = [n for n in TABLE if "n" in TABLE[n][1]["bk"] and n not in SLOW]
    f = case["first"]
    nx = backend("numpy")
    done = 0
    for g in names:
        want = alone(g, "numpy", 0)
        if f in BAD:
            bad(f)
        else:
            calls.execute(f, data("numpy", 1, seed=5)[0], nx)
        got = calls.execute(g, data("numpy", 0)[0], nx)
        done += 1
        if not same(got, want):
            raise Fail("history:%s:%s" % (f, g), "%s after %s: %s" % (g, f, diff(want, got)))
    return dict(inner=done, outcome=f)


def gen_seq(ctx):
    ctx.choose("order", ["forward", "backward"])
    ctx.choose("bk", ["numpy", "torch"])
    ctx.choose("between", ["nothing", "failures"])


def run_seq(case):
    bk = case["bk"]
    names = [n for n in TABLE if bk[0] in TABLE[n][1]["bk"] and n not in SLOW]
    nx = backend(bk)
    if case["order"] == "backward":
        names = names[::-1]
    first = {}
    for var in (0, 1, 0, 1):
        for i, n in enumerate(names):
            if case["between"] == "failures":
                bad(BAD[i % len(BAD)])
            d, _ = data(bk, var)
            r = calls.execute(n, d, nx)
            if (n, var) in first and not same(r, first[n, var]):
                raise Fail("sequence:%s" % n, "%s at the second round: %s" % (n, diff(first[n, var], r)))
            first[n, var] = r
    for n in names:
        if not same(first[n, 0], alone(n, bk, 0)):
            raise Fail("sequence:%s" % n, "%s in a sequence: %s" % (n, diff(alone(n, bk, 0), first[n, 0])))
    return dict(inner=4 * len(names))


def scopes(tier):
    sc = [
        Scope("calls", gen_pure, run_pure, doc="every public call: arguments, global state, output, repetition, aliasing of results and arguments"),
        Scope("sequences", gen_seq, run_seq, doc="the whole table of calls in both orders, twice, with failing calls in between"),
    ]
    if tier == "thorough":
        sc.append(Scope("pairs", lambda c: gen_pairs(c, tier), lambda c: run_pairs(c, tier), doc="all ordered pairs of calls"))
    return sc
