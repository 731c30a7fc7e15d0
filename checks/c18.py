"""C18: every backend computes what the numpy definition says, and every public function gives the same result on it."""
BACKENDS = ("torch", "jax", "tf")
OMP = 1
import re
import itertools
import warnings

import numpy as np
import ot
import ot.backend as B
import scipy.linalg
import scipy.special

from mc import instances as I
from mc.engine import Fail, Scope

from .c14 import backend, num

ASSUMPTIONS = ("CPU only; cupy is not installed",)
NAMES = ["C", "torch", "jax", "tf"]


# ---- inputs
def arrays(kind, shape, s=1):
    k = int(np.prod(shape)) if shape else 1
    z = np.asarray(I.lcg(s + 11, max(k, 1)), float)[:k] * 4 - 2
    if kind == "signed":
        return z.reshape(shape)
    if kind == "pos":
        return (np.abs(z) + 0.1).reshape(shape)
    if kind == "ties":
        return np.round(z).reshape(shape)
    if kind == "unit":
        return (z / 2.01).reshape(shape)
    if kind == "zeros":
        z = z.copy()
        z[::2] = 0
        return z.reshape(shape)
    if kind == "special":
        z = z.copy()
        z[: min(3, k)] = [np.inf, -np.inf, np.nan][: min(3, k)]
        return z.reshape(shape)
    if kind == "neginf":
        z = z.copy()
        z[: (k + 1) // 2] = -np.inf
        return z.reshape(shape)
    if kind == "big":
        return (z * 400).reshape(shape)
    raise KeyError(kind)


def spd(n, s=1, rank=None):
    X = arrays("signed", (n, rank or n + 1), s)
    return X @ X.T


SH = [(4,), (1,), (3, 4), (4, 3), (1, 3), (2, 3, 4)]
ALLK = ("signed", "ties", "zeros")


def table():
    """(name, shapes, kinds, builder of (args, kwargs), numpy reference, tolerance, kind of result)"""
    T = []

    def op(name, call, ref, shapes=SH, kinds=("signed",), prec=True, variants=(None,)):
        T.append((name, call, ref, tuple(shapes), tuple(kinds), prec, tuple(variants)))

    def axes(x):
        return [None] + list(range(-1, x.ndim))
    for name in ("sum", "max", "min"):
        op(name, lambda nx, x, v, name=name: getattr(nx, name)(x, axis=v[0], keepdims=v[1]),
           lambda x, v, name=name: getattr(np, name)(x, axis=v[0], keepdims=v[1]), kinds=ALLK,
           variants=[(a, k) for a in (None, 0, 1, -1) for k in (False, True)])
    op("logsumexp", lambda nx, x, v: nx.logsumexp(x, axis=v[0], keepdims=v[1]),
       lambda x, v: scipy.special.logsumexp(x, axis=v[0], keepdims=v[1]), kinds=ALLK + ("big", "neginf"),
       variants=[(a, k) for a in (None, 0, 1, -1) for k in (False, True)])
    op("norm", lambda nx, x, v: nx.norm(x, axis=v[0], keepdims=v[1]),
       lambda x, v: np.sqrt(np.sum(x ** 2, axis=v[0], keepdims=v[1])), kinds=ALLK, shapes=[(4,), (3, 4), (1, 3)],
       variants=[(a, k) for a in (None, 0, 1, -1) for k in (False, True)])
    for name in ("mean", "std", "median", "argmax", "argmin", "cumsum"):
        op(name, lambda nx, x, v, name=name: getattr(nx, name)(x, axis=v),
           lambda x, v, name=name: getattr(np, name)(x, axis=v), kinds=("signed", "pos"), variants=(None, 0, 1, -1),
           prec=not name.startswith("arg"))
    op("prod", lambda nx, x, v: nx.prod(x, axis=v), lambda x, v: np.prod(x, axis=v), kinds=ALLK, variants=(0, 1, -1))
    for name in ("sign", "abs", "exp", "floor"):
        op(name, lambda nx, x, v, name=name: getattr(nx, name)(x), lambda x, v, name=name: getattr(np, name)(x), kinds=ALLK)
    for name in ("log", "sqrt"):
        op(name, lambda nx, x, v, name=name: getattr(nx, name)(x), lambda x, v, name=name: getattr(np, name)(x), kinds=("pos",))
    op("arccos", lambda nx, x, v: nx.arccos(x), lambda x, v: np.arccos(x), kinds=("unit",))
    for name in ("isnan", "isinf", "isfinite"):
        op(name, lambda nx, x, v, name=name: getattr(nx, name)(x), lambda x, v, name=name: getattr(np, name)(x), kinds=("special", "signed"), prec=False)
    op("any", lambda nx, x, v: nx.any(x > v), lambda x, v: np.any(x > v), prec=False, variants=(0, 10))
    for name in ("maximum", "minimum"):
        op(name, lambda nx, x, v, name=name: getattr(nx, name)(x, v), lambda x, v, name=name: getattr(np, name)(x, v), kinds=ALLK, variants=(0, 0.5), shapes=SH + [()])
        op(name + "2", lambda nx, x, v, name=name: getattr(nx, name)(x, 1 - x), lambda x, v, name=name: getattr(np, name)(x, 1 - x), kinds=ALLK)
        op(name + "r", lambda nx, x, v, name=name: getattr(nx, name)(v, x), lambda x, v, name=name: getattr(np, name)(v, x), kinds=ALLK, variants=(0, 0.5))
    op("power", lambda nx, x, v: nx.power(x, v), lambda x, v: np.power(x, v), kinds=("pos",), variants=(2, 0.5, -1.5))
    op("clip", lambda nx, x, v: nx.clip(x, v[0], v[1]), lambda x, v: np.clip(x, v[0], v[1]), kinds=ALLK, variants=[(0, 1), (None, 0.3), (-0.2, None)])
    op("sort", lambda nx, x, v: nx.sort(x, v), lambda x, v: np.sort(x, v), kinds=ALLK, variants=(-1, 0))
    op("argsort", lambda nx, x, v: nx.argsort(x, v), lambda x, v: np.argsort(x, v), variants=(-1, 0), prec=False)
    op("sort2", lambda nx, x, v: nx.sort2(x, v), lambda x, v: (np.sort(x, v), np.argsort(x, v)), variants=(-1, 0), prec=None)
    op("flip", lambda nx, x, v: nx.flip(x, v), lambda x, v: np.flip(x, v), variants=(None, 0, -1))
    op("searchsorted", lambda nx, x, v: nx.searchsorted(nx.sort(x), nx.sort(x) if v[1] == "same" else nx.sort(x) + 0.3, v[0]),
       lambda x, v: np.array([np.searchsorted(np.sort(r), np.sort(r) + (0 if v[1] == "same" else x.dtype.type(0.3)), v[0]) for r in x.reshape(-1, x.shape[-1])]).reshape(x.shape),
       kinds=ALLK, shapes=[(4,), (1,), (3, 4), (1, 3)], variants=[(s, w) for s in ("left", "right") for w in ("same", "other")], prec=False)
    op("outer", lambda nx, x, v: nx.outer(x, x[:2]), lambda x, v: np.outer(x, x[:2]), shapes=[(4,), (1,)])
    op("dot", lambda nx, x, v: nx.dot(x, x), lambda x, v: x @ x, shapes=[(4,), (1,), (3, 3)])
    op("dot_t", lambda nx, x, v: nx.dot(x, nx.transpose(x)), lambda x, v: x @ x.T, shapes=[(3, 4), (1, 3)])
    op("dot_mv", lambda nx, x, v: nx.dot(x, x[0]), lambda x, v: x @ x[0], shapes=[(3, 4), (1, 3)])
    op("dot_vm", lambda nx, x, v: nx.dot(x[:, 0], x), lambda x, v: x[:, 0] @ x, shapes=[(3, 4), (1, 3)])
    op("matmul", lambda nx, x, v: nx.matmul(x, nx.transpose(x, (0, 2, 1))), lambda x, v: x @ np.swapaxes(x, 1, 2), shapes=[(2, 3, 4), (1, 2, 2)])
    op("transpose", lambda nx, x, v: nx.transpose(x), lambda x, v: np.transpose(x), shapes=SH)
    for sub, shape in (("ij->i", (3, 4)), ("ij,ij->", (3, 4)), ("ij,kj->ik", (3, 4)), ("bij,bij->b", (2, 3, 4)), ("...j->...", (2, 3, 4)), ("i,i->i", (4,))):
        k = sub.split("->")[0].count(",") + 1
        op("einsum", lambda nx, x, v, k=k: nx.einsum(v, *([x] * k)), lambda x, v, k=k: np.einsum(v, *([x] * k)), shapes=[shape], variants=(sub,))
    op("repeat", lambda nx, x, v: nx.repeat(x, v[0], v[1]), lambda x, v: np.repeat(x, v[0], v[1]), variants=[(2, 0), (3, -1), (2, None)])
    op("tile", lambda nx, x, v: nx.tile(x, v), lambda x, v: np.tile(x, v), shapes=[(4,), (3, 4)], variants=[(2, 1), (1, 3), (2, 2)])
    op("take_along_axis", lambda nx, x, v: nx.take_along_axis(x, nx.argsort(x, v), v), lambda x, v: np.take_along_axis(x, np.argsort(x, v), v), variants=(-1, 0))
    op("concatenate", lambda nx, x, v: nx.concatenate((x, 2 * x), v), lambda x, v: np.concatenate((x, 2 * x), v), variants=(0, -1))
    op("stack", lambda nx, x, v: nx.stack((x, 2 * x, x), v), lambda x, v: np.stack((x, 2 * x, x), v), variants=(0, -1, 1))
    op("zero_pad", lambda nx, x, v: nx.zero_pad(x, [(1 + k, 2) for k in range(len(x.shape))], value=v),
       lambda x, v: np.pad(x, [(1 + k, 2) for k in range(x.ndim)], constant_values=v), variants=(0, 1.5))
    op("meshgrid", lambda nx, x, v: nx.meshgrid(x, x[:2]), lambda x, v: np.meshgrid(x, x[:2]), shapes=[(4,), (1,)])
    op("diag", lambda nx, x, v: nx.diag(x, v), lambda x, v: np.diag(x, v), shapes=[(4,), (3, 4), (1, 1)], variants=(0, 1, -1))
    op("unique", lambda nx, x, v: nx.unique(x), lambda x, v: np.unique(x), kinds=ALLK, shapes=[(4,), (3, 4), (1,)])
    op("unique_inv", lambda nx, x, v: nx.unique(x, return_inverse=True), lambda x, v: np.unique(x, return_inverse=True), kinds=ALLK, shapes=[(4,), (1,)], prec=None)
    op("reshape", lambda nx, x, v: nx.reshape(x, (-1, 2)), lambda x, v: x.reshape(-1, 2), shapes=[(4,), (3, 4), (2, 3, 4)])
    op("squeeze", lambda nx, x, v: nx.squeeze(x, axis=v), lambda x, v: np.squeeze(x, axis=v), shapes=[(1, 3), (1, 1, 2)], variants=(None, 0))
    op("unsqueeze", lambda nx, x, v: nx.unsqueeze(x, v), lambda x, v: np.expand_dims(x, v), variants=(0, -1, 1))
    op("where", lambda nx, x, v: nx.where(x > 0, x, 0 * x), lambda x, v: np.where(x > 0, x, 0 * x), kinds=ALLK)
    op("where1", lambda nx, x, v: nx.where(x > 0), lambda x, v: np.where(x > 0), kinds=ALLK, prec=False)
    op("copy", lambda nx, x, v: nx.copy(x), lambda x, v: x.copy())
    op("detach", lambda nx, x, v: nx.detach(x), lambda x, v: x)
    op("nan_to_num", lambda nx, x, v: nx.nan_to_num(x, **v), lambda x, v: np.nan_to_num(x, **v), kinds=("special",), variants=[dict(posinf=3.0, neginf=-4.0), dict(nan=2.0, posinf=1.0, neginf=0.0)])
    op("atan2", lambda nx, x, v: nx.atan2(x, 1 - x), lambda x, v: np.arctan2(x, 1 - x), kinds=ALLK)
    op("kl_div", lambda nx, x, v: nx.kl_div(x, x * x + 0.2, mass=v[0], axis=v[1]),
       lambda x, v: np.sum(scipy.special.rel_entr(x, x * x + 0.2) + (x * x + 0.2 - x if v[0] else 0), axis=v[1]), kinds=("pos",), variants=[(False, None), (True, None), (False, 0), (True, -1)])
    op("eliminate_zeros", lambda nx, x, v: nx.eliminate_zeros(nx.copy(x), threshold=v), lambda x, v: np.where(np.abs(x) > v, x, 0), kinds=ALLK, variants=(0.0, 0.7))
    op("coo", lambda nx, x, v: nx.todense(_coo(nx, x)), lambda x, v: x, shapes=[(3, 4), (1, 3)], kinds=("zeros", "signed"))
    op("coo_elim", lambda nx, x, v: nx.todense(nx.eliminate_zeros(_coo(nx, x), threshold=v)), lambda x, v: np.where(np.abs(x) > v, x, 0), shapes=[(3, 4), (1, 3)], kinds=("zeros", "signed"), variants=(0.0, 0.7))
    op("tocsr", lambda nx, x, v: nx.todense(nx.tocsr(_coo(nx, x))), lambda x, v: x, shapes=[(3, 4)], kinds=("zeros",))
    for name, sh in (("zeros", (3, 2)), ("ones", (3, 2)), ("ones", (4,)), ("zeros", 3)):
        op(name, lambda nx, x, v, name=name: getattr(nx, name)(v, type_as=x), lambda x, v, name=name: getattr(np, name)(v), shapes=[(4,)], variants=(sh,))
    op("full", lambda nx, x, v: nx.full((2, 3), v, type_as=x), lambda x, v: np.full((2, 3), v), shapes=[(4,)], variants=(1.25, 0.0))
    op("eye", lambda nx, x, v: nx.eye(v[0], v[1], type_as=x), lambda x, v: np.eye(*v), shapes=[(4,)], variants=[(3, None), (2, 4), (1, 1)])
    op("linspace", lambda nx, x, v: nx.linspace(*v, type_as=x), lambda x, v: np.linspace(*v), shapes=[(4,)], variants=[(0, 1, 5), (-2, 3, 2), (1, 0, 4)])
    op("arange", lambda nx, x, v: nx.arange(*v, type_as=x), lambda x, v: np.arange(v[1] if len(v) > 1 else 0, v[0], v[2] if len(v) > 2 else 1), shapes=[(4,)], variants=[(5,), (7, 2), (9, 1, 3)], prec=False)
    sq = [(3, 3), (1, 1), (4, 4)]
    op("solve", lambda nx, x, v: nx.solve(_spd(nx, x), x), lambda x, v: np.linalg.solve(_spdn(x), x), shapes=sq)
    op("inv", lambda nx, x, v: nx.inv(_spd(nx, x)), lambda x, v: np.linalg.inv(_spdn(x)), shapes=sq)
    op("pinv", lambda nx, x, v: nx.pinv(x), lambda x, v: np.linalg.pinv(x), shapes=[(3, 4), (3, 3), (1, 3)])
    op("trace", lambda nx, x, v: nx.trace(x), lambda x, v: np.trace(x, axis1=-2, axis2=-1), shapes=sq + [(2, 3, 3)])
    op("det", lambda nx, x, v: nx.det(x), lambda x, v: np.linalg.det(x), shapes=sq + [(2, 3, 3)])
    op("slogdet", lambda nx, x, v: nx.slogdet(x), lambda x, v: np.linalg.slogdet(x), shapes=sq + [(2, 3, 3)])
    op("qr", lambda nx, x, v: _qr(nx, x), lambda x, v: (x, np.zeros((min(x.shape),) * 2)), shapes=[(4, 3), (3, 3), (3, 4), (1, 1)])
    op("eigh", lambda nx, x, v: nx.eigh(_spd(nx, x))[0], lambda x, v: np.linalg.eigvalsh(_spdn(x)), shapes=sq)
    op("sqrtm", lambda nx, x, v: nx.sqrtm(_spd(nx, x)), lambda x, v: np.real(scipy.linalg.sqrtm(_spdn(x))), shapes=sq)
    op("allclose", lambda nx, x, v: nx.allclose(x, x * (1 + v)), lambda x, v: np.allclose(x, x * (1 + v)), variants=(0, 1e-3), prec=False)
    op("array_equal", lambda nx, x, v: nx.array_equal(x, x + v), lambda x, v: np.array_equal(x, x + v), variants=(0, 1), prec=False)
    op("bitsize", lambda nx, x, v: nx.bitsize(x), lambda x, v: x.itemsize * 8, prec=False, shapes=[(4,)])
    op("is_floating_point", lambda nx, x, v: nx.is_floating_point(x), lambda x, v: True, prec=False, shapes=[(4,)])
    return T


def _spd(nx, x):
    return nx.dot(x, nx.transpose(x)) + nx.from_numpy(np.eye(x.shape[0], dtype=str(x.dtype).split('.')[-1].replace("<dtype: '", '').replace("'>", '')))


def _spdn(x):
    return x @ x.T + np.eye(len(x))


def _sqrt_psd(S):
    w, V = np.linalg.eigh(S)
    return (V * np.sqrt(np.maximum(w, 0))) @ V.T


def _qr(nx, x):
    Q, R = nx.qr(x)
    return nx.dot(Q, R), nx.dot(nx.transpose(Q), Q) - nx.eye(Q.shape[1], type_as=x)


def _coo(nx, x):
    z = np.asarray(nx.to_numpy(x))
    r, c = np.nonzero(np.ones_like(z))
    return nx.coo_matrix(nx.reshape(x, (-1,)), nx.from_numpy(r), nx.from_numpy(c), shape=z.shape, type_as=x)


OPS = table()


def gen_ops(ctx):
    ctx.choose("op", list(range(len(OPS))))
    name, call, ref, shapes, kinds, prec, variants = OPS[ctx.case["op"]]
    ctx.case["name"] = name
    ctx.choose("bk", NAMES)
    ctx.choose("shape", list(shapes))
    ctx.dev("dt", ["float64", "float32"])
    ctx.dev("kind", list(kinds))
    ctx.dev("layout", ["C", "strided"] if ctx.case["bk"] in ("C", "torch") else ["C"])


# operations that do not exist for some backends, by their own documentation
ABSENT = set()


def flat(z):
    return list(z) if isinstance(z, (tuple, list)) else [z]


def run_ops(case):
    name, call, ref, shapes, kinds, prec, variants = OPS[case["op"]]
    nx = backend(case["bk"])
    dt = np.dtype(case["dt"])
    done = 0
    for v in variants:
        x = arrays(case["kind"], case["shape"]).astype(dt)
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            try:
                want = ref(x.copy(), v)
            except (ValueError, IndexError):      # not an operation on this shape
                continue
            z = x.copy()
            if case["layout"] == "strided" and x.ndim:
                z = np.repeat(z, 2, axis=-1)
            y = nx.from_numpy(z)
            if case["layout"] == "strided" and x.ndim:
                y = y[..., ::2]
            got = call(nx, y, v)
        if not name.startswith("coo_elim") and not np.array_equal(np.asarray(nx.to_numpy(y)), x, equal_nan=True):
            raise Fail("mutates:%s:%s" % (name, nx), "nx.%s changes its argument" % name)
        got, want = flat(got), flat(want)
        if len(got) != len(want):
            raise Fail("arity:%s:%s" % (name, nx), "%d results instead of %d" % (len(got), len(want)))
        for k, (g, w) in enumerate(zip(got, want)):
            w = np.asarray(w)
            gn = np.asarray(g if isinstance(g, (bool, int, float, np.generic, np.ndarray)) else nx.to_numpy(g))
            tag = "%s:%s" % (name, nx)
            if gn.shape != w.shape:
                raise Fail("shape:" + tag, "nx.%s(%s, %s) has shape %s, numpy's definition %s" % (name, case["shape"], v, gn.shape, w.shape))
            if (prec is True or (prec is None and k == 0)) and not isinstance(g, (bool, int, float)) and gn.dtype != dt:
                raise Fail("dtype:" + tag, "nx.%s of %s is %s" % (name, dt, gn.dtype))
            tol = 1e-10 if dt == np.float64 else 2e-4
            if name.startswith(("sqrtm", "solve", "inv", "pinv", "median")):
                tol = 1e-6 if dt == np.float64 else 3e-3
            if name == "sqrtm_sing":                      # square root of a rounding error
                tol = 1e-6 if dt == np.float64 else 5e-3
            a, b = gn.astype(float), w.astype(float)
            same = np.array_equal(np.isnan(a), np.isnan(b)) and np.allclose(np.nan_to_num(a, nan=0, posinf=1e300, neginf=-1e300), np.nan_to_num(b, nan=0, posinf=1e300, neginf=-1e300), rtol=tol, atol=tol)
            if not same:
                raise Fail("value:" + tag, "nx.%s(%s, %s) = %s instead of %s" % (name, x.tolist(), v, a.tolist(), b.tolist()))
        done += 1
    return dict(inner=done, outcome=name)


# ---- set_gradients, detach: chain rule
def gen_sg(ctx):
    ctx.choose("bk", ["torch", "jax", "tf"])
    ctx.choose("dt", ["float64", "float32"])
    ctx.choose("scale", [1.0, -2.5, 0.0])
    ctx.choose("how", ["const", "linear", "square", "two"])
    ctx.choose("op", ["set", "detach"])
    ctx.dev("n", [3, 1, 5])


def derivs(case, fun, xs):
    """gradients of a scalar function in the given backend"""
    if case["bk"] == "torch":
        import torch
        V = [torch.tensor(x, requires_grad=True) for x in xs]
        out = fun(*V)
        if not out.requires_grad:
            return float(out), [np.zeros_like(x) for x in xs]
        G = torch.autograd.grad(out, V, allow_unused=True)
        return float(out), [np.zeros_like(x) if g is None else g.numpy() for g, x in zip(G, xs)]
    if case["bk"] == "tf":
        import tensorflow as tf
        V = [tf.constant(x) for x in xs]
        with tf.GradientTape() as t:
            t.watch(V)
            out = fun(*V)
        G = t.gradient(out, V)
        return float(out), [np.zeros_like(x) if g is None else g.numpy() for g, x in zip(G, xs)]
    import jax
    import jax.numpy as jnp
    V = [jnp.asarray(x) for x in xs]
    out, G = jax.value_and_grad(fun, argnums=tuple(range(len(xs))))(*V)
    return float(out), [np.asarray(g) for g in G]


def run_sg(case):
    nx = backend(case["bk"])
    dt = np.dtype(case["dt"])
    n = case["n"]
    x, y = arrays("signed", (n,), 1).astype(dt), arrays("signed", (2, n), 5).astype(dt)
    gx, gy = arrays("signed", (n,), 7).astype(dt), arrays("signed", (2, n), 9).astype(dt)
    s = dt.type(case["scale"])

    def given(a, b):
        if case["how"] == "const":
            return nx.from_numpy(gx), nx.from_numpy(gy)
        if case["how"] == "linear":
            return 2 * a, -b
        if case["how"] == "square":
            return a ** 2 + nx.from_numpy(gx), nx.from_numpy(gy)
        return nx.from_numpy(gx) * 2, nx.from_numpy(gy)

    def fun(a, b):
        val = nx.sum(a ** 4)
        if case["op"] == "detach":
            return s * nx.sum(nx.detach(a) * a) + nx.sum(nx.detach(b) ** 2)
        out = nx.set_gradients(val, (a, b), given(a, b))
        if case["how"] == "two":
            out = out + nx.sum(a)
        return s * out
    val, G = derivs(case, fun, [x, y])
    if case["op"] == "detach":
        want, W = float(s * (x @ x) + (y ** 2).sum()), [s * x, 0 * y]
    else:
        want = float(s * ((x ** 4).sum() + (x.sum() if case["how"] == "two" else 0)))
        W = {"const": [gx, gy], "linear": [2 * x, -y], "square": [x ** 2 + gx, gy], "two": [2 * gx + 1, gy]}[case["how"]]
        W = [s * w for w in W]
    tol = 1e-10 if dt == np.float64 else 1e-4
    tag = "%s:%s" % (case["op"], nx)
    if not abs(val - want) <= tol * (1 + abs(want)):
        raise Fail("value:" + tag, "value %r instead of %r" % (val, want))
    for g, w in zip(G, W):
        if g.shape != w.shape or not np.abs(g - w).max() <= tol * (1 + np.abs(w).max()):
            raise Fail("gradient:" + tag, "gradient of %g times the value is %s instead of %s (%s)" % (case["scale"], g.tolist(), w.tolist(), case["how"]))
    return dict(outcome=tag)


# ---- derivatives of differentiable operations
SMOOTH = ["sum", "max", "min", "logsumexp", "norm", "mean", "std", "cumsum", "prod", "abs", "exp", "log", "sqrt", "arccos", "maximum", "minimum", "power", "clip", "sort",
          "dot", "dot_mv", "dot_vm", "matmul", "einsum", "repeat", "tile", "concatenate", "stack", "zero_pad", "diag", "reshape", "where", "kl_div", "solve", "inv", "trace",
          "det", "sqrtm", "outer", "flip", "transpose", "squeeze", "unsqueeze", "atan2", "copy", "take_along_axis"]


def gen_d(ctx):
    ctx.choose("op", [k for k, o in enumerate(OPS) if o[0] in SMOOTH])
    name, call, ref, shapes, kinds, prec, variants = OPS[ctx.case["op"]]
    ctx.case["name"] = name
    ctx.choose("bk", ["torch", "jax", "tf"])
    ctx.choose("shape", [s for s in shapes if s][:3])
    ctx.choose("v", list(range(len(variants)))[:4])


def run_d(case):
    name, call, ref, shapes, kinds, prec, variants = OPS[case["op"]]
    v = variants[case["v"]]
    nx = backend(case["bk"])
    x = arrays(kinds[0], case["shape"]) + 0.01
    if name == "std" and 1 in case["shape"]:      # not differentiable
        return "skip"
    try:
        w = np.asarray(ref(x.copy(), v), float)
    except (ValueError, IndexError):
        return "skip"
    c = np.asarray(I.lcg(77, max(w.size, 1)))[:w.size].reshape(w.shape)
    f = lambda z: float((np.asarray(ref(z, v), float) * c).sum())
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        _, (G,) = derivs(case, lambda a: nx.sum(call(nx, a, v) * nx.from_numpy(c)), [x])
    h = 1e-6
    D = np.zeros_like(x)
    for i in np.ndindex(*x.shape):
        e = np.zeros_like(x)
        e[i] = h
        D[i] = (f(x + e) - f(x - e)) / (2 * h)
    if not np.abs(G - D).max() <= 1e-4 * (1 + np.abs(D).max()):
        raise Fail("derivative:%s:%s" % (name, nx), "derivative of nx.%s(%s) is %s, finite differences %s" % (name, v, G.tolist(), D.tolist()))
    return dict(outcome=name)


# ---- choice of the backend
KINDS = ["np", "np32", "list", "float", "None", "torch", "torch32", "jax", "tf", "npfloat"]


def obj(k):
    x = np.arange(3.0)
    return {"np": lambda: x, "np32": lambda: x.astype(np.float32), "list": lambda: [1.0, 2.0], "float": lambda: 1.5, "None": lambda: None, "npfloat": lambda: np.float64(2),
            "torch": lambda: backend("torch").from_numpy(x), "torch32": lambda: backend("torch").from_numpy(x.astype(np.float32)),
            "jax": lambda: backend("jax").from_numpy(x), "tf": lambda: backend("tf").from_numpy(x)}[k]()


def gen_r(ctx):
    ctx.choose("k", [1, 2, 3])
    for i in range(ctx.case["k"]):
        ctx.choose("a%d" % i, KINDS)


def run_r(case):
    ks = [case["a%d" % i] for i in range(case["k"])]
    fam = {"np": "numpy", "np32": "numpy", "torch": "torch", "torch32": "torch", "jax": "jax", "tf": "tf"}
    live = [k for k in ks if k != "None"]
    fams = {fam.get(k) for k in live}
    want = fams.pop() if len(fams) == 1 else None
    try:
        got = str(B.get_backend(*[obj(k) for k in ks]))
    except ValueError:
        got = None
    if got != want:
        raise Fail("get_backend", "get_backend%s is %s instead of %s" % (tuple(ks), got, want))
    if want and B.get_backend(*[obj(k) for k in ks]) is not B.get_backend(*[obj(k) for k in ks]):
        raise Fail("instance", "get_backend does not return a single instance")
    if want and "None" not in ks:
        z = ot.utils.list_to_array(*[obj(k) for k in ks]) if False else B.to_numpy(*[obj(k) for k in ks])
        for k, q in zip(ks, z if len(ks) > 1 else [z]):
            if not isinstance(q, np.ndarray) or not np.array_equal(q, np.arange(3.0)) or q.dtype != (np.float32 if k.endswith("32") else np.float64):
                raise Fail("to_numpy", "to_numpy(%s) is %r" % (k, q))
    return dict(outcome=str(want))


# ---- random numbers
def gen_rand(ctx):
    ctx.choose("bk", NAMES)
    ctx.choose("ops", [s for k in (1, 2, 3) for s in itertools.product(("rand", "randn", "randperm"), repeat=k)])
    ctx.choose("seed", [0, 42])
    ctx.choose("dt", [None, "float64", "float32"])


def run_rand(case):
    nx = backend(case["bk"])
    ta = None if case["dt"] is None else nx.from_numpy(np.zeros(1, case["dt"]))
    st = np.random.get_state()[1].copy()

    def play():
        out = []
        for o in case["ops"]:
            z = nx.randperm(6) if o == "randperm" else getattr(nx, o)(3, 2, type_as=ta)
            zn = np.asarray(nx.to_numpy(z))
            if o == "randperm" and sorted(zn.tolist()) != list(range(6)):
                raise Fail("randperm:%s" % nx, "not a permutation: %s" % zn)
            if o != "randperm":
                if zn.shape != (3, 2) or not np.isfinite(zn).all() or (o == "rand" and not ((zn >= 0) & (zn < 1)).all()):
                    raise Fail("rand:%s" % nx, "%s gives %s" % (o, zn))
                if case["dt"] and case["bk"] != "C" and zn.dtype != np.dtype(case["dt"]):
                    raise Fail("randtype:%s" % nx, "%s with type_as %s gives %s" % (o, case["dt"], zn.dtype))
            out.append(zn)
        return out
    nx.seed(case["seed"])
    A = play()
    B2 = play()
    nx.seed(case["seed"])
    C = play()
    if not all(np.array_equal(p, q) for p, q in zip(A, C)):
        raise Fail("seed:%s" % nx, "the same seed gives other numbers")
    if case["ops"] != ("randperm",) and all(np.array_equal(p, q) for p, q in zip(A, B2)):
        raise Fail("stuck:%s" % nx, "successive draws repeat themselves")
    if not np.array_equal(st, np.random.get_state()[1]):
        raise Fail("global:%s" % nx, "numpy's global generator was used")
    nx.seed(None)
    return dict(states=len(case["ops"]) * 3, outcome=str(nx))


# ---- disabled backends
def gen_env(ctx):
    for k in ("PYTORCH", "JAX", "TENSORFLOW"):
        ctx.choose(k, [False, True])


def run_env(case):
    import os
    import subprocess
    import sys
    env = dict(os.environ, TF_CPP_MIN_LOG_LEVEL="3", CUDA_VISIBLE_DEVICES="")
    for k in list(env):
        if k.startswith("POT_BACKEND_DISABLE"):
            del env[k]
    on = {"numpy"}
    for k, nm in (("PYTORCH", "torch"), ("JAX", "jax"), ("TENSORFLOW", "tf")):
        if case[k]:
            env["POT_BACKEND_DISABLE_" + k] = "1"
        else:
            on.add(nm)
    bl = ",".join(m for k, m in (("PYTORCH", "torch"), ("JAX", "jax"), ("TENSORFLOW", "tensorflow")) if not case[k])
    code = ("import sys, warnings; warnings.simplefilter('ignore')\n"
            "from mc import potload\n"
            "potload.load(backends=tuple(%r), omp=1)\n"
            "import ot, numpy as np\n"
            "print('BACKENDS', sorted(b.__name__ for b in ot.backend.get_available_backend_implementations()), float(ot.emd2([.5,.5],[.5,.5],np.eye(2))))\n"
            % [b for b, nm in (("torch", "torch"), ("jax", "jax"), ("tf", "tf")) if nm in on])
    r = subprocess.run([sys.executable, "-c", code], env=env, capture_output=True, text=True, timeout=300, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    line = [l for l in r.stdout.splitlines() if l.startswith("BACKENDS")]
    names = dict(numpy='NumpyBackend', torch='TorchBackend', jax='JaxBackend', tf='TensorflowBackend')
    want = "BACKENDS %s 0.0" % sorted(names[k] for k in on)
    if not line or line[0] != want:
        raise Fail("disabled", "with %s disabled: %s, expected %s\n%s" % (sorted({"torch", "jax", "tf"} - on), line, want, r.stderr[-400:]))
    return dict(outcome=str(sorted(on)))


# ---- public functions: same result with every backend, precision and memory layout
def gen_fn(ctx, tier):
    from mc import calls
    table = calls.CALLS or calls.build()
    name = ctx.choose("fn", list(table))
    bks = [b for b in ("numpy", "torch", "jax", "tf") if dict(numpy="n", torch="t", jax="j", tf="f")[b] in table[name][1]["bk"]]
    bk = ctx.choose("bk", bks)
    kinds = ["contiguous", "strided"] if bk in ("numpy", "torch") else ["contiguous"]
    if bk in ("numpy", "torch") or tier == "thorough":
        kinds.append("float32")
    if bk == "numpy":
        kinds.remove("contiguous")
    if not kinds:
        ctx.prune()
    ctx.choose("kind", kinds)
    ctx.choose("var", [0] if tier == "quick" else [0, 1, 2])


_REFS = {}
TRACE = re.compile(r"\.(err|loss|errors?|G|cost|n_?iter|it|cpt)\w*\[|n_?iter")     # histories of iterations
# functions that compute in double precision (numpy/scipy internals) whatever the precision of the data
FLOAT64 = set("""averaged_sgd cg da:L1L2 da:Laplace da:Mapping dist0 dist:canberra dist:chebyshev emd_laplace ewca fda fgw_unmixing fugw gcg
gmm_density gmm_map gmm_map_rand gmm_pdf gw_unmixing l1l2 lowrank lowrank_kmeans lowrank_random lowrank_gw lp.barycenter mapping_kernel mapping_linear partial_1d proj_simplex
projections prw regpath regpath_semi sag sampled_gw sgd_dual sinkhorn:sinkhorn_epsilon_scaling smooth_semi:kl smooth_semi:l2
smooth_semi:sparsity_constrained solve_sample:lowrank sparse_simplex wda""".split())
FLOAT64T = {"projections", "partial_1d", "gw_unmixing", "fgw_unmixing"}


def strided(z):
    """the same array on memory that is neither C nor Fortran contiguous"""
    if z.ndim == 0 or z.size < 2:
        return z
    big = np.full(tuple(2 * k for k in z.shape), 7, dtype=z.dtype)
    view = big.T[tuple(slice(None, None, 2) for _ in z.shape)].T
    view[...] = z
    return view


def run_fn(case):
    from mc import calls
    table = calls.CALLS or calls.build()
    name, o = case["fn"], table[case["fn"]][1]
    key = name, case["var"]
    if key not in _REFS:
        if "n" in o["bk"]:
            _REFS[key] = calls.execute(name, calls.Data(var=case["var"]), backend("numpy"))
        else:
            tx = backend("torch")
            _REFS[key] = calls.execute(name, calls.Data(tx.from_numpy, var=case["var"]), tx)
    ref = _REFS[key]
    nx = backend(case["bk"])
    dt = np.float32 if case["kind"] == "float32" else np.float64

    def cv(z):
        if z.dtype.kind == "f":
            z = z.astype(dt)
        if case["kind"] == "strided":
            if case["bk"] == "numpy":
                return strided(z)
            import torch
            return torch.from_numpy(strided(z))
        return nx.from_numpy(z)
    try:
        got = calls.execute(name, calls.Data(cv, var=case["var"]), nx)
    except Fail:
        raise
    except Exception as e:
        raise Fail("fn-error:%s:%s:%s" % (name, nx, case["kind"]), "%s with the %s backend (%s data): %s: %s; the numpy backend accepts it" % (name, case["bk"], case["kind"], type(e).__name__, str(e)[:200]))
    tag = "%s:%s:%s" % (name, nx, case["kind"])
    got, ref = [[(p, x) for p, x in r if not TRACE.search(p)] for r in (got, ref)]
    if [p for p, _ in got] != [p for p, _ in ref]:
        raise Fail("fn-paths:" + tag, "%s returns %s with %s, %s with numpy" % (name, [p for p, _ in got], case["bk"], [p for p, _ in ref]))
    tol = o.get("tol", 1e-6) if dt is np.float64 else max(2e-2, o.get("tol", 0))
    for (p, x), (_, y) in zip(ref, got):
        if x.shape != y.shape:
            if o.get("rnd"):
                continue
            raise Fail("fn-shape:" + tag, "%s%s has shape %s with %s, %s with numpy" % (name, p, y.shape, case["bk"], x.shape))
        if x.dtype.kind == "f" and y.dtype.kind == "f" and y.ndim and y.dtype != dt and name not in (FLOAT64 if case["bk"] == "numpy" else FLOAT64T) and not p.startswith("[1]."):
            raise Fail("fn-dtype:" + tag, "%s%s is %s for %s data" % (name, p, y.dtype, np.dtype(dt)))
        if x.dtype.kind not in "fiub" or o.get("rnd"):
            continue
        if dt is np.float32 and (o.get("f32") is False or "[1]." in p):
            continue
        if not np.allclose(x.astype(float), y.astype(float), rtol=tol, atol=tol, equal_nan=True):
            raise Fail("fn-value:" + tag, "%s%s differs by %g between numpy and %s (%s)" % (name, p, np.abs(x.astype(float) - y).max(), case["bk"], case["kind"]))
    return dict(inner=len(got), outcome=name)


def scopes(tier):
    return [
        Scope("operations", gen_ops, run_ops, dev=1, thorough_dev=2, doc="every backend operation x shapes x axes x values x precision x memory layout against its numpy definition"),
        Scope("derivatives", gen_d, run_d, doc="automatic derivatives of every differentiable backend operation against finite differences"),
        Scope("set_gradients", gen_sg, run_sg, dev=1, thorough_dev=1, doc="given gradients obey the chain rule"),
        Scope("resolution", gen_r, run_r, doc="all tuples of up to three argument kinds: one backend or ValueError"),
        Scope("random", gen_rand, run_rand, doc="all sequences of up to three draws, replayed from a seed"),
        Scope("functions", lambda ctx: gen_fn(ctx, tier), run_fn, doc="every public function of the table: same result with every backend, precision and memory layout"),
        Scope("disabled", gen_env, run_env, doc="all combinations of disabled backends, in fresh processes"),
    ]
