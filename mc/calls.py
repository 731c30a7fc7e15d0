"""Table of calls of the public functions, on deterministic data: shared by the checks of backends,
argument purity, history independence and thread schedules.

CALLS[name] = (function of a Data object, options)
options: bk   backends the function supports ("all", or a string of letters n(umpy) t(orch) j(ax) f(tf))
         rnd  the result depends on random numbers drawn from the given seed (backend specific)
         tol  tolerance of the comparison between backends
         slow more than 0.2 s
"""
import warnings

import numpy as np

from . import instances as I


def structure(n, s):
    x = I.points("lcg", n, 2, s)
    return np.sqrt(((x[:, None] - x[None]) ** 2).sum(-1))


class Data:
    """Named deterministic arrays; every array handed out is recorded."""

    def __init__(self, cv=None, seed=3, size=(5, 6), var=0):
        self.cv = cv or (lambda z: z)
        self.seed, self.size, self.var = seed, size, var
        self.given = {}

    def raw(self, name):
        n, m = self.size
        v = 20 * self.var
        f = dict(
            a=lambda: I.weights("lcg", n, 1 + v), b=lambda: I.weights("lcg", m, 2 + v),
            ua=lambda: np.ones(n) / n, ub=lambda: np.ones(m) / m,
            a2=lambda: 1.7 * I.weights("lcg", n, 5 + v), b2=lambda: 0.6 * I.weights("lcg", m, 6 + v),
            M=lambda: I.cost("lcg", n, m, 3 + v), M2=lambda: I.cost("lcg", n, m, 8 + v),
            Mn=lambda: ((np.arange(n)[:, None] - np.arange(n)[None]) / n) ** 2,
            xs=lambda: I.points("lcg", n, 2, 1 + v), xt=lambda: I.points("lcg", m, 2, 4 + v) + 0.3,
            xn=lambda: I.points("lcg", n, 2, 7 + v) + 0.2, x3=lambda: I.points("lcg", n, 3, 8 + v),
            u=lambda: I.points("lcg", n, 1, 1 + v)[:, 0], w=lambda: I.points("lcg", m, 1, 4 + v)[:, 0],
            C1=lambda: structure(n, 1 + v), C2=lambda: structure(m, 5 + v), C3=lambda: structure(4, 9 + v),
            A=lambda: np.stack([I.weights("lcg", n, 1 + v), I.weights("lcg", n, 4 + v), I.weights("spiky", n, 3)], 1),
            im=lambda: np.stack([I.weights("lcg", 16, s + v).reshape(4, 4) for s in (1, 5)]),
            lam=lambda: np.array([0.5, 0.2, 0.3]), lam2=lambda: np.array([0.3, 0.7]),
            ys=lambda: np.arange(n) % 2, yt=lambda: np.arange(m) % 2,
            ysf=lambda: (np.arange(n) % 2).astype(float),
            sph=lambda: (lambda z: z / np.linalg.norm(z, axis=1, keepdims=True))(I.points("lcg", n, 3, 2 + v) - 0.45),
            sph2=lambda: (lambda z: z / np.linalg.norm(z, axis=1, keepdims=True))(I.points("lcg", m, 3, 5 + v) - 0.55),
            P=lambda: (lambda z: z / np.linalg.norm(z, axis=0, keepdims=True))(I.points("lcg", 7, 2, 11).T - 0.5),
            ms=lambda: I.points("lcg", 3, 2, 2 + v), mt=lambda: I.points("lcg", 4, 2, 3 + v),
            Cs=lambda: np.stack([spd(2, s + v) for s in (1, 2, 3)]), Ct=lambda: np.stack([spd(2, s + v) for s in (4, 5, 6, 7)]),
            w3=lambda: I.weights("lcg", 3, 4), w4=lambda: I.weights("lcg", 4, 5),
            F1=lambda: I.points("lcg", n, 3, 21 + v), F2=lambda: I.points("lcg", m, 3, 22 + v),
            X43=lambda: I.points("lcg", n, 4, 31 + v), X53=lambda: I.points("lcg", m, 3, 33 + v),
            T=lambda: np.outer(I.weights("lcg", n, 1 + v), I.weights("lcg", m, 2 + v)),
            al=lambda: 0.2 * I.points("lcg", n, 1, 9)[:, 0], be=lambda: 0.2 * I.points("lcg", m, 1, 10)[:, 0],
            Mb=lambda: np.stack([I.cost("lcg", n, m, 3 + s + v) for s in range(2)]),
            ab=lambda: np.stack([I.weights("lcg", n, 1 + s + v) for s in range(2)]), bb=lambda: np.stack([I.weights("lcg", m, 2 + s + v) for s in range(2)]),
            Xb=lambda: np.stack([I.points("lcg", n, 2, 1 + s) for s in range(2)]), Yb=lambda: np.stack([I.points("lcg", m, 2, 4 + s) for s in range(2)]),
            C1b=lambda: np.stack([structure(n, 1 + s) for s in range(2)]), C2b=lambda: np.stack([structure(m, 5 + s) for s in range(2)]),
            Cdict=lambda: np.stack([structure(4, 3 + s) for s in range(2)]), Ydict=lambda: np.stack([I.points("lcg", 4, 3, 3 + s) for s in range(2)]),
        )[name]
        return f()

    def __getattr__(self, name):
        if name.startswith("_") or name in ("cv", "seed", "size", "var", "given"):
            raise AttributeError(name)
        if name not in self.given:
            z = np.asarray(self.raw(name))
            self.given[name] = (self.cv(z if z.dtype.kind == "f" else z), z.copy())
        return self.given[name][0]


def spd(n, s):
    X = I.points("lcg", n + 2, n, s) - 0.4
    return X.T @ X + 0.1 * np.eye(n)


CALLS = {}


def call(name, bk="all", **opts):
    def deco(f):
        CALLS[name] = (f, dict(opts, bk="ntjf" if bk == "all" else bk))
        return f
    return deco


def flatten(z, nx, path=""):
    """all arrays and numbers of a result, as (path, numpy array)"""
    out = []
    if z is None or isinstance(z, (str, bytes)) or callable(z) and not hasattr(z, "shape"):
        return out
    if isinstance(z, dict):
        for k in sorted(z, key=str):
            if k not in ("verbose", "warning", "computing_time", "time", "backend"):
                out += flatten(z[k], nx, "%s.%s" % (path, k))
        return out
    if isinstance(z, (list, tuple)):
        for k, q in enumerate(z):
            out += flatten(q, nx, "%s[%d]" % (path, k))
        return out
    if isinstance(z, (bool, int, float, np.generic, np.ndarray)):
        return [(path, np.asarray(z))]
    if type(z).__name__ == "LazyTensor":
        return flatten(z[:], nx, path + "[:]")
    if type(z).__name__ == "OTResult":
        for k in ("value", "value_linear", "value_quad", "plan", "lazy_plan", "potentials", "a_to_b", "b_to_a"):
            try:
                q = getattr(z, k)
            except NotImplementedError:
                continue
            out += flatten(q, nx, "%s.%s" % (path, k))
        return out
    if hasattr(z, "toarray"):
        return [(path, np.asarray(z.toarray()))]
    if nx is not None and nx.issparse(z):
        return [(path, np.asarray(nx.to_numpy(nx.todense(z))))]
    return [(path, np.asarray(nx.to_numpy(nx.detach(z))))]


def build():
    import ot
    import ot.batch
    import ot.coot
    import ot.gromov as G
    import ot.gmm
    import ot.lowrank
    import ot.sgot
    import ot.partial
    import ot.regpath
    import ot.dr
    from ot.lp import dmmot_monge_1dgrid_loss
    R = 0.6

    def simple(name, f, **kw):
        call(name, **kw)(f)
    # --- exact
    simple("emd", lambda d: ot.emd(d.a, d.b, d.M, log=True))
    simple("emd_unif", lambda d: ot.emd(d.ua, d.ub, d.M))
    simple("emd2", lambda d: ot.emd2(d.a, d.b, d.M, log=True, return_matrix=True))
    simple("emd2_multi", lambda d: ot.emd2(d.a, d.A, d.Mn))
    simple("emd2_lazy", lambda d: ot.lp.emd2_lazy(d.xs, d.xt, d.a, d.b, log=True))
    simple("emd_1d", lambda d: ot.emd_1d(d.u, d.w, d.a, d.b, log=True))
    simple("emd2_1d", lambda d: ot.emd2_1d(d.u, d.w, d.a, d.b))
    simple("wasserstein_1d", lambda d: ot.wasserstein_1d(d.u, d.w, d.a, d.b, p=2))
    simple("wasserstein_1d_multi", lambda d: ot.wasserstein_1d(d.xs, d.xn, p=1))
    simple("binary_search_circle", lambda d: ot.binary_search_circle(d.u, d.w, d.a, d.b, p=2), bk="nt")
    simple("wasserstein_circle", lambda d: ot.wasserstein_circle(d.u, d.w, d.a, d.b, p=1), bk="nt")
    simple("semidiscrete_circle", lambda d: ot.semidiscrete_wasserstein2_unif_circle(d.u, d.a))
    simple("linear_circular_ot", lambda d: ot.lp.linear_circular_ot(d.u, d.w, d.a, d.b), bk="ntf")
    simple("lp.barycenter", lambda d: ot.lp.barycenter(d.A, d.Mn, d.lam), bk="n")
    simple("free_support_barycenter", lambda d: ot.lp.free_support_barycenter([d.xs, d.xt], [d.a, d.b], d.xn, weights=d.lam2, numItermax=3))
    simple("free_support_generic", lambda d: ot.lp.free_support_barycenter_generic_costs([d.xs, d.xt], [d.a, d.b], d.xn, [lambda x, y: ot.dist(x, y)] * 2, numItermax=2, ground_bary=lambda y: (y[0] + y[1]) / 2), bk="nt")
    simple("dmmot_loss", lambda d: dmmot_monge_1dgrid_loss(d.A))
    # --- entropic
    for m in ("sinkhorn", "sinkhorn_log", "sinkhorn_stabilized", "sinkhorn_epsilon_scaling", "greenkhorn"):
        simple("sinkhorn:" + m, lambda d, m=m: ot.sinkhorn(d.a, d.b, d.M, R, method=m, log=True, **({"numItermax": 300} if m != "greenkhorn" else {})), tol=1e-5, bk="all" if m != "greenkhorn" else "nt")
        if m in ("sinkhorn", "sinkhorn_log", "sinkhorn_stabilized"):
            simple("sinkhorn2:" + m, lambda d, m=m: ot.sinkhorn2(d.a, d.b, d.M, R, method=m), tol=1e-5)
    simple("sinkhorn2_multi", lambda d: ot.sinkhorn2(d.a, d.A, d.Mn, R))
    simple("empirical_sinkhorn", lambda d: ot.bregman.empirical_sinkhorn(d.xs, d.xt, R, d.a, d.b))
    simple("empirical_sinkhorn_lazy", lambda d: ot.bregman.empirical_sinkhorn2(d.xs, d.xt, R, d.a, d.b, isLazy=True, batchSize=2))
    simple("empirical_sinkhorn_divergence", lambda d: ot.bregman.empirical_sinkhorn_divergence(d.xs, d.xt, R, d.a, d.b))
    simple("nystroem", lambda d: ot.bregman.empirical_sinkhorn_nystroem2(d.xs, d.xt, 2.0, anchors=4, a=d.a, b=d.b, random_state=d.seed, warn=False), rnd=True)
    simple("screenkhorn", lambda d: ot.bregman.screenkhorn(d.a, d.b, d.M, R, ns_budget=4, nt_budget=4, restricted=False), bk="n")
    for m in ("sinkhorn", "sinkhorn_log", "sinkhorn_stabilized"):
        simple("barycenter:" + m, lambda d, m=m: ot.barycenter(d.A, d.Mn, 0.1, d.lam, method=m), bk="nt" if m == "sinkhorn_log" else "all")
    simple("barycenter_debiased", lambda d: ot.bregman.barycenter_debiased(d.A, d.Mn, 0.1, d.lam))
    simple("barycenter_debiased_log", lambda d: ot.bregman.barycenter_debiased(d.A, d.Mn, 0.1, d.lam, method="sinkhorn_log"), bk="nt")
    simple("conv", lambda d: ot.bregman.convolutional_barycenter2d(d.im, 0.05, d.lam2))
    simple("conv_log", lambda d: ot.bregman.convolutional_barycenter2d(d.im, 0.05, d.lam2, method="sinkhorn_log"), bk="nt")
    simple("conv_debiased", lambda d: ot.bregman.convolutional_barycenter2d_debiased(d.im, 0.05, d.lam2))
    simple("unmix", lambda d: ot.bregman.unmix(d.a, d.A, d.Mn, np_like(d, np.ones((3, 3)) - np.eye(3)), d.lam, 0.3, 0.3, 0.2))
    simple("jcpot", lambda d: ot.bregman.jcpot_barycenter([d.xs, d.xn], [d.ys, d.ys], d.xt, 0.5)[0])
    simple("free_support_sinkhorn", lambda d: ot.bregman.free_support_sinkhorn_barycenter([d.xs, d.xt], [d.a, d.b], d.xn, 0.5, weights=d.lam2, numItermax=3))
    # --- unbalanced, partial
    for m in ("sinkhorn", "sinkhorn_stabilized", "sinkhorn_translation_invariant"):
        simple("unbalanced:" + m, lambda d, m=m: ot.sinkhorn_unbalanced(d.a2, d.b2, d.M, R, 1.3, method=m, log=True), tol=1e-5)
    simple("unbalanced2", lambda d: ot.sinkhorn_unbalanced2(d.a2, d.b2, d.M, R, (1.3, 0.4)))
    simple("barycenter_unbalanced", lambda d: ot.barycenter_unbalanced(d.A, d.Mn, 0.2, 1.0, weights=d.lam))
    simple("barycenter_unbalanced_stab", lambda d: ot.barycenter_unbalanced(d.A, d.Mn, 0.2, 1.0, method="sinkhorn_stabilized", weights=d.lam))
    for div in ("kl", "l2"):
        simple("mm_unbalanced:" + div, lambda d, div=div: ot.unbalanced.mm_unbalanced(d.a2, d.b2, d.M, 1.1, div=div, log=True))
    simple("lbfgsb_unbalanced", lambda d: ot.unbalanced.lbfgsb_unbalanced(d.a2, d.b2, d.M, R, 1.1), tol=1e-4)
    simple("uot_1d", lambda d: ot.uot_1d(d.u, d.w, 1.1, d.a2, d.b2, p=2), bk="tj")
    simple("sliced_uot", lambda d: ot.unbalanced.sliced_unbalanced_ot(d.xs, d.xt, 1.1, d.a2, d.b2, projections=d.P), bk="tj")
    simple("unbalanced_sliced", lambda d: ot.unbalanced.unbalanced_sliced_ot(d.xs, d.xt, 1.1, d.a2, d.b2, projections=d.P), bk="tj")
    simple("partial", lambda d: ot.partial.partial_wasserstein(d.a, d.b, d.M, 0.55, log=True))
    simple("partial2", lambda d: ot.partial.partial_wasserstein2(d.a, d.b, d.M, 0.55))
    simple("partial_lagrange", lambda d: ot.partial.partial_wasserstein_lagrange(d.a, d.b, d.M, 0.3))
    simple("partial_entropic", lambda d: ot.partial.entropic_partial_wasserstein(d.a, d.b, d.M, R, 0.55, numItermax=60))
    simple("partial_entropic_log", lambda d: ot.partial.entropic_partial_wasserstein_logscale(d.a, d.b, d.M, R, 0.55, numItermax=60))
    simple("partial_1d", lambda d: ot.partial.partial_wasserstein_1d(d.u, d.w, 3))
    # --- sliced
    simple("sliced", lambda d: ot.sliced_wasserstein_distance(d.xs, d.xt, d.a, d.b, projections=d.P, log=True))
    simple("sliced_seed", lambda d: ot.sliced_wasserstein_distance(d.xs, d.xt, d.a, d.b, n_projections=5, seed=d.seed), rnd=True)
    simple("max_sliced", lambda d: ot.max_sliced_wasserstein_distance(d.xs, d.xt, d.a, d.b, projections=d.P))
    simple("sliced_sphere", lambda d: ot.sliced_wasserstein_sphere(d.sph, d.sph2, d.a, d.b, n_projections=4, seed=d.seed), rnd=True, bk="nt")
    simple("sliced_sphere_unif", lambda d: ot.sliced_wasserstein_sphere_unif(d.sph, d.a, n_projections=4, seed=d.seed), rnd=True)
    simple("linear_sphere", lambda d: ot.sliced.linear_sliced_wasserstein_sphere(d.sph, d.sph2, d.a, d.b, n_projections=4, seed=d.seed), rnd=True, bk="ntf")
    simple("min_sliced_plan", lambda d: ot.sliced.min_sliced_transport_plan(d.xs, d.xn, projections=d.P), bk="ntj")
    simple("expected_sliced_plan", lambda d: ot.sliced.expected_sliced_plan(d.xs, d.xn, projections=d.P, beta=1.0), bk="ntj")
    simple("sliced_plans", lambda d: ot.sliced.sliced_plans(d.xs, d.xn, projections=d.P, p=2)[1], bk="ntj")
    simple("projections", lambda d: ot.sliced.get_random_projections(3, 4, seed=d.seed, type_as=d.x3), rnd=True)
    # --- smooth, weak, factored, lowrank, gaussian, gmm
    for r in ("l2", "kl", "sparsity_constrained"):
        simple("smooth_dual:" + r, lambda d, r=r: ot.smooth.smooth_ot_dual(d.a, d.b, d.M, R, reg_type=r, **({"max_nz": 2} if r[0] == "s" else {})), tol=1e-4)
        simple("smooth_semi:" + r, lambda d, r=r: ot.smooth.smooth_ot_semi_dual(d.a, d.b, d.M, R, reg_type=r, **({"max_nz": 2} if r[0] == "s" else {})), bk="n", tol=1e-4)
    simple("weak", lambda d: ot.weak_optimal_transport(d.xs, d.xt, d.a, d.b, numItermax=50, log=True), tol=1e-4)
    simple("factored", lambda d: ot.factored_optimal_transport(d.xs, d.xt, d.a, d.b, r=len(d.xn), X0=d.xn, numItermax=4))
    simple("factored_reg", lambda d: ot.factored_optimal_transport(d.xs, d.xt, d.a, d.b, reg=0.5, r=len(d.xn), X0=d.xn, numItermax=4))
    simple("lowrank", lambda d: ot.lowrank.lowrank_sinkhorn(d.xs, d.xt, d.a, d.b, reg=1.0, rank=2, init="deterministic", warn=False), bk="ntj")
    simple("lowrank_kmeans", lambda d: ot.lowrank.lowrank_sinkhorn(d.xs, d.xt, d.a, d.b, reg=1.0, rank=2, init="kmeans", seed_init=d.seed, warn=False), bk="ntj")
    simple("lowrank_random", lambda d: ot.lowrank.lowrank_sinkhorn(d.xs, d.xt, d.a, d.b, reg=1.0, rank=2, init="random", seed_init=d.seed, warn=False), rnd=True, bk="ntj")
    simple("bures_distance", lambda d: ot.gaussian.bures_wasserstein_distance(d.ms[0], d.mt[0], d.Cs[0], d.Ct[0], log=True))
    simple("bures_mapping", lambda d: ot.gaussian.bures_wasserstein_mapping(d.ms[0], d.mt[0], d.Cs[0], d.Ct[0]))
    simple("bures_barycenter", lambda d: ot.gaussian.bures_wasserstein_barycenter(d.ms, d.Cs, d.w3))
    simple("bures_barycenter_gd", lambda d: ot.gaussian.bures_wasserstein_barycenter(d.ms, d.Cs, d.w3, method="gradient_descent", num_iter=20))
    simple("emp_bures", lambda d: ot.gaussian.empirical_bures_wasserstein_distance(d.xs, d.xt))
    simple("emp_bures_map", lambda d: ot.gaussian.empirical_bures_wasserstein_mapping(d.xs, d.xt))
    simple("gaussian_gw", lambda d: ot.gaussian.gaussian_gromov_wasserstein_distance(d.Cs[0], d.Ct[0]))
    simple("gaussian_gw_emp", lambda d: ot.gaussian.empirical_gaussian_gromov_wasserstein_distance(d.xs, d.x3))
    simple("gmm_loss", lambda d: ot.gmm.gmm_ot_loss(d.ms, d.mt, d.Cs, d.Ct, d.w3, d.w4))
    simple("gmm_plan", lambda d: ot.gmm.gmm_ot_plan(d.ms, d.mt, d.Cs, d.Ct, d.w3, d.w4))
    simple("gmm_map", lambda d: ot.gmm.gmm_ot_apply_map(d.xs, d.ms, d.mt, d.Cs, d.Ct, d.w3, d.w4))
    simple("gmm_map_rand", lambda d: ot.gmm.gmm_ot_apply_map(d.xs, d.ms, d.mt, d.Cs, d.Ct, d.w3, d.w4, method="rand", seed=d.seed), bk="nt", tol=1e-6)
    simple("gmm_pdf", lambda d: ot.gmm.gmm_pdf(d.xs, d.ms, d.Cs, d.w3))
    simple("gmm_density", lambda d: ot.gmm.gmm_ot_plan_density(d.xs, d.xn, d.ms, d.mt, d.Cs, d.Ct, d.w3, d.w4), bk="ntj")
    for pm in ("euclidean", "bures"):
        simple("gmm_barycenter:" + pm, lambda d, pm=pm: ot.gmm.gmm_barycenter_fixed_point([d.ms, d.mt], [d.Cs, d.Ct], [d.w3, d.w4], d.ms + 0.0, d.Cs + 0.0, d.w3[:2] / d.w3[:2].sum(), w_bar=d.w3, iterations=2, log=True, barycentric_proj_method=pm), bk="nt")
    # --- Gromov
    simple("gw", lambda d: G.gromov_wasserstein(d.C1, d.C2, d.a, d.b, log=True))
    simple("gw2", lambda d: G.gromov_wasserstein2(d.C1, d.C2, d.a, d.b))
    simple("fgw", lambda d: G.fused_gromov_wasserstein(d.M, d.C1, d.C2, d.a, d.b, alpha=0.4, log=True))
    simple("fgw2_kl", lambda d: G.fused_gromov_wasserstein2(d.M, d.C1 + 0.2, d.C2 + 0.2, d.a, d.b, alpha=0.4, loss_fun="kl_loss"))
    simple("entropic_gw", lambda d: G.entropic_gromov_wasserstein(d.C1, d.C2, d.a, d.b, epsilon=0.5, max_iter=20))
    simple("ppa_fgw", lambda d: G.entropic_fused_gromov_wasserstein2(d.M, d.C1, d.C2, d.a, d.b, epsilon=0.5, solver="PPA", max_iter=10))
    simple("bapg", lambda d: G.BAPG_gromov_wasserstein(d.C1, d.C2, d.a, d.b, epsilon=0.5, max_iter=50))
    simple("bapg_fgw", lambda d: G.BAPG_fused_gromov_wasserstein2(d.M, d.C1, d.C2, d.a, d.b, epsilon=0.5, max_iter=50))
    simple("srgw", lambda d: G.semirelaxed_gromov_wasserstein(d.C1, d.C2, d.a, log=True))
    simple("srfgw2", lambda d: G.semirelaxed_fused_gromov_wasserstein2(d.M, d.C1, d.C2, d.a, alpha=0.4))
    simple("entropic_srgw", lambda d: G.entropic_semirelaxed_gromov_wasserstein(d.C1, d.C2, d.a, epsilon=0.5, max_iter=30))
    simple("partial_gw", lambda d: G.partial_gromov_wasserstein(d.C1, d.C2, d.a, d.b, m=0.6, log=True))
    simple("partial_fgw2", lambda d: G.partial_fused_gromov_wasserstein2(d.M, d.C1, d.C2, d.a, d.b, m=0.6, alpha=0.4))
    simple("entropic_partial_gw", lambda d: G.entropic_partial_gromov_wasserstein(d.C1, d.C2, d.a, d.b, 2.0, m=0.6, numItermax=30), bk="ntj")
    simple("gw_barycenters", lambda d: G.gromov_barycenters(3, [d.C1, d.C2], [d.a, d.b], d.w3, d.lam2, max_iter=3, random_state=d.seed))
    simple("fgw_barycenters", lambda d: G.fgw_barycenters(3, [d.F1, d.F2], [d.C1, d.C2], [d.a, d.b], d.lam2, max_iter=3, random_state=d.seed))
    simple("entropic_gw_barycenters", lambda d: G.entropic_gromov_barycenters(3, [d.C1, d.C2], [d.a, d.b], d.w3, d.lam2, epsilon=0.5, max_iter=3, random_state=d.seed))
    simple("srgw_barycenters", lambda d: G.semirelaxed_gromov_barycenters(3, [d.C1, d.C2], [d.a, d.b], d.lam2, max_iter=3, random_state=d.seed), bk="ntj")
    simple("gw_estimation", lambda d: G.GW_distance_estimation(d.C1, d.C2, d.a, d.b, lambda x, y: (x - y) ** 2, d.T, 3, 3, random_state=d.seed))
    simple("pointwise_gw", lambda d: G.pointwise_gromov_wasserstein(d.C1, d.C2, d.a, d.b, lambda x, y: (x - y) ** 2, max_iter=6, random_state=d.seed))
    simple("sampled_gw", lambda d: G.sampled_gromov_wasserstein(d.C1, d.C2, d.a, d.b, lambda x, y: (x - y) ** 2, nb_samples_grad=3, epsilon=0.5, max_iter=4, random_state=d.seed))
    simple("gw_unmixing", lambda d: G.gromov_wasserstein_linear_unmixing(d.C1, d.Cdict, p=d.a, q=d.w4, max_iter_outer=3))
    simple("fgw_unmixing", lambda d: G.fused_gromov_wasserstein_linear_unmixing(d.C1, d.F1, d.Cdict, d.Ydict, 0.5, p=d.a, q=d.w4, max_iter_outer=3))
    simple("gw_dictionary", lambda d: G.gromov_wasserstein_dictionary_learning([d.C1, d.C2], 2, 4, epochs=2, batch_size=1, random_state=d.seed, Cdict_init=d.Cdict), tol=1e-4)
    simple("fgw_dictionary", lambda d: G.fused_gromov_wasserstein_dictionary_learning([d.C1, d.C2], [d.F1, d.F2], 2, 4, 0.5, epochs=2, batch_size=1, random_state=d.seed, Cdict_init=d.Cdict, Ydict_init=d.Ydict), tol=1e-4)
    simple("lowrank_gw", lambda d: G.lowrank_gromov_wasserstein_samples(d.xs, d.xt, d.a, d.b, reg=0.05, rank=2, numItermax=20, seed_init=d.seed), rnd=True, bk="ntj")
    simple("qfgw", lambda d: G.quantized_fused_gromov_wasserstein(d.C1, d.C2, 2, 3, d.a, d.b, part_method="random", rep_method="random", random_state=d.seed)[1:])
    simple("qfgw_samples", lambda d: G.quantized_fused_gromov_wasserstein_samples(d.xs, d.xt, 2, 3, d.a, d.b, random_state=d.seed)[1:])
    simple("fugw", lambda d: G.fused_unbalanced_gromov_wasserstein(d.C1, d.C2, d.a, d.b, reg_marginals=2, epsilon=0.2, max_iter=8, log=True), tol=1e-5)
    simple("ucoot", lambda d: G.unbalanced_co_optimal_transport(d.X43, d.X53, reg_marginals=2, epsilon=0.2, max_iter=8), tol=1e-5)
    simple("coot", lambda d: ot.coot.co_optimal_transport(d.X43, d.X53, nits_bcd=5))
    simple("coot2", lambda d: ot.coot.co_optimal_transport2(d.X43, d.X53, d.a, None, d.b, None, epsilon=0.3, nits_bcd=5))
    # --- wrappers
    for nm, kw in dict(exact={}, kl=dict(reg=R), l2=dict(reg=R, reg_type="L2"), ukl=dict(unbalanced=1.1), urkl=dict(reg=R, unbalanced=1.1), ul2=dict(reg=R, reg_type="L2", unbalanced=1.1, unbalanced_type="L2")).items():
        simple("solve:" + nm, lambda d, kw=kw: ot.solve(d.M, d.a, d.b, **kw), tol=2e-4 if nm in ("l2", "ul2") else 1e-5)
    for nm, kw in dict(exact={}, kl=dict(reg=R), lazy=dict(reg=R, lazy=True, batch_size=3), oned=dict(method="1d"), gaussian=dict(method="gaussian"), lowrank=dict(reg=0.1, method="lowrank", rank=2, max_iter=30)).items():
        simple("solve_sample:" + nm, lambda d, kw=kw: ot.solve_sample(d.xs, d.xt, d.a, d.b, **kw) if "method" not in kw or kw["method"] != "gaussian" else ot.solve_sample(d.xs, d.xt, **kw), rnd=nm == "lowrank")
    for nm, kw in dict(gw={}, fgw=dict(alpha=0.4), ent=dict(reg=0.5, max_iter=20), sr=dict(unbalanced_type="semirelaxed"), partial=dict(unbalanced_type="partial", unbalanced=0.6)).items():
        simple("solve_gromov:" + nm, lambda d, nm=nm, kw=kw: ot.solve_gromov(d.C1, d.C2, d.M if nm == "fgw" else None, d.a, d.b if nm != "sr" else None, **kw))
    simple("solve_batch", lambda d: ot.batch.solve_batch(d.Mb, R, d.ab, d.bb))
    simple("solve_sample_batch", lambda d: ot.batch.solve_sample_batch(d.Xb, d.Yb, R, d.ab, d.bb))
    simple("solve_gromov_batch", lambda d: ot.batch.solve_gromov_batch(d.C1b, d.C2b, 0.5, d.ab, d.bb, max_iter=5))
    # --- learning, mapping, dr, stochastic, regpath
    simple("mapping_linear", lambda d: ot.da.joint_OT_mapping_linear(d.xs, d.xn, numItermax=4, bias=True), tol=1e-4, bk="nt")
    simple("mapping_kernel", lambda d: ot.da.joint_OT_mapping_kernel(d.xs, d.xn, numItermax=4), tol=1e-4)
    simple("lpl1", lambda d: ot.da.sinkhorn_lpl1_mm(d.a, d.ys, d.b, d.M, R, numItermax=3))
    simple("l1l2", lambda d: ot.da.sinkhorn_l1l2_gl(d.a, d.ys, d.b, d.M, R, numItermax=3), tol=1e-4)
    simple("emd_laplace", lambda d: ot.da.emd_laplace(d.a, d.b, d.xs, d.xt, d.M, sim="gauss", numItermax=4), tol=1e-4)
    simple("gcg", lambda d: ot.optim.gcg(d.a, d.b, d.M, R, 0.3, lambda g: 0.5 * (g ** 2).sum(), lambda g: g, numItermax=4), bk="ntj", tol=1e-5)
    simple("cg", lambda d: ot.optim.cg(d.a, d.b, d.M, R, lambda g: 0.5 * (g ** 2).sum(), lambda g: g, numItermax=30), bk="ntj", tol=1e-4)
    for nm, cls, kw in (("EMD", "EMDTransport", {}), ("Sinkhorn", "SinkhornTransport", dict(reg_e=0.7)), ("LpL1", "SinkhornLpl1Transport", dict(max_iter=3)), ("L1L2", "SinkhornL1l2Transport", dict(max_iter=3)),
                        ("Laplace", "EMDLaplaceTransport", dict(max_iter=4)), ("Unbalanced", "UnbalancedSinkhornTransport", dict(reg_e=0.7, reg_m=1.0)), ("Linear", "LinearTransport", {}),
                        ("Mapping", "MappingTransport", dict(max_iter=3)), ("LinearGW", "LinearGWTransport", {})):
        def tr(d, cls=cls, kw=kw, nm=nm):
            t = getattr(ot.da, cls)(**kw)
            sup = dict(ys=d.ys) if nm in ("LpL1", "L1L2") else {}
            t.fit(Xs=d.xs, Xt=d.xt if nm != "Mapping" else d.xn, **sup)
            return [t.transform(Xs=d.xs), t.transform(Xs=d.xn), t.inverse_transform(Xt=d.xt) if nm not in ("Mapping",) else None, getattr(t, "coupling_", None)]
        simple("da:" + nm, tr, tol=1e-4, bk="ntj")
    simple("ewca", lambda d: ot.dr.ewca(d.x3, reg=0.5, k=2, maxiter=3, maxiter_MM=2)[0], bk="n")
    simple("prw", lambda d: ot.dr.projection_robust_wasserstein(d.x3, d.x3 + 0.1, d.a, d.a, 0.1, reg=0.5, k=2, maxiter=3, random_state=d.seed), bk="n")
    simple("wda", lambda d: ot.dr.wda(d.x3, d.ys, p=1, reg=1, k=3, maxiter=2, P0=np.eye(3)[:, :1])[0], bk="n", slow=True)
    simple("fda", lambda d: ot.dr.fda(d.x3, d.ys, p=1)[0], bk="n")
    simple("sag", lambda d: ot.stochastic.sag_entropic_transport(d.a, d.b, d.M, R, numItermax=30, random_state=d.seed), bk="n")
    simple("averaged_sgd", lambda d: ot.stochastic.averaged_sgd_entropic_transport(d.a, d.b, d.M, R, numItermax=30, random_state=d.seed), bk="n")
    simple("sgd_dual", lambda d: ot.stochastic.sgd_entropic_regularization(d.a, d.b, d.M, R, 2, 20, 0.1, random_state=d.seed), bk="n")
    simple("loss_dual_entropic", lambda d: ot.stochastic.loss_dual_entropic(d.al, d.be, d.xs, d.xt, R, d.a, d.b))
    simple("plan_dual_quadratic", lambda d: ot.stochastic.plan_dual_quadratic(d.al, d.be, d.xs, d.xt, R, d.a, d.b))
    simple("regpath", lambda d: ot.regpath.regularization_path(d.a, d.b, d.M, reg=0.1)[:2], bk="n")
    simple("regpath_semi", lambda d: ot.regpath.regularization_path(d.a, d.b, d.M, reg=0.1, semi_relaxed=True)[:2], bk="n")
    # --- utils
    for mt in ("sqeuclidean", "euclidean", "cityblock", "cosine", "minkowski", "chebyshev", "canberra"):
        simple("dist:" + mt, lambda d, mt=mt: ot.dist(d.xs, d.xt, metric=mt), bk="n" if mt in ("chebyshev", "canberra") else "all")
    simple("dist_weighted", lambda d: ot.dist(d.xs, d.xt, metric="minkowski", p=3, w=d.lam2))
    simple("unif", lambda d: ot.unif(4, type_as=d.a))
    simple("kernel", lambda d: ot.utils.kernel(d.xs, d.xt, sigma=0.7))
    simple("proj_simplex", lambda d: ot.utils.proj_simplex(d.xs))
    simple("sparse_simplex", lambda d: ot.utils.projection_sparse_simplex(d.x3, 2, axis=1), bk="ntj")
    simple("proj_SDP", lambda d: ot.utils.proj_SDP(d.C1, vmin=0.1))
    simple("laplacian", lambda d: ot.utils.laplacian(d.C1))
    simple("cost_normalization", lambda d: [ot.utils.cost_normalization(d.M, k) for k in ("max", "log", "loglog")])
    simple("clean_zeros", lambda d: ot.utils.clean_zeros(d.a, d.b, d.M), bk="n")
    simple("label_normalization", lambda d: ot.utils.label_normalization(d.ys, start=1))
    simple("labels_to_masks", lambda d: ot.utils.labels_to_masks(d.ys))
    simple("sparse_ot_dist", lambda d: ot.utils.sparse_ot_dist(d.xs, d.xt, np_like(d, np.array([0, 1, 2])), np_like(d, np.array([1, 1, 3]))))
    simple("exp_bures", lambda d: ot.utils.exp_bures(d.Cs[0], d.Ct[0]))
    simple("dist0", lambda d: ot.utils.dist0(4), bk="n")
    return CALLS


def np_like(d, z):
    return d.cv(z)


def execute(name, data, nx=None):
    if not CALLS:
        build()
    f, opts = CALLS[name]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return flatten(f(data), nx)
