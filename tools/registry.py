"""The single source of properties.jsonl and MANIFEST.json (run tools/gen.py)."""
PROPS, NA = [], []
TECH = "bounded exhaustive model checking of the real code (stateless enumeration of a choice tree)"


def P(id, title, statement, over, text, why, files, mechanism, note, observe=(), state=(), technique=None, claimed=True, reason=None):
    PROPS.append(dict(
        rec=dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                 anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                              mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=list(observe), hook_needed=None)),
        note=note, technique=technique or TECH, claimed=claimed, reason=reason))


P("C01", "Exact OT returns an optimal plan with exactly the given marginals",
  "For every pair of non-negative weight vectors of equal total mass and every finite cost matrix, the exact solvers return a non-negative plan whose row and column sums are the given weights and whose cost is the minimum over all couplings. The value they return is the cost of that plan, whatever the memory layout, dtype, container, number of threads, batching of targets or scale of the inputs.",
  ["inputs", "configurations"], "all weights (zeros, ties, unbalanced scales), all finite costs (negative, tied, huge), every layout/dtype/container, every thread count",
  "Tests compare a handful of uniform random problems with scipy; optimality over ties, zero weights, negative costs, pivoting-block sizes and layouts is never enumerated.",
  ["ot/lp/_network_simplex.py", "ot/lp/emd_wrap.pyx", "ot/lp/EMD_wrapper.cpp", "ot/lp/network_simplex_simple.h", "ot/lp/network_simplex_simple_omp.h"],
  [("network simplex pivoting", "ot/lp/network_simplex_simple.h"), ("zero-weight filtering and inflation", "ot/lp/_network_simplex.py")],
  "Every integer problem in the small scopes is decided against an exact vertex enumeration of the transportation polytope (and integer min-cost flow); larger problems against scipy's HiGHS LP to 1e-8. Bounded: sizes up to ~100.",
  ["ot.emd", "ot.emd2", "ot.solve"], [("spanning tree", "basis of the simplex", "network_simplex_simple.h")])

P("C02", "Exact OT duals are feasible, optimal and attached to the right bins",
  "Whenever exact OT reports success, the returned potentials satisfy u_i + v_j <= M_ij on every pair, including (for a dense cost) bins of zero weight, and their weighted sum equals the optimal value. The gradients attached to the value are these centred potentials and the cost gradient is the plan.",
  ["inputs", "configurations"], "all weights including zeros at any position, all costs, every route that returns potentials",
  "Tests check duality on two random dense problems; zero-weight bins, degenerate bases and permuted zero patterns are not enumerated.",
  ["ot/lp/_network_simplex.py", "ot/lp/EMD_wrapper.cpp", "ot/lp/dmmot.py"],
  [("centring", "center_ot_dual in ot/lp/_network_simplex.py"), ("null-weight repair", "estimate_dual_null_weights in ot/lp/_network_simplex.py")],
  "Dual feasibility and zero gap are checked on every enumerated problem; the zero gap also certifies the primal. Trusts floating comparison at 1e-8.",
  ["ot.emd log u,v", "ot.emd2 log", "ot.solve potentials"])

P("C03", "Every route to the exact OT problem gives the same optimum",
  "Dense, sparse-cost, lazy (cost from coordinates), multi-threaded, warm-started and unified-API calls that describe the same transport problem return the same optimal value and a feasible plan. On a sparse cost only the listed pairs may carry mass, and an infeasible sparse problem is reported as infeasible.",
  ["inputs", "configurations"], "all edge subsets of small bipartite graphs, all metrics, all warm starts, all thread counts",
  "Tests exercise each route on one or two random problems with generous k-NN graphs; sparse infeasibility, isolated bins and arbitrary warm starts are not covered.",
  ["ot/lp/_network_simplex.py", "ot/lp/sparse_bipartitegraph.h", "ot/lp/EMD_wrapper.cpp", "ot/lp/network_simplex_simple_omp.h", "ot/solvers.py"],
  [("sparse bipartite digraph", "ot/lp/sparse_bipartitegraph.h"), ("lazy cost evaluation", "ot/lp/network_simplex_simple.h"), ("warm start", "warmstartInit in network_simplex_simple.h")],
  "Every edge subset of bipartite graphs up to 3x3 with several integer marginals is solved and compared with an exact min-cost flow; routes are cross-checked on enumerated larger problems.",
  ["ot.emd with scipy.sparse cost", "ot.lp.emd2_lazy", "ot.solve", "numThreads", "potentials_init"])

P("C04", "Exact OT never misreports how a solve ended",
  "If the exact solver returns without a warning then its plan is feasible and optimal; if the iteration budget stops it early, or the problem is infeasible, both the log and a Python warning say so. Inconsistent inputs (different total masses, mismatched dimensions) are rejected, and raising the iteration budget never turns a success into a failure.",
  ["inputs", "fault_sequences", "configurations"], "every iteration budget from 1 upwards (an interruption at every pivot) on every route",
  "The tests use a single tiny budget once; an interruption at each pivot of each route is not explored.",
  ["ot/lp/_network_simplex.py", "ot/lp/emd_wrap.pyx", "ot/lp/network_simplex_simple.h", "ot/lp/network_simplex_simple_omp.h", "ot/solvers.py"],
  [("result code mapping", "check_result in ot/lp/emd_wrap.pyx"), ("iteration counter", "network_simplex_simple.h start()")],
  "The iteration budget is treated as an interruption point; every budget 1..40 (and a ladder above) is executed on each route of each enumerated problem.",
  ["log['warning']", "warnings.warn", "result_code", "res.status"])

P("C05", "No input makes the native solvers access memory outside their buffers",
  "For every input that the public exact, lazy, sparse, 1-D and partial 1-D solvers accept, valid or malformed, the native code neither reads nor writes outside its buffers, does not execute undefined arithmetic and terminates. Malformed input leads to an ordinary Python exception or a reported status.",
  ["inputs", "configurations"], "all shapes, weights (zero, negative, all zero), sparse patterns, warm starts of wrong shape, interruption points and thread counts in the scopes",
  "Tests run uninstrumented builds on well-formed inputs; a stray access there is silent.",
  ["ot/lp/EMD_wrapper.cpp", "ot/lp/network_simplex_simple.h", "ot/lp/network_simplex_simple_omp.h", "ot/lp/sparse_bipartitegraph.h", "ot/lp/emd_wrap.pyx", "ot/partial/partial_cython.pyx"],
  [("array sizing", "EMD_wrapper.cpp"), ("bounds of Cython loops", "emd_wrap.pyx, partial_cython.pyx")],
  "The real extensions are rebuilt from the working tree with AddressSanitizer and UBSan; the enumerated cases run under them in forked workers, so a report, crash or hang is attributed to its case.",
  ["process death", "sanitizer report"], technique="bounded exhaustive model checking of the real code with sanitizer monitors")


P("C06", "One-dimensional OT equals the exact optimum of the line",
  "For all values and non-negative weights, in any order and with ties or empty bins, the 1-D solvers return the optimal transport value for every convex cost |x-y|^p, equal to what the general exact solver finds, and the plans they return are feasible, optimal and expressed in the caller's order. Dense, sparse, batched, pre-sorted and unequal-length calls agree.",
  ["inputs", "configurations"], "all orderings, ties, zero weights, sizes, p, metrics, dense/sparse, batched and pre-sorted calls",
  "Tests use two or three random samples of distinct values; ties, zeros, reversed orders and batched weights are not enumerated.",
  ["ot/lp/solver_1d.py", "ot/lp/emd_wrap.pyx"],
  [("quantile merging", "wasserstein_1d and quantile_function in ot/lp/solver_1d.py"), ("two-pointer sweep", "emd_1d_sorted in ot/lp/emd_wrap.pyx")],
  "All placements of small integer values with all small integer weights are compared with the minimum over the exact vertices of the transport polytope; larger structured problems with an LP. Values are float64.",
  ["ot.emd_1d", "ot.emd2_1d", "ot.wasserstein_1d", "ot.wasserstein2_1d"])

P("C07", "Circular OT equals the exact optimum for the geodesic distance",
  "For all coordinates on the circle and all weights, the circular solvers return the optimal transport value for the geodesic cost, whatever the order of the samples, a common rotation, whole turns added to the coordinates, or batching. The semi-discrete and linearised distances to the uniform measure equal their closed-form definitions.",
  ["inputs", "configurations"], "all placements on grids of the circle, all small integer weights, p, rotations, orders, batches",
  "Tests compare a few random samples; atoms at the cut point, ties, weighted and unsorted inputs are not enumerated.",
  ["ot/lp/solver_circle.py"],
  [("binary search on the shift", "binary_search_circle in ot/lp/solver_circle.py"), ("level median", "wasserstein1_circle in ot/lp/solver_circle.py")],
  "Integer circles are decided against all vertices of the transport polytope, larger ones against an LP; the binary search is compared within 2e-5 (its own tolerance is 1e-6). One recorded finding: the linear embedding is shifted by one atom.",
  ["ot.wasserstein_circle", "ot.binary_search_circle", "ot.semidiscrete_wasserstein2_unif_circle", "ot.linear_circular_ot"])

P("C23", "Sliced OT is exactly the aggregate of one-dimensional problems",
  "For given projection directions, sliced distances are the p-mean, and max-sliced ones the maximum, of the exact one-dimensional distances of the projected weighted samples; the spherical variants aggregate circular problems. Sliced plans are feasible, optimal along their direction, and the min and expected plans and costs follow from them. A fixed seed fixes the directions, which are unit vectors.",
  ["inputs", "configurations"], "all direction sets, weights, sizes, metrics, orders, batch sizes, dense or sparse output, seeds",
  "Tests use random directions and compare backends or signs of results; the exact aggregate, batching and weighted cases are not enumerated.",
  ["ot/sliced/_sliced_distances.py", "ot/sliced/_sliced_plans.py", "ot/sliced/_spherical_sliced.py", "ot/sliced/_utils.py", "ot/utils.py"],
  [("projection and 1-D solve", "ot/sliced/_sliced_distances.py"), ("batched plan costs", "ot/sliced/_sliced_plans.py")],
  "Directions are passed explicitly, so the expected value is computed independently (own two-pointer sweep, LP on the circle). The statistical quality of random directions is not decided.",
  ["ot.sliced_wasserstein_distance", "ot.max_sliced_wasserstein_distance", "ot.min_sliced_transport_plan", "ot.expected_sliced_plan", "ot.sliced_wasserstein_sphere"])

P("C08", "Partial OT moves exactly the requested mass at minimal cost",
  "For all weights, costs and every mass between zero and the smaller total, partial OT returns a non-negative plan with exactly that mass whose marginals never exceed the given weights and whose cost is minimal among such plans; the value is the cost of the plan. The Lagrangian form, its 1-D version and the entropic form solve their documented problems.",
  ["inputs", "configurations"], "all small integer weights, costs (negative, null, tied) and masses including 0 and the maximum; layouts, dtypes and options",
  "Tests check marginals on one random problem and a few masses; optimality for negative or tied costs and boundary masses is not enumerated.",
  ["ot/partial/partial_solvers.py", "ot/partial/partial_cython.pyx"],
  [("dummy points", "partial_wasserstein in ot/partial/partial_solvers.py"), ("chains of the 1-D solver", "ot/partial/partial_cython.pyx"), ("Dykstra projections", "entropic_partial_wasserstein")],
  "Optimality is decided by an independent LP (HiGHS) or by exact enumeration in one dimension.",
  ["ot.partial.partial_wasserstein", "ot.partial.partial_wasserstein2", "ot.partial.partial_wasserstein_lagrange", "ot.partial.partial_wasserstein_1d", "ot.partial.entropic_partial_wasserstein"])

P("C09", "Every Sinkhorn variant returns the entropic plan or says it did not converge",
  "For all weights (including empty bins), costs, regularisations, warm starts and layouts, a Sinkhorn call that ends without a warning has returned the unique entropic OT plan up to its tolerance, together with potentials that reproduce it and a value that is its cost. All methods, several histograms at once, lazy and empirical forms agree, and a solver can be resumed from its own log.",
  ["inputs", "fault_sequences", "configurations"], "all methods, weights with zeros, costs, warm starts, histogram batches, lazy batch sizes, and an interruption at each iteration budget",
  "Tests compare methods on one random problem each; empty bins, absorption steps, warm starts, and interruptions are not enumerated.",
  ["ot/bregman/_sinkhorn.py", "ot/bregman/_empirical.py", "ot/bregman/_screenkhorn.py", "ot/bregman/_utils.py", "ot/lowrank.py"],
  [("scaling iterations and stopping rules", "ot/bregman/_sinkhorn.py"), ("absorption", "sinkhorn_stabilized in ot/bregman/_sinkhorn.py"), ("lazy plan", "ot/bregman/_empirical.py")],
  "The reference plan comes from an independent log-domain Newton solver. For very small regularisation only 'correct or warned' is required. One recorded finding: partial screening budgets can be rejected.",
  ["ot.sinkhorn", "ot.sinkhorn2", "ot.bregman.empirical_sinkhorn", "ot.bregman.screenkhorn"])

P("C10", "Unbalanced OT solvers reach the optimum of the documented objective",
  "For all positive regularisations and marginal penalties (a pair of different ones and infinite ones included), all weights (with empty bins, different masses) and costs, the plan returned by the entropic, majorisation-minimisation, L-BFGS, one-dimensional and sliced unbalanced solvers satisfies the optimality conditions of the objective they document, for each choice of divergence, reference measure and warm start. The linear and total costs they report are those of the returned plan, and batched calls equal separate ones.",
  ["inputs", "configurations"], "methods x penalties x divergences x reference measures x weights x warm starts x layouts",
  "Tests check that a few methods agree on one random problem; the combinations of penalties, divergences, references and zero weights are not enumerated, and the optimality of the result is not decided.",
  ["ot/unbalanced/_sinkhorn.py", "ot/unbalanced/_mm.py", "ot/unbalanced/_lbfgs.py", "ot/unbalanced/_solver_1d.py", "ot/unbalanced/_sliced.py"],
  [("scaling iterations and absorption", "ot/unbalanced/_sinkhorn.py"), ("translation invariant updates", "sinkhorn_unbalanced_translation_invariant"), ("Frank-Wolfe on the dual", "ot/unbalanced/_solver_1d.py")],
  "First order conditions of the convex objective decide the entropic case to 1e-6; the other solvers are compared with perturbations along every entry, row, column and cycle. The Frank-Wolfe 1-D solver is only compared with the optimum up to its documented convergence rate. Total variation: only the consistency of the reported objective.",
  ["ot.unbalanced.sinkhorn_unbalanced", "ot.unbalanced.mm_unbalanced", "ot.unbalanced.lbfgsb_unbalanced", "ot.unbalanced.barycenter_unbalanced", "ot.unbalanced.uot_1d", "ot.unbalanced.sliced_unbalanced_ot"])

P("C12", "ot.solve returns the optimum of the problem its options select",
  "For every combination of regularisation, regularisation type, reference measure, unbalanced penalty (scalar, pair or infinite) and type that ot.solve accepts, with any weights, backend, layout, initialisation and gradient mode, the returned plan is optimal for the documented objective; value is that objective at the plan, value_linear is the cost of the plan, the potentials generate the plan, and the other fields agree with it. Unknown options are rejected.",
  ["configurations", "inputs"], "the product of regularisation types, penalties and types; weights, costs, references, containers, initialisations, backends",
  "Tests run the option grid once on one uniform random problem and only compare backends with each other; optimality and the values are not checked per option.",
  ["ot/solvers.py", "ot/unbalanced/_mm.py", "ot/unbalanced/_lbfgs.py", "ot/optim.py", "ot/smooth.py"],
  [("dispatch on options", "solve in ot/solvers.py")],
  "The objective is re-implemented from the documentation; optimality is tested against all two-by-two exchanges and, when unbalanced, all entry, row and column moves (the objective is convex). For the total variation penalty only the values are checked. Findings: one infinite and one finite penalty return NaN outside the KL/KL solver.",
  ["ot.solve"])

P("C13", "ot.solve_sample solves the same problem as ot.solve on the cost of the samples",
  "For every metric, problem type, backend and weights, the dense and the lazy calls of solve_sample return the value, plan, potentials and marginals of the problem on the explicit cost matrix, whatever the batch size. The special methods (1d, gaussian, factored, lowrank, nystroem, geomloss) use the given samples, weights and regularisation: exact ones return the exact value and approximate ones a coupling of the given weights whose reported value is its cost.",
  ["configurations", "inputs"], "lazy or dense x metrics x problems x weights x batch sizes x backends x methods",
  "Tests compare lazy and dense on one random sample with uniform weights; weights in special methods, batch boundaries and metrics are not enumerated.",
  ["ot/solvers.py", "ot/bregman/_empirical.py", "ot/bregman/_geomloss.py", "ot/lowrank.py", "ot/factored.py", "ot/gaussian.py"],
  [("dispatch", "solve_sample in ot/solvers.py"), ("lazy plans", "LazyTensor in ot/utils.py")],
  "The reference is the dense problem on scipy's distance matrix (itself decided by C12), an exact LP, or a closed form. geomloss is compared with the entropic optimum to the accuracy of its annealing.",
  ["ot.solve_sample"])

P("C14", "Gromov-Wasserstein solvers return a stationary coupling and its exact objective",
  "For all structures (symmetric or not), weights (with empty bins or any common mass), losses, trade-offs alpha and initial couplings, gromov_wasserstein and fused_gromov_wasserstein return a coupling of the given weights; the reported loss is the documented objective at that coupling, no larger than at the initial one, and a run that stops before its budget is a stationary point. Gradients of the values are those of the objective at the plan, and each barycenter round is the documented update.",
  ["inputs", "configurations"], "losses x alpha x structures x weights x initial couplings x line searches x backends x sampled variants",
  "Tests recover a permutation on one or two graphs with uniform weights; objective values, stationarity, asymmetric structures, empty bins and other masses are not enumerated.",
  ["ot/gromov/_gw.py", "ot/gromov/_utils.py", "ot/optim.py"],
  [("conditional gradient", "generic_conditional_gradient in ot/optim.py"), ("exact line search", "solve_gromov_linesearch in ot/optim.py"), ("block coordinate barycenters", "gromov_barycenters, fgw_barycenters in ot/gromov/_gw.py")],
  "The objective is evaluated from its fourth-order tensor; stationarity is the Frank-Wolfe gap against an exact LP. Global optimality of the nonconvex problem is not claimed. Gradients in torch and tensorflow.",
  ["ot.gromov.gromov_wasserstein", "ot.gromov.fused_gromov_wasserstein", "ot.gromov.gromov_barycenters", "ot.gromov.fgw_barycenters"])

P("C15", "Partial and semi-relaxed GW meet their constraints and objectives",
  "For all structures, weights (zeros included), losses, trade-offs and initial plans, semi-relaxed (fused) GW returns a non-negative plan with exactly the source weights, partial (fused) GW one with exactly the requested mass under both weights; reported losses are the documented objective at the plan and never exceed that of the start, and converged plans are stationary. The entropic versions satisfy their own fixed-point conditions; gradients and semi-relaxed barycenter rounds are those documented.",
  ["inputs", "configurations"], "losses x alpha x symmetry x masses x weights x initialisation strategies x backends",
  "Tests check constraints on one random problem; stationarity, boundary masses, empty bins, initialisations and the gradients are not enumerated.",
  ["ot/gromov/_semirelaxed.py", "ot/gromov/_partial.py", "ot/gromov/_utils.py", "ot/optim.py"],
  [("semi-relaxed conditional gradient", "semirelaxed_cg in ot/optim.py"), ("partial conditional gradient", "partial_cg in ot/optim.py"), ("mirror descent", "entropic_semirelaxed_gromov_wasserstein in ot/gromov/_semirelaxed.py")],
  "As C14, with the constraint sets of the relaxed problems. Entropic partial GW is only checked when it reports convergence. Partition-based initialisations are run on distance and graph structures only.",
  ["ot.gromov.semirelaxed_gromov_wasserstein", "ot.gromov.partial_gromov_wasserstein", "ot.gromov.entropic_partial_gromov_wasserstein", "ot.gromov.semirelaxed_gromov_barycenters"])

P("C16", "Entropic GW iterates its documented steps; solve_gromov uses its options",
  "For all structures, weights, losses, trade-offs, regularisations, initial couplings and warm starts, each iteration of the entropic, proximal and Bregman alternating (fused) GW solvers is the documented projection, a converged plan is a fixed point of it and the reported loss is that of the plan; entropic barycenters return the updates of their last plans. solve_gromov uses every option it is given: plan, value, linear and quadratic parts are those of the selected problem, and unknown options are rejected.",
  ["inputs", "fault_sequences", "configurations"], "solvers x losses x structures x weights x iteration budgets x options x backends",
  "Tests check marginals and compare two solvers on one graph; that the given regularisation, warm start, features or tolerance is actually used is not checked.",
  ["ot/gromov/_bregman.py", "ot/gromov/_utils.py", "ot/solvers.py"],
  [("mirror and proximal steps", "entropic_gromov_wasserstein in ot/gromov/_bregman.py"), ("alternating projections", "BAPG_gromov_wasserstein in ot/gromov/_bregman.py"), ("dispatch on options", "solve_gromov in ot/solvers.py")],
  "Steps are recomputed with an independent log-domain Newton projection (1e-6). The Bregman alternating variant does not use the log domain, so zero weights and very small regularisations are excluded for it.",
  ["ot.gromov.entropic_gromov_wasserstein", "ot.gromov.BAPG_gromov_wasserstein", "ot.gromov.entropic_gromov_barycenters", "ot.solve_gromov"])

P("C11", "Barycenter solvers return the barycenter of their weighted inputs",
  "For all histograms, weights (non-uniform and zero included), costs and regularisations, a fixed-support entropic barycenter call that does not warn returns the unique minimiser of the weighted objective, whatever the method, absorption threshold, start or backend; the exact one attains the LP optimum; debiased ones minimise the debiased objective. Free-support, generalized and generic-cost solvers apply the documented update with the given weights, never raise their energy and stop at a fixed point; glued plans keep their marginals.",
  ["inputs", "fault_sequences", "configurations"], "methods x weights x regularisations x histograms x absorption thresholds x budgets x backends",
  "Tests use uniform weights and compare methods to 1e-3 on one problem; non-uniform weights, absorption, empty bins and stationarity are not covered.",
  ["ot/bregman/_barycenter.py", "ot/bregman/_convolutional.py", "ot/bregman/_dictionary.py", "ot/lp/_barycenter_solvers.py"],
  [("iterative projections", "ot/bregman/_barycenter.py"), ("separable kernels", "_get_convol_img_fn in ot/bregman/_convolutional.py"), ("fixed-point updates", "ot/lp/_barycenter_solvers.py")],
  "The reference is an own log-domain solver run to 1e-13 or an own LP. Debiased barycenters, whose last modes converge slowly, are compared by their objective. One finding: unmix uses alpha the other way round.",
  ["ot.barycenter", "ot.bregman.barycenter_debiased", "ot.bregman.convolutional_barycenter2d", "ot.lp.barycenter", "ot.lp.free_support_barycenter", "ot.lp.generalized_free_support_barycenter", "ot.bregman.unmix", "ot.bregman.jcpot_barycenter"])

P("C17", "Batched solvers return the per-item results, independently of the batch",
  "For every batch, item k of the result of the batched entropic, Gromov and sample solvers and of the batched metrics equals the result of the same computation on item k alone, whatever the other items, their order or the batch size, and it is the documented quantity: the given number of projections of the item's kernel, the optimum when converged, its marginals, its value and linear value with the given regularisation type, and gradients of the kind asked for.",
  ["inputs", "configurations"], "solvers x losses x regularisation types x gradient modes x iteration budgets x batches of every mix of items x weights x backends",
  "Tests compare a batch of random problems with a loop of the same solver; the mixed difficulty of items, regularisation types, gradient modes and losses are not enumerated.",
  ["ot/batch/_linear.py", "ot/batch/_quadratic.py", "ot/batch/_utils.py"],
  [("batched projections", "bregman_log_projection_batch in ot/batch/_utils.py"), ("batched tensors of the quadratic losses", "ot/batch/_quadratic.py"), ("batched metrics", "dist_batch in ot/batch/_linear.py")],
  "Each item is recomputed with an independent implementation of the same number of iterations, and with the reference optimum when it reports convergence. One finding: the envelope gradient with respect to the weights and the KL regularisation type.",
  ["ot.batch.solve_batch", "ot.batch.solve_sample_batch", "ot.batch.solve_gromov_batch", "ot.batch.dist_batch"])

P("C18", "All backends compute the same thing",
  "Every operation of every backend has the value, shape, precision and derivative of its definition, for all shapes, axes, layouts and special values, and leaves its arguments alone; given gradients obey the chain rule; draws are reproducible from the seed; mixing incompatible inputs is rejected; disabling backends leaves the others working. Every public function then returns the same result with every backend that it supports, in single precision and for strided arrays.",
  ["inputs", "configurations"], "operations x backends x shapes x axes x precisions x layouts; public functions x backends x precisions x layouts; subsets of disabled backends",
  "Tests compare some functions between backends on one random float64 problem each, with loose tolerances; axes, layouts, keepdims, empty reductions, precision, derivatives and random states are not enumerated.",
  ["ot/backend.py", "ot/utils.py"],
  [("operations", "NumpyBackend, TorchBackend, JaxBackend, TensorflowBackend in ot/backend.py"), ("resolution", "get_backend in ot/backend.py"), ("given gradients", "set_gradients in ot/backend.py")],
  "The definition of each operation is numpy/scipy. Cupy is not installed. Options that a backend rejects loudly are outside the property. Results based on random draws of a backend are compared in shape and precision only.",
  ["ot.backend", "every public function listed in mc/calls.py"])

P("C21", "Calls leave arguments and global state alone, and history does not matter",
  "For every public function: the call does not change its arguments, its result owns its memory, prints nothing unless asked to, and leaves random generators, numeric error states, default arguments, environment and warning filters as they were. With the same arguments and seed it returns bit-identical results, whatever the state of the global generators, whatever calls came before (failed ones included), in any order, and whatever callers did with earlier results.",
  ["histories", "inputs"], "every public function x aspects of purity; all ordered pairs and whole sequences of calls",
  "Tests call each function once and look at its result: nothing observes its arguments, the state it leaves behind or the order of calls.",
  ["ot/utils.py", "ot/gromov/_quantized.py", "ot/lp/_network_simplex.py", "ot/optim.py", "ot/dr.py"],
  [("in-place updates", "cost_normalization in ot/utils.py, fda in ot/dr.py"), ("random states", "check_random_state in ot/utils.py"), ("C++ entry points", "ot/lp/emd_wrap.pyx")],
  "The table holds one call (two data sets) per solver and option family. Transport classes over several fits: C20. Threads: C31.",
  ["every public function listed in mc/calls.py"])

P("C20", "Domain adaptation estimators are their problems and maps, whatever their history",
  "For all samples, weights, costs, normalisations, labels and backends, a fitted transport holds the normalised cost of its metric and the coupling of its problem and parameters; maps in both directions are the barycentric, out-of-sample, linear or continuous ones of that coupling, finite, independent of the batch size; label propagation is the normalised coupling. Group-lasso, Lp-L1 and Laplacian solvers optimise their documented objectives. After any sequence of fits, failed fits, parameter changes, clones and transforms an estimator behaves like a fresh one with its parameters, which only set_params changes.",
  ["histories", "inputs", "configurations"], "estimators x weights x metrics x normalisations x labels x batch sizes x backends; all sequences of operations up to a depth",
  "Tests check marginals and shapes on one data set and one fit per estimator; values of the maps, labels, later fits, parameters and the optimality of the regularised problems are not checked.",
  ["ot/da.py", "ot/utils.py", "ot/optim.py"],
  [("estimators", "BaseTransport and its subclasses in ot/da.py"), ("generalized conditional gradient", "gcg in ot/optim.py"), ("group and Laplacian solvers", "sinkhorn_lpl1_mm, sinkhorn_l1l2_gl, emd_laplace in ot/da.py")],
  "Couplings are recomputed from an independent cost; regularised problems by optimality certificates. One finding: target labels do not change the cost (asserted by the existing tests). JCPOT labels must be contiguous.",
  ["ot.da", "ot.optim.gcg"])

P("C19", "Gradients of the losses are the derivatives of the values they return",
  "With torch and tensorflow, for every loss documented as differentiable, every subset of arguments that require gradients, size, precision and outer factor, the value equals that without gradients and each gradient has the shape and precision of its argument and is the derivative of the value along every direction of its space (mass-preserving for weights, symmetric for structures); for last_step it is the derivative of one iteration from the converged potential.",
  ["inputs", "configurations"], "losses x subsets of differentiable arguments x every coordinate x sizes x precisions x backends",
  "Tests compare a few gradients between two solvers or check that they exist; derivatives of the value for every argument, precision and mode are not checked.",
  ["ot/backend.py", "ot/lp/_network_simplex.py", "ot/solvers.py", "ot/gromov/_gw.py", "ot/bregman/_sinkhorn.py"],
  [("given gradients", "set_gradients in ot/backend.py and its callers"), ("kinds of gradient", "grad option of ot.solve in ot/solvers.py"), ("unrolled iterations", "ot/bregman/_sinkhorn.py, ot/unbalanced/_sinkhorn.py")],
  "Central differences of the numpy value at points where the loss is differentiable; at kinks the gradient must lie between the one-sided derivatives. Batched gradients: C17; partial and semi-relaxed GW: also C15.",
  ["ot.emd2", "ot.sinkhorn2", "ot.solve", "ot.solve_sample", "ot.wasserstein_1d", "ot.gromov.gromov_wasserstein2", "ot.dist"])

P("C22", "Distances, projections, lazy arrays, data sets and helpers are what they say",
  "For all inputs, shapes, layouts and backends: dist, euclidean_distances and kernel give the documented pairwise values (non-negative, weighted, any metric name or callable); simplex, sparse simplex and SDP projections are the Euclidean projections; cost normalisation, clean_zeros, fun_to_numpy, label normalisation, laplacian and the other helpers follow their definitions; a LazyTensor indexes, multiplies and reduces like the array it stands for; lists, integer and mixed-precision arguments give the result of their floating-point arrays; data set generators return the documented samples, sizes and laws.",
  ["inputs", "configurations"], "functions x shapes x layouts x value patterns x backends x argument types; all index expressions of lazy arrays up to a size",
  "Tests call each helper on one random input; other sizes, degenerate values, index expressions, argument types and option values are not covered.",
  ["ot/utils.py", "ot/datasets.py", "ot/lowrank.py"],
  [("distances", "dist, euclidean_distances in ot/utils.py"), ("projections", "proj_simplex, projection_sparse_simplex, proj_SDP in ot/utils.py"), ("lazy arrays", "LazyTensor, OTResult in ot/utils.py"), ("data sets", "make_data_classif in ot/datasets.py")],
  "Projections are compared with an enumeration of supports on small vectors. An integer first marginal gives an integer plan (documented, with a warning). With backend='scipy' distances are float64.",
  ["ot.dist", "ot.utils", "ot.datasets"])

P("C24", "Gaussian and mixture OT gives Bures distances, maps, barycenters and plans",
  "For all means, covariances (of any dimension, scale and conditioning), weights and backends: Bures and Bures-Wasserstein distances have their closed value, symmetric, batched or paired; the affine maps push one Gaussian onto the other at that cost; Gaussian Gromov-Wasserstein distances and maps follow the ordered spectra; barycenters by any method satisfy the optimality condition; empirical versions are those of the weighted moments. For mixtures, densities, costs, plans, barycentric and random maps, plan densities and each barycenter iteration are the documented ones, with the inputs untouched.",
  ["inputs", "configurations"], "pairs of covariances x dimensions x backends; weights x bias x regularisation; methods x families; mixtures x sizes x plans",
  "Tests compare methods with each other on one data set at 1e-2; batches of different sizes, weights, dimensions, fixed-point iterates and laws are not checked.",
  ["ot/gaussian.py", "ot/gmm.py"],
  [("distances and maps", "bures_distance, bures_wasserstein_mapping, gaussian_gromov_wasserstein_* in ot/gaussian.py"), ("barycenters", "bures_barycenter_* in ot/gaussian.py"), ("mixtures", "ot/gmm.py")],
  "Maps need positive definite covariances. Distances of singular covariances may be NaN (finding). Stochastic barycenters are checked to stay near the optimum for fixed seeds only.",
  ["ot.gaussian", "ot.gmm"])

P("C25", "Low-rank, factored and weak OT return feasible factors and stated objectives",
  "For all points, weights, ranks, regularisations, initialisations, cost scales and backends: low-rank solvers (Wasserstein and Gromov-Wasserstein) return non-negative factors whose marginals are the weights and the common inner marginal, of the requested rank, with values equal to the explicit objective of the plan they represent; low-rank costs and Nystroem kernels equal the dense matrices where they are exact; Sinkhorn on factored kernels performs the dense iterations; weak OT reaches the optimum of its convex problem, also with zero weights; factored OT is a fixed point with both plans optimal.",
  ["inputs", "configurations"], "sizes x ranks x regularisations x initialisations x scales x backends",
  "Tests check marginals of one instance; values, lazy plans, small scales, zero weights and optimality are not compared with anything.",
  ["ot/lowrank.py", "ot/gromov/_lowrank.py", "ot/weak.py", "ot/factored.py"],
  [("low-rank Sinkhorn", "lowrank_sinkhorn, sinkhorn_low_rank_kernel, kernel_nystroem in ot/lowrank.py"), ("low-rank GW", "lowrank_gromov_wasserstein_samples in ot/gromov/_lowrank.py"), ("weak and factored OT", "ot/weak.py, ot/factored.py")],
  "Low-rank problems are not convex: feasibility, objective and descent are decided, not global optimality.",
  ["ot.lowrank", "ot.gromov", "ot.weak", "ot.factored"])

P("C26", "Smooth and stochastic dual solvers follow their regularisers and updates",
  "For all inputs: the conjugates, semi-dual maxima and projections of the smooth regularisers are the exact ones (inputs untouched); smooth OT plans are those of the potentials, sparse as requested, feasible and optimal, for any optimisation method and with zero weights; every state of the stochastic solvers is one reachable by the documented updates for some history of picks; transforms, plans, losses and gradients of the dual formulations are the documented ones on every backend.",
  ["inputs", "histories", "configurations"], "supports x regularisers; all histories of up to three picks; potentials x metrics x backends",
  "Tests compare final plans of one instance at 1e-1 to 1e-5; conjugates on ties and supports, zero weights, update steps and underflow are not tested.",
  ["ot/smooth.py", "ot/stochastic.py"],
  [("regularisers", "delta_Omega, max_Omega, Omega, projection_simplex in ot/smooth.py"), ("smooth OT", "smooth_ot_dual, smooth_ot_semi_dual"), ("stochastic solvers", "ot/stochastic.py")],
  "Sparsity-constrained duals are only checked for sparsity and column mass unless the constraint is inactive. Long stochastic runs only for fixed seeds.",
  ["ot.smooth", "ot.stochastic"])

P("C28", "CO-optimal transport and its unbalanced forms solve each block exactly",
  "For all matrices, weights, priors, regularisations, divergences, solvers, warm starts and backends: COOT plans are couplings, each block is optimal for the other plan, values decrease and equal the explicit objective, and gradients are those of the optimal value; unbalanced COOT returns plans whose reported costs equal the objective summed over all entries, with each block optimal for its subproblem at any iteration budget; fused unbalanced Gromov-Wasserstein is the joint problem on square matrices.",
  ["inputs", "configurations"], "shapes x regularisations x divergences x solvers x budgets x priors x backends",
  "Tests check identity plans and equality between backends; the objective, block optimality, priors, rescaling and gradients are not compared with a definition.",
  ["ot/coot.py", "ot/gromov/_unbalanced.py", "ot/gromov/_utils.py"],
  [("COOT", "co_optimal_transport, co_optimal_transport2 in ot/coot.py"), ("unbalanced", "fused_unbalanced_across_spaces_divergence in ot/gromov/_unbalanced.py"), ("subproblems", "uot_cost_matrix, uot_parameters_and_measures in ot/gromov/_utils.py")],
  "Limits of block coordinate descent are only stationary; the L2 divergence has a recorded finding for its subproblems; JAX runs use few iterations.",
  ["ot.coot", "ot.gromov"])

P("C27", "Regularisation paths are optimal at and between all their breakpoints",
  "For all costs, weights (of equal or different mass) and target regularisations, the fully relaxed and semi-relaxed paths have breakpoints with decreasing coefficients, from the empty (or nearest-row) plan, each of whose plans is the optimum of the L2-penalised problem with that coefficient; the plan interpolated at any coefficient, on or between breakpoints and at both ends, is its optimum too; the returned plan is that of the requested regularisation; paths cut by the iteration limit are beginnings of the full one, their last plan optimal too. The incremental inverses and active sets of every step equal those computed from scratch.",
  ["inputs"], "sizes x weights x costs x regularisations x iteration limits; every breakpoint and segment of the path",
  "Tests check the end of the path on one instance against a known answer; breakpoints, interpolation, truncation and unequal masses are not checked.",
  ["ot/regpath.py"],
  [("paths", "fully_relaxed_path, semi_relaxed_path in ot/regpath.py"), ("inverse updates", "complement_schur in ot/regpath.py"), ("interpolation", "compute_transport_plan in ot/regpath.py")],
  "Generic costs: when two entries enter at the same breakpoint the homotopy method has no guarantee. Only numpy (documented).",
  ["ot.regpath"])

P("C29", "Learned projections and maps optimise their objectives step by step",
  "For all samples, labels, weights, dimensions, parameters and budgets: FDA returns the leading directions of between- against within-class scatter; WDA, from any start, an orthonormal projection that lowers and finally makes stationary the ratio of class Wasserstein distances; projection robust Wasserstein and EWCA follow their documented plan and subspace updates, each of which does not worsen its objective; projections centre the data and inputs stay untouched. Joint OT mappings alternate optimal maps and improving plans, with non-increasing reported losses equal to the objective, until stationary; nearest Brenier potentials satisfy their smoothness and convexity constraints and optimum, and their bounds enclose them.",
  ["inputs", "configurations"], "samples x classes x dimensions x parameters x initialisations x every small budget",
  "Tests check that the projections are orthonormal and that the functions run; objectives, centring, updates, stationarity and constraints are not compared with anything.",
  ["ot/dr.py", "ot/mapping.py"],
  [("discriminant analyses", "fda, wda in ot/dr.py"), ("subspace methods", "projection_robust_wasserstein, ewca in ot/dr.py"), ("mappings", "joint_OT_mapping_linear, joint_OT_mapping_kernel, nearest_brenier_potential_fit in ot/mapping.py")],
  "Non-convex problems: descent and stationarity, not global optimality. FDA at single precision accuracy (its data are split in float32).",
  ["ot.dr", "ot.mapping", "ot.da"])

P("C30", "GW dictionaries, quantized and sampled GW take their documented steps",
  "For all structures (asymmetric too), features, weights, partitions and parameters: linear unmixing returns simplex weights, the embedded structure they give, a coupling, the loss of all these, no worse than its start, with weights optimal for the coupling; dictionary learning only visits dictionaries reachable by the documented projected gradient steps for some order of batches, and returns the one of the best epoch. Quantized plans couple the given weights in the order of the samples, block by block from the global plan of the representants and optimal one-dimensional plans, with the value of the plan, and use the requested partition. Pointwise and sampled solvers only return plans reachable by their documented draws; estimates are exact for deterministic plans.",
  ["histories", "inputs", "configurations"], "structures x weights x parameters; all partitions of both graphs; all draws up to two iterations; all orders of batches",
  "Tests check marginals under uniform weights (which permuted plans satisfy) and that functions run; objectives, updates, blocks and reachable plans are not compared.",
  ["ot/gromov/_dictionary.py", "ot/gromov/_quantized.py", "ot/gromov/_estimators.py"],
  [("dictionaries", "ot/gromov/_dictionary.py"), ("quantized", "ot/gromov/_quantized.py"), ("estimators", "ot/gromov/_estimators.py")],
  "Unmixing alternates between two blocks: no global optimality. Couplings inside the dictionary steps are those of the unmixing functions. Statistical accuracy of the estimates is outside.",
  ["ot.gromov"])
