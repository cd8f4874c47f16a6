#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
B = "ais_benchmarks/"
D = B + "distributions/"
S = B + "sampling_methods/"
def P(id, title, statement, over, text, why, files, mech, observe, state=()):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mech],
                             observe_at=observe, hook_needed=None))
props = [
P("C01", "Density and log-density agree at every point",
  "For every distribution with a density (normal, uniform, delta, exponential, mixture, Gaussian mixture, the BenchDen densities, banana, and any distribution built from a user's likelihood or log-likelihood function) and every point, the value returned by prob equals the exponential of the value returned by log_prob. In particular a point of zero density has log-density minus infinity, inside or outside the support, before or after the moments or weights are changed.",
  ["inputs", "configurations"], "all parameters, dimensions, batch sizes and points, including points outside the support and on its boundary",
  "The tests evaluate a normal and a uniform at a handful of points (mostly inside the support); five of the densities have no test at all.",
  [D+"parametric/CMultivariateNormal.py", D+"parametric/CMultivariateUniform.py", D+"parametric/CMultivariateDelta.py", D+"parametric/CMultivariateExponential.py", D+"mixture/CMixtureModel.py", D+"mixture/CGaussianMixtureModel.py", D+"benchden/d03_maxwell.py", D+"benchden/d04_laplace.py", D+"benchden/d10_symmetric_pareto.py", D+"rare/banana2d.py", D+"distributions.py"],
  [("prob / log_prob of every distribution class", D)], ["prob", "log_prob"]),
P("C02", "Batch evaluation is row-wise and shape-checked",
  "Evaluating the density or log-density of N points of dimension d, given as an N x d array, returns exactly N values in order, and each value depends only on its own row, so it equals the value obtained by evaluating that row alone. A single point given as a 1-D vector of length d is treated as a batch of one, and points of any other dimension, or arrays of more than two axes, are rejected with an error.",
  ["inputs", "configurations"], "all batch sizes N, dimensions d, row contents and row orders, for every distribution class",
  "The tests use a few fixed batch shapes of two distributions; independence of rows quantifies over all other rows and all N.",
  [D+"distributions.py", D+"parametric", D+"mixture", D+"benchden", D+"rare/banana2d.py"],
  [("_check_shape", D+"distributions.py"), ("vectorised prob / log_prob", D)], ["prob", "log_prob"]),
P("C03", "Normal density matches its closed form, also after re-parameterising",
  "The log-density of the multivariate normal with mean m and covariance C at x is -(d log(2 pi) + log det C + (x-m)' C^-1 (x-m))/2 for every dimension d. After the mean and covariance are replaced, densities and samples use the new mean and covariance only, and a covariance that is not d x d or whose determinant is not positive is rejected.",
  ["inputs", "histories"], "all dimensions, means, covariances with positive determinant, points, and sequences of moment updates",
  "One test class with fixed 1-D/2-D parameters; nothing re-parameterises a normal and evaluates it again, which is what every adaptive sampler does.",
  [D+"parametric/CMultivariateNormal.py"], [("set_moments caches det, inverse, log det", D+"parametric/CMultivariateNormal.py"), ("log_prob", D+"parametric/CMultivariateNormal.py")],
  ["CMultivariateNormal.prob/log_prob/sample/set_moments"],
  [("inv_cov, log_det, term2", "cached functions of the covariance", D+"parametric/CMultivariateNormal.py")]),
P("C04", "Uniform and delta densities, supports and region integrals are exact",
  "The uniform on a box has density 1/volume at every point inside the box, zero at every point outside it, and its support is that box. Its integral over any region [a,b] is the volume of the overlap with the box divided by the box's volume, so it lies in [0,1], is 1 for a region containing the box and 0 for a disjoint one. The delta is zero away from its centre, and its integral over a region is 1 if the region contains the centre strictly inside and 0 if it does not.",
  ["inputs", "configurations"], "all centres, radii (scalar or per dimension), dimensions, points and regions",
  "The tests integrate three or four overlapping intervals; disjoint or partially overlapping boxes in several dimensions and the delta are never tried.",
  [D+"parametric/CMultivariateUniform.py", D+"parametric/CMultivariateDelta.py", D+"benchden/d01_uniform.py"],
  [("integral", D+"parametric/CMultivariateUniform.py"), ("integral", D+"parametric/CMultivariateDelta.py")], ["prob", "log_prob", "integral", "support"]),
P("C05", "Exponential, BenchDen and banana densities match their definitions",
  "At every point, the exponential with mean m has density prod_i exp(-x_i/m_i)/m_i on positive x and zero elsewhere, the Maxwell density is x exp(-x^2/2) on positive x and zero elsewhere, the Laplace density is exp(-|x|)/2, the symmetric Pareto density is 1/(4(1+|x|)^(3/2)), the BenchDen uniform is uniform on [0,1], and the banana is exp(-(0.03 x1^2 + (x2 + 0.03(x1^2-100))^2)/2).",
  ["inputs"], "all points (inside, outside and on the boundary of the support), batch sizes, and means",
  "None of these densities has a test.",
  [D+"parametric/CMultivariateExponential.py", D+"benchden", D+"rare/banana2d.py"],
  [("log_prob / prob", D+"benchden")], ["prob", "log_prob"]),
P("C06", "Mixture weights always form a probability vector",
  "Whatever weights a mixture is given, at construction or later, the weights it uses are non-negative, sum to one and are proportional to the valid (positive) weights it was given; NaN, negative and zero weights count as zero, and if none is valid all components get equal weight. The caller's weight array is left unchanged and a weight vector of the wrong length is rejected.",
  ["inputs", "histories"], "all numbers of components and all weight vectors, including NaN, negative, zero and unnormalised ones",
  "No test constructs a mixture with degenerate weights, but the adaptive samplers produce them.",
  [D+"mixture/CMixtureModel.py"], [("set_weights", D+"mixture/CMixtureModel.py")], ["CMixtureModel.weights"]),
P("C07", "Mixture density is the weighted average of its components",
  "For every point the density of a mixture is the sum over components of weight times component density, and its log-density is the logarithm of that sum, with components of zero weight contributing nothing. A Gaussian mixture is the mixture of normals with the given means and with the given vectors as diagonal covariances, equally weighted when no weights are given.",
  ["inputs", "configurations", "histories"], "all component lists, weights (before and after reweighting) and points",
  "The mixture is only exercised indirectly through divergence tests on a few Gaussian mixtures.",
  [D+"mixture/CMixtureModel.py", D+"mixture/CGaussianMixtureModel.py"], [("log_prob / prob", D+"mixture/CMixtureModel.py")], ["prob", "log_prob"]),
P("C08", "Sampling returns n points of dimension d from the support",
  "Asking any distribution that can be sampled (normal, uniform, delta, exponential, mixture, Gaussian mixture) for n samples returns an n x d array. Samples of the uniform lie in its box, of the delta at its centre, of the exponential in the positive orthant, and each sample of a mixture is drawn from a component of positive weight, chosen with the mixture's weights.",
  ["inputs", "configurations"], "all n >= 1, dimensions, parameters, and all outcomes of the random source",
  "The tests check sample moments of two distributions for a few n; shapes and membership must hold for all n, d and random outcomes.",
  [D+"parametric", D+"mixture"], [("sample", D)], ["sample"]),
P("C09", "KL divergence metric is the normalised discrete KL of the two densities",
  "Evaluated on a set of points, the KL metric between p and q equals sum_i P_i log(P_i/Q_i), where P and Q are the densities of p and q at the points where both are positive, each normalised to sum to one. It is therefore never negative, zero when the densities are proportional, unchanged when either density is scaled, and the returned value is also the metric's stored value.",
  ["inputs"], "all numbers of points, all pairs of (log-)density values including zero densities, scale factors",
  "Tests compare two or three normals to a closed form with a loose tolerance.",
  [B+"metrics/divergences.py"], [("compute_from_samples, compute_from_log_probs, compute_from_probs", B+"metrics/divergences.py")], ["CKLDivergence.compute", "CKLDivergence.value"]),
P("C10", "Jensen-Shannon metric is symmetric, within [0,1], and zero on equal densities",
  "Evaluated on a set of points, the JSD metric equals the base-2 Jensen-Shannon divergence of the two densities normalised over the points where both are positive (points with NaN or zero density on either side are ignored). It is symmetric in its arguments, lies in [0,1], is zero for proportional densities, and the returned value is also the metric's stored value.",
  ["inputs"], "all numbers of points and all pairs of density values including zeros and NaN",
  "The JSD tests compare a few Gaussian pairs against stored numbers, and part of them fail already.",
  [B+"metrics/divergences.py"], [("CJSDivergence.compute_from_samples", B+"metrics/divergences.py")], ["CJSDivergence.compute", "CJSDivergence.value"]),
P("C11", "Expected-value metric is the squared distance between weighted means",
  "Evaluated on a set of points, the EVMSE metric equals the squared Euclidean distance between the mean of the points weighted by p's normalised densities and the mean weighted by q's. It is non-negative, symmetric, zero when the densities are proportional, and the evaluation points are drawn uniformly from p's support with the requested count.",
  ["inputs", "configurations"], "all numbers of points, dimensions, and density values with positive total",
  "There is no test of this metric.",
  [B+"metrics/statistics.py", B+"metrics/divergences.py"], [("compute_from_samples", B+"metrics/statistics.py")], ["CExpectedValueMSE.compute", "CExpectedValueMSE.value"]),
P("C12", "Time and memory metrics accumulate measured intervals and reset to zero",
  "After any sequence of start/stop measurements since the last reset, the time metric's value is the sum of the measured intervals, each reduced by the fixed calibration overhead, and the memory metric's value is the sum of heap growth over the intervals in megabytes. Resetting either metric makes its value zero and leaves the calibration unchanged, and reading the value changes nothing.",
  ["histories"], "all sequences of start, stop, read and reset, and all clock and heap readings",
  "Tests time two or three sleeps and never reset after measuring memory.",
  [B+"metrics/performance.py"], [("pre/post/compute/reset", B+"metrics/performance.py")], ["CElapsedTime.value", "CMemoryUsage.value"],
  [("value, mem_cum, overhead", "accumulated measurement and calibration", B+"metrics/performance.py")]),
P("C13", "Importance weights are target density over proposal density",
  "Each sample returned by the importance samplers (DM-AIS, layered AIS, mixture PMC, HiDaisee, and the simple tree pyramid without resampling in the first request after construction or reset) carries a weight proportional to the target density at that sample divided by the density, at that sample, of the proposal the method weights against: the full mixture as it was when the sample was drawn for DM-AIS, layered AIS and mixture PMC, the distribution of the cell the sample was drawn from for the simple tree pyramid, and the uniform distribution of the cell that holds the sample for HiDaisee. Within one batch all weights share one constant of proportionality.",
  ["inputs", "histories", "configurations"], "all targets, parameters, sample values, batch sizes and numbers of adaptation rounds",
  "No test runs a sampling method.",
  [S+"dm_ais.py", S+"layered_ais.py", S+"m_pmc.py", S+"tree_pyramid.py", S+"hi_daisee.py"],
  [("importance_sample", S), ("CTreePyramidNode.weigh", S+"tree_pyramid.py")], ["importance_sample"]),
P("C14", "Samplers return aligned samples and weights and keep earlier ones",
  "Every sampling method returns as many weights as samples, one d-dimensional row per sample, with weights that are never negative. Unless it runs out of time it returns at least the number of samples asked for, asking again for more extends the set, so that samples returned before (DM-AIS, layered AIS, mixture PMC, rejection, Metropolis-Hastings, nested) are still there, first and in the same order.",
  ["inputs", "histories"], "all sequences of requests, batch parameters, targets and random outcomes",
  "No test runs a sampling method; the property quantifies over sequences of calls.",
  [S+"base.py", S+"dm_ais.py", S+"layered_ais.py", S+"m_pmc.py", S+"rejection.py", S+"metropolis_hastings.py", S+"nested.py", S+"multi_nested.py", S+"tree_pyramid.py", S+"hi_daisee.py"],
  [("importance_sample accumulation loop", S)], ["importance_sample", "samples", "weights"],
  [("samples, weights", "all samples so far and their weights", S+"base.py")]),
P("C15", "Evaluation counters report what was actually evaluated",
  "At any time since the last reset, the reported number of target evaluations equals the number of points at which the target density was evaluated, and the reported number of proposal samples equals the number of points drawn from proposal distributions, for rejection sampling, DM-AIS, layered AIS, mixture PMC, Metropolis-Hastings, nested, multi-nested, tree pyramid and HiDaisee. The statistics summary reports the same numbers.",
  ["inputs", "histories", "configurations"], "all sequences of sampling requests, targets, parameters, random outcomes and time limits",
  "No test runs a sampling method, yet these counts are columns of every result file.",
  [S], [("_num_pi_evals, _num_q_samples updates", S)], ["num_target_evals", "num_proposal_samples", "get_stats"],
  [("_num_pi_evals, _num_q_samples", "evaluation counters", S+"base.py")]),
P("C16", "Reset returns a sampler to its initial state",
  "After reset, whatever was sampled before, a sampling method has no samples and no weights, all its counters are zero, and its proposals, tree, live points, chain state or model are again those of a newly constructed sampler with the same parameters and random source. Nothing computed before the reset influences results after it.",
  ["histories"], "all sequences of sampling before the reset, for every sampling method",
  "No test resets a sampler; the benchmark relies on it between repetitions.",
  [S], [("reset", S)], ["reset", "samples", "weights", "get_stats"]),
P("C17", "Samples stay inside the sampling space",
  "Every sample returned by Metropolis-Hastings, nested, multi-nested and HiDaisee sampling, and every proposal centre that layered AIS adapts, lies within the configured lower and upper limits of the sampling space in every dimension. So do the nested samplers' live points.",
  ["inputs", "histories"], "all spaces, targets, proposal outcomes, and numbers of steps",
  "No test runs a sampling method.",
  [S+"metropolis_hastings.py", S+"nested.py", S+"multi_nested.py", S+"layered_ais.py", S+"hi_daisee.py"],
  [("np.clip on proposals", S)], ["importance_sample", "live_points", "proposals"]),
P("C18", "Markov-chain moves follow the Metropolis-Hastings rule",
  "In Metropolis-Hastings a proposed move from x to x' becomes the chain's state only if a fresh uniform draw u satisfies log u < log p(x') - log p(x) + log q(x - x') - log q(x' - x), where q is the configured proposal; otherwise the state stays x, also when time runs out. In layered AIS each adaptation step moves a proposal's centre to the proposed point exactly when a fresh uniform draw is below the ratio of target densities, performs exactly the configured number of steps per proposal, and leaves every proposal's covariance at the configured value.",
  ["inputs", "histories"], "all targets, proposals (symmetric or not), states and random outcomes",
  "No test runs a chain.",
  [S+"metropolis_hastings.py", S+"layered_ais.py"], [("mcmc_step", S+"metropolis_hastings.py"), ("mcmc_mh", S+"layered_ais.py")], ["importance_sample", "current_sample", "proposals"]),
P("C19", "Rejection sampling accepts exactly by the density ratio",
  "Rejection sampling keeps a proposed point exactly when an independent uniform draw is below target density / (scaling x proposal density) at that point, keeps accepted points in order, never draws more proposals in a round than samples still missing, never returns more samples than requested, and gives all returned samples equal weights summing to one.",
  ["inputs", "histories"], "all targets, proposals, scalings, random outcomes, numbers of samples and rounds",
  "No test runs rejection sampling.",
  [S+"rejection.py"], [("importance_sample", S+"rejection.py")], ["importance_sample"]),
P("C20", "Nested samplers replace the worst point and weight by prior-mass shells",
  "Each step of nested sampling (and of multi-nested sampling, within the cluster being sampled) outputs a live point of lowest target density together with that density, and replaces that point, and no other live point, by a proposed one whose density is not lower, unless time or the cluster's volume runs out. The i-th sample's weight is proportional to its density times the prior-mass shell, which is 1 for the first sample and exp(-(i-1)/N) - exp(-i/N) for sample i >= 1 (counting from zero), with N the number of live points, and the weights sum to one when any density is positive.",
  ["inputs", "histories"], "all targets, live point sets, proposal outcomes, numbers of steps and requests",
  "No test runs nested sampling.",
  [S+"nested.py", S+"multi_nested.py"], [("importance_sample, resample", S+"nested.py")], ["importance_sample", "live_points", "weights"]),
P("C21", "Tree-pyramid cells tile the space and the bookkeeping stays consistent",
  "Subdividing a cell of the tree pyramid in d dimensions creates 2^d children of half its radius which together cover the cell, overlap only on boundaries, and share its weight equally. After any sequence of subdivisions the leaf list, leaf flags, per-node caches of centres, radii, samples and weights, and the nodes' own indices all describe the same tree, every leaf is listed exactly once, and locating a point in the space returns a leaf containing it.",
  ["inputs", "histories"], "all spaces, dimensions, points and sequences of subdivisions",
  "The tree has no test; the invariant quantifies over all subdivision sequences.",
  [S+"tree_pyramid.py"], [("CTreePyramid.expand, find, get_child", S+"tree_pyramid.py")], ["CTreePyramid.leaves/nodes/centers/radii/leaves_idx/find"],
  [("leaves, leaves_idx, nodes, centers, radii, samples, weights", "parallel views of one tree", S+"tree_pyramid.py")]),
P("C22", "HiDaisee splits partition the cell and lose no sample",
  "Splitting a HiDaisee cell halves it along one dimension into two cells which together are exactly the parent cell. Every sample of the parent ends up in exactly one of the two, in the one that contains it, with weight target density / that child's density, the two children share the parent's value equally and replace it in the leaf list, and each cell's sample count and effective sample size match its stored weights.",
  ["inputs", "histories"], "all cells, sample sets (including samples on the split plane), targets and sequences of splits",
  "HiDaisee has no test.",
  [S+"hi_daisee.py"], [("CHiDaiseeTree.split, CHiDaiseeNode.add_sample", S+"hi_daisee.py")], ["CHiDaiseeTree.nodes/leaves", "node.samples/weights/N/ESS"]),
P("C23", "Proposal adaptation follows the published update rules",
  "In DM-AIS each proposal's mean is replaced by one of the samples just drawn, chosen with probability proportional to its importance weight and never one of zero weight, with the covariance unchanged. In mixture PMC each component's weight, mean and covariance become the weighted total posterior, the weighted average of the samples, and the weighted average of the outer products of their deviations from the new mean, with component weights renormalised and used by the mixture (a covariance that is not finite, is singular or has an entry above the cap is replaced by the fail-safe one, and a component or a batch without any weight changes nothing).",
  ["inputs", "histories"], "all batches of samples, importance weights, posteriors, component counts and dimensions",
  "No test runs an adaptive sampler.",
  [S+"dm_ais.py", S+"m_pmc.py"], [("resample", S+"dm_ais.py"), ("adapt", S+"m_pmc.py")], ["proposals", "wproposals", "model"]),
P("C24", "Acceptance rate and effective sample size are correct and scale-free",
  "The acceptance rate is the number of kept samples divided by the number of proposal samples drawn. The importance-sampling effective sample size reported (for rejection and Metropolis-Hastings the approximate one, whose other figure is about autocorrelation), normalised by the number of samples, equals (sum w)^2 / (n sum w^2) for the current weights, so it lies in (0,1], is 1 for equal weights, does not change when all weights are scaled, and for nested sampling equals exp of the weights' entropy divided by n, where zero weights contribute nothing.",
  ["inputs", "histories"], "all numbers of samples and all non-negative weight vectors with positive sum",
  "No test computes these statistics.",
  [S+"base.py", S+"nested.py", S+"multi_nested.py", S+"tree_pyramid.py"], [("get_NESS, get_approx_NESS, get_acceptance_rate", S+"base.py")], ["get_NESS", "get_acceptance_rate"]),
P("C25", "Every result row lines up with the result file's header",
  "Each row appended to a result file has exactly as many whitespace-separated fields as the header has columns, and each field is the value its column names: dimension, number of samples, the metrics in the configured order, effective sample size, method, target, acceptance rate, proposal samples, proposal evaluations, target evaluations. This holds for every selection and order of distinct implemented metrics and every size of the values, given names without whitespace.",
  ["inputs", "configurations"], "all metric selections and orders, all metric values however large or small, all counter values",
  "No test runs the benchmark; column merging only appears for particular value widths.",
  [B+"benchmark/CBenchmark.py"], [("write_results; header construction", B+"benchmark/CBenchmark.py")], ["result file"]),
P("C26", "Evaluation resets per repetition and stops at the sample or time limit",
  "Evaluating a method performs exactly the requested number of repetitions; each starts from a reset method and reset metrics and asks for samples in increments of the batch size beyond what it already has until at least the maximum number of samples is obtained, or the accumulated sampling time exceeds the time limit. Each iteration measures only the sampling call, gives it only the remaining time, and records one row; with a non-negative seed the random source is seeded once at the start.",
  ["inputs", "histories", "configurations"], "all batch sizes, sample limits, time limits, numbers of repetitions, metric lists and sampler behaviours",
  "No test runs the evaluation loop.",
  [B+"benchmark/CBenchmark.py"], [("evaluate_method", B+"benchmark/CBenchmark.py")], ["evaluate_method", "result file", "calls on the sampling method"]),
P("C27", "Benchmark configuration is loaded faithfully and replaces what was there",
  "Loading a benchmark, a method or a run configuration file makes the benchmark's targets, limits, batch sizes, methods and settings exactly those the file lists, in the file's order with their names and parameters, and nothing of what was loaded before remains. Methods are created with exactly the given space limits and dimension (texts among a method's parameters are Python expressions).",
  ["configurations", "histories"], "all well-formed configuration files and all sequences of loads",
  "No test loads a configuration.",
  [B+"benchmark/CBenchmark.py"], [("load_methods, load_config, load_benchmark", B+"benchmark/CBenchmark.py")], ["targets", "ndims", "nsamples", "eval_sampl", "batch_sizes", "methods"]),
P("C28", "Grid, egg-box and random-mixture generators respect their box",
  "A grid over a box has in each dimension max(1, floor(range/resolution)) equally spaced values from the lower to the upper limit, contains every combination of them exactly once, and reports its shape. Egg-box mixtures, and random Gaussian mixtures on a box at least ten of the largest spread wide, have all component means inside it, the requested spreads, non-negative weights summing to one, and a support containing every mean plus and minus five spreads; elapsed seconds split into hours, minutes below 60 and seconds below 60 that add up to the total.",
  ["inputs"], "all boxes, resolutions, dimensions, component counts, spreads, random outcomes and durations",
  "None of the utilities has a test.",
  [S+"base.py", B+"utils/misc.py", B+"utils/plot_utils.py"], [("make_grid", S+"base.py"), ("generateRandomGMM, generateEggBoxGMM, time_to_hms", B+"utils/misc.py")], ["make_grid", "generateEggBoxGMM", "generateRandomGMM", "time_to_hms"]),
P("C29", "Smoothing kernels and kernel density estimates are valid densities",
  "The normal, uniform, triangular and Epanechnikov kernels equal their textbook profiles at every point: non-negative, symmetric, and, except for the normal, zero beyond distance one. A one-dimensional kernel component with location l and inverse bandwidth b has density b times the profile at (x-l)b, and a kernel density estimate is the weighted mixture of one such component per sample with the normalised sample weights.",
  ["inputs", "configurations"], "all points, locations, bandwidths, sample sets and weights",
  "There is no test of kernels or of the kernel density estimate.",
  [D+"distributions.py", D+"nonparametric/CKernelDensity.py"], [("CKernel", D+"distributions.py"), ("CKernelDensity.fit", D+"nonparametric/CKernelDensity.py")], ["CKernel.prob", "CKernelDensity.prob"]),
]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(props))
