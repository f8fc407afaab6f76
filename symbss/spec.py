"""Statements of the properties; tools/gen.py writes properties.jsonl and
MANIFEST.json from here and from the checks."""

NP = "fast_bss_eval/numpy/"
TH = "fast_bss_eval/torch/"


def both(*names):
    return [NP + n for n in names] + [TH + n for n in names]


M = ["fast_bss_eval/numpy/metrics.py", "fast_bss_eval/torch/metrics.py"]
H = ["fast_bss_eval/numpy/helpers.py", "fast_bss_eval/torch/helpers.py"]
G = ["fast_bss_eval/numpy/linalg.py", "fast_bss_eval/torch/linalg.py"]
C = ["fast_bss_eval/numpy/cgd.py", "fast_bss_eval/torch/cgd.py"]
S = ["fast_bss_eval/numpy/scale_invariant.py", "fast_bss_eval/torch/scale_invariant.py"]
I = ["fast_bss_eval/__init__.py"]
HU = ["fast_bss_eval/torch/hungarian.py"]

# id: (title, statement, over, quantifier text, why tests cannot, files, mechanisms)
SPEC = {
    "C01": (
        "SDR is the energy ratio of the projection on the delayed reference",
        "For every audible reference and estimate with a regular filter system, the SDR returned for a pair equals 10 log10 of the energy "
        "of the least-squares projection of the estimate on the reference delayed by 0..filter_length-1 samples, divided by the energy of "
        "the residual. This holds for both backends, every number of channels and samples, every filter length (also longer than the "
        "signals) and every batch shape, up to rounding.",
        ["inputs", "configurations"],
        "all sample values, numbers of references / estimates / samples, filter lengths, batch shapes, both backends",
        "The tests compare a few random or fixed signals with mir_eval at a handful of lengths; correlations that wrap around, wrong lags or "
        "transform sizes only show at particular length / filter combinations and sample positions.",
        M + G + H,
        [("statistics by FFT", "compute_stats in metrics.py"), ("Toeplitz system", "toeplitz in linalg.py, sdr_loss in metrics.py"),
         ("coherence to decibels", "_coherence_to_neg_sdr in helpers.py"), ("one tap", "square_cosine_metrics_length_one_filter in metrics.py")],
    ),
    "C02": (
        "SIR and SAR follow the BSS Eval decomposition",
        "For audible signals and a regular system of all delayed references, bss_eval_sources returns for each pair SDR, SIR and SAR equal "
        "to the ratios target/(interference+artifacts), target/interference and (target+interference)/artifacts, where target is the "
        "projection of the estimate on the delays of its reference, target+interference the projection on the delays of all references and "
        "artifacts the rest. This holds with and without permutation, for every channel count, length and batch shape, in both backends.",
        ["inputs", "configurations"],
        "all sample values, channel counts, lengths, filter lengths, batch shapes, compute_permutation on/off, both backends",
        "Tests sample a few random signals; an error confined to some lag, channel pair or size of the block system is not visible on them.",
        M + G + H,
        [("statistics of all pairs", "compute_stats_2 in metrics.py"), ("block Toeplitz system", "block_toeplitz in linalg.py"),
         ("decomposition", "square_cosine_metrics, bss_eval_sources in metrics.py")],
    ),
    "C03": (
        "NumPy and PyTorch backends return the same metrics and permutation",
        "For the same audible, regular signals and options, every public function returns the same values, shapes and number of outputs "
        "whether the inputs are NumPy arrays or PyTorch tensors (permutations may differ only between assignments of equal total).",
        ["inputs", "configurations"],
        "all sample values and options (zero_mean, clamp_db, load_diag, filter_length, permutation flags), all public functions",
        "Tests compare the backends on random draws with default-like options; a divergence limited to an option, size or branch escapes.",
        I + M + H + G + S,
        [("dispatch by type of the first argument", "_dispatch_backend in __init__.py"), ("twin implementations", "numpy/ and torch/ packages")],
    ),
    "C04": (
        "SDR functions return an optimal one-to-one assignment",
        "sdr, si_sdr and the PIT losses assign estimates to references one-to-one (min(n_ref, n_est) pairs) with the smallest possible total "
        "loss, i.e. no other assignment has a larger total SDR, and the values returned are exactly those of the assigned pairs. This holds "
        "for every matrix of losses (ties included), every number of references and estimates, each batch entry and both backends.",
        ["inputs", "configurations"],
        "all possible orderings and ties of the pairwise losses, n_ref < = > n_est, batches, clamping, both backends",
        "Tests use a few random permutations of nearly separated sources; wrong assignments need particular orderings or ties of the losses.",
        H + HU + M,
        [("assignment", "_solve_permutation, _linear_sum_assignment_with_inf in helpers.py"), ("own Hungarian solver", "torch/hungarian.py")],
    ),
    "C05": (
        "bss_eval_sources assigns by SIR and gathers all metrics alike",
        "With permutation, bss_eval_sources returns a one-to-one assignment whose total SIR is maximal, and SDR, SIR and SAR of exactly the "
        "assigned pairs, for every ordering of the SIRs, every number of references and estimates, each batch entry and both backends.",
        ["inputs", "configurations"],
        "all possible orderings and ties of the pairwise SIRs, n_ref < = > n_est, batches, both backends",
        "Tests use random signals whose SDR, SIR and SAR rank the pairs alike, so gathering by another metric or transposing one of the "
        "three goes unnoticed.",
        H + HU + M + S,
        [("assignment on negative SIR", "bss_eval_sources in metrics.py"), ("gathering of extra metrics", "_solve_permutation in helpers.py")],
    ),
    "C06": (
        "The assignment is optimal and never fails when losses are infinite",
        "When pairwise losses are all finite or +inf (a reference absent from an estimate, a silent estimate), or all finite or -inf (exact "
        "copies), including all infinite, the metrics are returned without error and the assignment uses as few +inf (as many -inf) losses "
        "as possible and among those has the smallest finite total. An estimate without any trace of a reference has SDR -inf with it, an "
        "exact scaled copy +inf.",
        ["inputs", "configurations"],
        "all positions of infinite losses and all values of the finite ones; mixtures of +inf and -inf are excluded (rejected by design)",
        "Infinite losses never occur with random signals; the placeholder arithmetic depends on the values of the finite losses.",
        H + HU,
        [("placeholder for infinite entries", "_linear_sum_assignment_with_inf in helpers.py"), ("coherence clipping", "_coherence_to_neg_sdr in helpers.py")],
    ),
    "C07": (
        "clamp_db cuts every metric at +-clamp_db and changes nothing else",
        "With clamp_db = c every returned metric equals min(max(x, -c), c) (up to rounding), where x is the metric of the same pair without "
        "clamping, so it is finite and within [-c, c] also for exact copies and absent references. This holds for every c >= 0, all functions, "
        "both backends.",
        ["inputs", "configurations"],
        "all sample values, clamp levels from 0 to 300 dB, all functions accepting clamp_db",
        "Tests check the range for one level on random signals; the limits, perfect estimates and large levels are not sampled.",
        H + M + S,
        [("clamping in the coherence and ratio domain", "_db_clamp_eps, _coherence_to_neg_sdr in helpers.py")],
    ),
    "C08": (
        "Metrics do not depend on the scale or polarity of any channel",
        "Multiplying any reference or estimate channel by any nonzero gain (keeping it audible) changes neither the metrics nor the "
        "assignment, for all functions, options and both backends.",
        ["inputs", "configurations"],
        "all sample values and all per-channel gains of either sign",
        "Tests scale by a few constants; per-channel gains, signs and options are not covered.",
        M + H,
        [("normalisation of every channel", "_normalize in helpers.py")],
    ),
    "C09": (
        "Reordering the channels only reorders the results",
        "Permuting the references and/or the estimates permutes the metrics and the returned assignment accordingly and changes no value "
        "(ties aside), for all functions, rectangular problems and both backends.",
        ["inputs", "configurations"],
        "all sample values and channel permutations, n_ref < = > n_est",
        "Tests permute one random draw; position-dependent mistakes need particular channel counts and orders.",
        M + H + G,
        [("pairwise statistics", "compute_stats, compute_stats_2 in metrics.py"), ("assignment", "_solve_permutation in helpers.py")],
    ),
    "C10": (
        "Each batch entry is evaluated on its own",
        "For any leading batch shape, the metrics and assignment of every batch entry equal those obtained by evaluating that entry alone; "
        "output shapes are the batch shape followed by the shape of a single evaluation.",
        ["inputs", "configurations"],
        "all sample values, batch shapes, options, iterative solver included",
        "Tests compare shapes or one batch dimension with equal contents; leakage between entries needs asymmetric contents and several dimensions.",
        M + H + G + C,
        [("batched linear algebra and assignment loop", "metrics.py, linalg.py, _solve_permutation in helpers.py")],
    ),
    "C11": (
        "The si_ functions are the scale-invariant (one tap) metrics",
        "Every si_ function returns what its general counterpart returns with filter_length=1, and SI-SDR equals |a s|^2/|e - a s|^2 in "
        "decibels with a = <e,s>/<s,s>, for all signals and options.",
        ["inputs", "configurations"],
        "all sample values, channel counts, options, both backends",
        "Tests compare a few random signals with fixed options.",
        S + M,
        [("delegation", "scale_invariant.py"), ("one-tap metrics", "square_cosine_metrics_length_one_filter in metrics.py")],
    ),
    "C12": (
        "zero_mean removes the mean of every channel and nothing else",
        "With zero_mean=True the results equal those of zero_mean=False on signals whose channels were centered, so adding a constant to any "
        "channel has no effect; with zero_mean=False nothing is removed.",
        ["inputs", "configurations"],
        "all sample values and per-channel offsets, all functions, options, solvers, batches",
        "Test signals are zero-mean noise or speech: the option has no visible effect on them.",
        M + H,
        [("mean removal", "_remove_mean in helpers.py, zero_mean branches in metrics.py")],
    ),
    "C13": (
        "load_diag regularises every filter system by the given amount",
        "load_diag = d adds d times the energy of each reference to the diagonal entries of the filter system(s) and changes nothing else; "
        "the metrics are those of the loaded system, for filter lengths of two or more (SAR: any length).",
        ["inputs", "configurations"],
        "all sample values, loads, functions with load_diag, direct solver, batches",
        "Tests only check that silent references give no exception or NaN; the amount and place of the loading is not checked.",
        M,
        [("loading of the autocorrelation", "sdr_loss, square_cosine_metrics in metrics.py")],
    ),
    "C14": (
        "All entry points agree up to argument order, sign and gathering",
        "Losses are the negated metrics with swapped arguments; the plain loss is the diagonal of the pairwise loss; the PIT loss, sdr and "
        "bss_eval_sources gather the pairwise values along the returned integer permutation; return_perm, change_sign and "
        "compute_permutation only add, negate or drop what they say, and all output shapes are as documented.",
        ["inputs", "configurations"],
        "all sample values, channel counts, flags and options",
        "Tests check shapes and a few equalities for random square problems.",
        I + M + S,
        [("public wrappers", "__init__.py, sdr / sdr_loss / sdr_pit_loss / bss_eval_sources in metrics.py, scale_invariant.py")],
    ),
    "C15": (
        "The iterative solver computes the same filters as the direct one",
        "With use_cg_iter = n the metrics are those of n steps of preconditioned conjugate gradient on the same filter system: with as many "
        "iterations as unknowns they equal the direct solution (up to the solver's numerical floors), both backends agree at any number of "
        "iterations, and exact initial guesses are left unchanged.",
        ["inputs", "configurations"],
        "all sample values (bounded slices for the larger systems), iteration counts, options, both backends",
        "Tests compare 10+ iterations with a loose tolerance on random well-conditioned signals.",
        C + M,
        [("conjugate gradient", "conjugate_gradient and the Toeplitz / circulant operators in cgd.py")],
    ),
    "C16": (
        "Inputs are never modified; results do not depend on layout or history",
        "No public call changes its input arrays or tensors; results depend only on the values, not on strides or memory order, on earlier "
        "calls, or on the two arguments being the same object.",
        ["inputs", "configurations", "histories"],
        "all sample values, memory layouts, options, repeated calls, aliased arguments",
        "Tests use fresh contiguous arrays once; an in-place update on a view only shows for particular options and layouts.",
        M + H + S,
        [("out-of-place arithmetic", "metrics.py, helpers.py")],
    ),
    "C17": (
        "Gradients of the PyTorch losses are the derivatives of the losses",
        "Back-propagation through the PyTorch losses yields, for every sample of estimates and references, the mathematical derivative of the "
        "returned values: zero where the value is clamped and, for PIT losses and metrics, the derivative along the chosen assignment only.",
        ["inputs", "configurations"],
        "all sample values, losses, options, estimates and references",
        "Tests check gradients at random points or not at all; detached or in-place steps only alter the gradient, not the value.",
        [TH + "metrics.py", TH + "helpers.py", TH + "linalg.py", TH + "scale_invariant.py"],
        [("differentiable operations end to end", "torch/metrics.py, torch/helpers.py"), ("assignment without gradient", "torch/helpers.py")],
    ),
    "C18": (
        "Silent channels are harmless and leave the other channels alone",
        "A silent (all-zero) estimate gets SDR, SIR and SAR -inf (-clamp_db when clamped) and changes no value of the other channels. With load_diag "
        "a silent reference likewise gets SDR and SIR -inf (or -clamp_db) and the metrics of all other pairs are those computed without that "
        "reference. No metric is NaN in these cases.",
        ["inputs", "configurations"],
        "all sample values of the other channels, position of the silent channel, options, both backends",
        "Tests only check that no NaN appears for one silent reference.",
        M + H,
        [("normalisation floor", "_normalize in helpers.py"), ("diagonal loading", "metrics.py")],
    ),
    "C19": (
        "Zero padding or delaying all signals together changes nothing",
        "Appending or prepending the same number of zeros to all references and estimates changes no metric (without zero_mean), whatever the "
        "resulting length and filter length.",
        ["inputs", "configurations"],
        "all sample values, signal lengths, pad lengths and filter lengths",
        "Tests use fixed lengths far from transform-size boundaries.",
        M + G,
        [("FFT sizes", "compute_stats, compute_stats_2 in metrics.py")],
    ),
    "C20": (
        "Filtered references count as target, their mixtures have no artifacts",
        "An estimate that is its reference filtered by at most filter_length taps has infinite SDR (clamp_db when clamped), and an estimate "
        "that is a sum of such filtered references has infinite SAR; a longer delay does not.",
        ["inputs", "configurations"],
        "all sample values, filters, mixtures, filter lengths",
        "Numerical tests cannot tell infinite from large and sample only few filters.",
        M + G + H,
        [("delays 0..filter_length-1", "compute_stats, toeplitz, block_toeplitz")],
    ),
    "C21": (
        "Distortion is the sum of interference and artifacts",
        "The three values returned by bss_eval_sources and si_bss_eval_sources for a pair always satisfy, in linear scale, "
        "1/SDR = 1/SIR + (1 + 1/SIR)/SAR, hence SDR <= SIR and SDR <= SAR, for all signals and options without clamping.",
        ["inputs", "configurations"],
        "all sample values, channel counts, options (zero_mean, load_diag), batches, both backends",
        "No test relates the three values.",
        M + H + S,
        [("decomposition", "square_cosine_metrics, bss_eval_sources in metrics.py")],
    ),
    "C22": (
        "Options have their documented defaults and always reach the computation",
        "Calling a public function without an option gives the result of the call with the documented default: 512 taps, direct solver, no "
        "mean removal, no clamping, no loading, permutation computed, permutation not returned by sdr, sign unchanged, loss not pairwise. "
        "Options given by keyword or by position in documented order, through the package, the numpy / torch subpackage or the pairwise_ "
        "helpers, have the same effect.",
        ["inputs", "configurations"],
        "all sample values, all public functions and options, both backends",
        "Tests pass a few options explicitly through the top-level package; an option dropped on the way is invisible where it has no effect.",
        I + M + S,
        [("signatures and dispatch", "__init__.py, metrics.py, scale_invariant.py")],
    ),
}

NOT_APPLICABLE = {
    "C30": (
        "Accuracy in floating point",
        "For realistic signals the float32 and float64 results lie within stated tolerances of the exact metrics, including with the default of "
        "ten conjugate gradient iterations.",
        "Rounding error of FFTs, 512 x 512 solves and iterative solvers over all doubles is out of reach of bit-precise floating-point solving "
        "(one 2-point FFT with normalisation already times out); all checks reason over exact reals and validate against double precision at "
        "witnesses only.",
    ),
    "C31": (
        "Result types and devices follow the inputs",
        "Outputs keep the floating-point type and device of the inputs.",
        "The symbolic arrays replace the element type and run on the CPU, so types and devices are not part of the encoded state; deciding this "
        "would need concrete runs, not solver queries.",
    ),
    "C32": (
        "Evaluation time and memory",
        "The metrics are computed in the advertised time and memory (FFT statistics, iterative solver).",
        "A statement about resources, not about values: there is no formula for the solver to decide.",
    ),
}
