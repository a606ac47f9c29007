# Executed by spec.py: the entries of C05-C13.
prop(
    "C05", "Computing in one precision never disturbs another caller's",
    "A curvature estimate returns the precision it was asked for and is as accurate as "
    "its compute precision allows, and neither its success nor its failure changes the "
    "process-wide precision setting. Concurrent callers keep their own precision, "
    "wherever one is interrupted.",
    ["schedules", "fault_sequences", "configurations"],
    "every combination of session precision, compute, operator and return dtype; every "
    "fault inside the iteration; every interleaving with other callers",
    "Tests run one estimate in one precision; what the flag is after a failure, or for a "
    "second thread while the first computes, is never observed.",
    ["laplax/curv/lanczos.py", "laplax/curv/lobpcg.py", "laplax/curv/utils.py",
     "laplax/curv/low_rank.py", "laplax/util/mv.py"],
    [("x64 scoped to the call", "laplax/curv/lanczos.py, laplax/curv/lobpcg.py"),
     ("cast back to the return dtype", "laplax/curv/lanczos.py, laplax/curv/lobpcg.py")],
    state=[("jax_enable_x64", "process-wide precision flag", "jax.config")],
    observe=["dtype and accuracy of the estimate", "the flag during and after the call",
             "dtype of arrays made by other callers"],
    rule="A plan draws dtypes, session precision, operators, faults and 1-3 concurrent "
    "callers. Non-trivial: a fault fired, callers were preempted inside an estimate, or "
    "session and compute precision differ.",
    technique=DST + "preemptive thread schedules and faults around a process-wide flag",
    note="Line-level preemption of real threads under a seeded baton scheduler; accuracy "
    "against float64 numpy.",
    budget=dict(quick=(250, 60), thorough=(5000, 840)),
)
prop(
    "C06", "Concurrent callers do not influence one another",
    "Callers that share operators, posteriors, predictives and streams' sources from "
    "several threads each obtain what they would obtain alone. A fault or interrupt in "
    "one caller reaches that caller only.",
    ["schedules", "fault_sequences"],
    "every interleaving, at seams and at source-line granularity, of two or three "
    "callers running any sequence of package operations on shared artefacts",
    "Tests are single-threaded; shared mutable state between two calls in flight is "
    "invisible to them.",
    ["laplax/api.py", "laplax/util/loader.py", "laplax/util/mv.py", "laplax/curv/cov.py",
     "laplax/eval/pushforward.py", "laplax/eval/utils.py", "laplax/util/flatten.py"],
    [("no state outside the call", "every public function"),
     ("operators are immutable", "laplax/util/loader.py DataLoaderMV")],
    observe=["result of every operation of every caller"],
    rule="A plan draws shared artefacts, 2-3 callers with 1-3 operations each, faults and "
    "a preemption schedule. Non-trivial: at least two preemptions.",
    technique=DST + "preemptive thread schedules against each caller alone",
    note="Line-level preemption of real threads; the oracle is the same work without "
    "other callers.",
    budget=dict(quick=(160, 65), thorough=(3000, 840)),
)
prop(
    "C07", "Registering methods is all-or-nothing and touches nothing else",
    "A registered method uses exactly the functions given, taking the rest from its "
    "default as it stood at registration, and works wherever a built-in does. A rejected "
    "registration changes nothing, and no registration alters any other method.",
    ["histories", "schedules"],
    "every sequence of accepted and rejected registrations, re-registrations and uses, "
    "by one or several concurrent callers",
    "Tests register one method once; failed registrations, re-registration, chains of "
    "defaults and interference are histories they do not visit.",
    ["laplax/register.py", "laplax/curv/cov.py", "laplax/eval/likelihood.py",
     "laplax/api.py"],
    [("lookup tables", "laplax/curv/cov.py CURVATURE_*, laplax/eval/likelihood.py"),
     ("validation before the first write", "laplax/register.py register_curvature_method")],
    state=[("method tables", "name to function, one per stage", "laplax/curv/cov.py"),
           ("calibration options", "name to function", "laplax/api.py")],
    observe=["posterior, scale, covariance and likelihood by method name",
             "outcome of each registration"],
    rule="A plan draws sequences of registrations (valid and invalid), uses and "
    "calibrations for 1-3 callers. Non-trivial: something was registered and a "
    "registration was rejected, or several names or callers were involved.",
    technique=DST + "registration histories and schedules against a dictionary model",
    note="Reference model is a dictionary of resolved functions; unknown names must be "
    "refused.",
    budget=dict(quick=(280, 60), thorough=(6000, 840)),
)
prop(
    "C08", "Samples are a pure function of key and index",
    "The i-th weight sample depends on the key and i only: not on access order, "
    "precomputation, chunking, compilation, earlier failures, other randomness, threads "
    "or process. Every predictive built with a key pushes these very samples through the "
    "model, and they are distributed as the posterior.",
    ["histories", "schedules", "fault_sequences", "configurations"],
    "every order and repetition of accesses, every execution knob, failures between "
    "accesses, interleaved callers and other processes",
    "Tests draw once with one setting and look at shapes or rough moments.",
    ["laplax/eval/pushforward.py", "laplax/util/tree.py", "laplax/util/ops.py",
     "laplax/api.py"],
    [("one key per index, one per leaf", "laplax/util/tree.py randn_like, "
      "laplax/eval/pushforward.py set_get_weight_sample"),
     ("precomputation or on-demand", "laplax/util/ops.py precompute_list")],
    observe=["weight samples", "predictive samples and their Monte Carlo statistics"],
    rule="A plan draws accesses, predictives, unrelated randomness, faults and callers. "
    "Non-trivial: at least two kinds of operation, or the distribution was tested.",
    technique=DST + "access histories, faults and schedules against the first draw",
    note="Distribution tested at 7 standard errors with fixed seeds; runs repeated in a "
    "second process with another hash seed.",
    budget=dict(quick=(190, 65), thorough=(4000, 840)),
)
prop(
    "C09", "A calibration search returns the best point it tried, come what may",
    "A grid search evaluates the grid in order, once per point, until its patience, "
    "iteration limit or the grid is exhausted, and returns the point with the smallest "
    "objective; failed (ValueError) or NaN points count as worst and any other failure "
    "reaches the caller. A whole calibration therefore returns the prior precision that "
    "scores best on the caller's data, and the predictive it returns uses the prior it "
    "is given.",
    ["histories", "fault_sequences", "configurations"],
    "every sequence of objective outcomes (values, ties, NaN, infinities, failures), "
    "every patience and iteration limit, every objective and predictive",
    "Tests run the search on one smooth function; failing and non-finite points, early "
    "stopping at the edge and re-entry are histories they do not visit.",
    ["laplax/eval/calibrate.py", "laplax/api.py", "laplax/eval/likelihood.py",
     "laplax/eval/metrics.py"],
    [("search loop", "laplax/eval/calibrate.py grid_search"),
     ("objectives", "laplax/api.py calibration"),
     ("single-pass score", "laplax/eval/calibrate.py evaluate_for_given_prior_arguments")],
    observe=["points evaluated, in order", "point returned", "exception seen by the caller",
             "predictive under a given prior"],
    rule="A plan draws searches with scripted objectives (values, types, faults, stalls, "
    "nested searches, clock jumps) by 1-3 callers, or a whole calibration. Non-trivial: "
    "a fault fired, several callers ran, or the scores told the points apart.",
    technique=DST + "scripted objective outcomes, clock jumps and schedules against a "
    "reference search",
    note="The clock that laplax reads is simulated. The reference scores every grid point "
    "on its own; points closer than rounding are all accepted.",
    budget=dict(quick=(400, 60), thorough=(12000, 840)),
)
prop(
    "C10", "Results do not depend on history, and a caller's objects stay its own",
    "An operation gives the same result whatever was computed, registered or failed "
    "before it in the process, in whatever order and however often. No operation, "
    "successful or failed, changes the objects its caller passed in, a posterior or "
    "predictive made earlier, the package's defaults or the state of the process.",
    ["histories", "fault_sequences", "inputs"],
    "every sequence of package operations, over look-alike problems, with failures at any "
    "array operation or batch, on shared caller-owned lists, dictionaries and arrays",
    "Tests call each function once on fresh arguments; leaking caches, mutated defaults "
    "and arguments show only after a second, different use.",
    ["laplax/api.py", "laplax/eval/utils.py", "laplax/eval/pushforward.py",
     "laplax/eval/calibrate.py", "laplax/curv/cov.py", "laplax/util/loader.py",
     "laplax/curv/ggn.py", "laplax/register.py"],
    [("functions without hidden state", "every public function"),
     ("default lists and dictionaries", "laplax/eval/pushforward.py, "
      "laplax/eval/metrics.py, laplax/api.py")],
    state=[("package defaults", "default function lists, metric lists, method tables",
            "laplax.eval.*, laplax.curv.cov, laplax.api"),
           ("process state", "JAX and numpy settings, random states, environment",
            "the process")],
    observe=["result of every operation", "caller-owned objects before and after",
             "defaults and process state before and after"],
    rule="A plan draws a history on a look-alike problem, 3-6 operations (31 kinds) with "
    "faults and retries, and a repeat. Non-trivial: there was a history or more than two "
    "kinds of operation.",
    technique=DST + "operation histories and faults against the same operations in "
    "reverse order in a freshly imported package",
    note="Results handed out are overwritten by the caller. Only defaults known by name "
    "are compared, so added caches do not alarm unless they leak into a result.",
    budget=dict(quick=(140, 70), thorough=(2500, 840)),
)
prop(
    "C11", "Work resumes after a crash from its saved artefacts alone",
    "A curvature estimate, a posterior state, a prior precision, a key and a reduction "
    "state hold everything later steps need: a new process that loads them obtains the "
    "posteriors, samples, predictions and evaluations an uninterrupted process obtains. "
    "It does not matter where, how often or during which operation earlier processes "
    "died.",
    ["crash_points", "fault_sequences", "histories", "configurations"],
    "every placement of up to three process deaths, between and inside steps, over every "
    "curvature, predictive and storage format",
    "Tests run the steps in one process; an estimate that needs memory of the process "
    "that made it passes all of them.",
    ["laplax/curv/cov.py", "laplax/curv/utils.py", "laplax/curv/low_rank.py",
     "laplax/util/loader.py", "laplax/eval/pushforward.py", "laplax/eval/utils.py",
     "laplax/api.py"],
    [("plain-data artefacts", "laplax/curv/utils.py LowRankTerms, posterior states"),
     ("posterior rebuilt from the estimate", "laplax/curv/cov.py set_posterior_fn, "
      "Posterior"),
     ("reduction states", "laplax/util/loader.py reduce_*")],
    state=[("saved artefacts", "pickled, device-fetched or leaf-wise arrays",
            "the simulated disk")],
    observe=["samples, predictions, evaluations, prior precision and reductions at the "
             "end"],
    rule="A plan draws a pipeline, a storage format and 1-3 process deaths. Non-trivial: "
    "at least one process died.",
    technique=DST + "process deaths with only saved bytes surviving, against an "
    "uninterrupted process",
    note="A new process is a freshly imported package; a share of the runs is repeated in "
    "a second operating-system process with another hash seed and compared.",
    budget=dict(quick=(160, 70), thorough=(3000, 840)),
)
prop(
    "C12", "Chunk sizes, precomputation and compilation are invisible in results",
    "Options that say how to compute - chunk sizes, precomputing, jit flags - never "
    "change what is computed, on plain or streamed operators, and options meant for other "
    "steps are ignored. A chunk size bounds how many items are processed at once, so a "
    "caller that runs out of memory succeeds with a smaller one and gets the same result.",
    ["configurations", "fault_sequences", "inputs"],
    "every combination of execution options at every operation that takes them, every "
    "chunk size relative to the item count, every memory limit",
    "Tests use the default options; chunk boundaries, remainders and options travelling "
    "through several layers are not exercised.",
    ["laplax/util/mv.py", "laplax/util/ops.py", "laplax/util/loader.py",
     "laplax/eval/pushforward.py", "laplax/eval/utils.py", "laplax/eval/calibrate.py",
     "laplax/curv/lanczos.py", "laplax/api.py"],
    [("chunked maps", "jax.lax.map with batch_size at each site"),
     ("precompute_list", "laplax/util/ops.py"),
     ("jit flags", "laplax/api.py, laplax/util/loader.py, laplax/curv/utils.py")],
    observe=["result with and without each option", "items vectorised together",
             "outcome under a memory limit"],
    rule="A plan draws 3-6 operations (15 sites) with options, irrelevant options, a "
    "memory limit and faults. Non-trivial: at least one option was set.",
    technique=DST + "execution options, simulated memory limits and faults against the "
    "default options and numpy",
    note="Items in flight are counted by a batching rule inside the caller's own "
    "function, so the check does not depend on how chunking is implemented.",
    budget=dict(quick=(190, 65), thorough=(4000, 840)),
)
prop(
    "C13", "Transforming an operator composes and leaves the original alone",
    "Wrapping an operator - plain or streamed, wrapped before or not - gives an operator "
    "that applies the input transformations, the original and the output transformations, "
    "each exactly once and in order. Products, dense matrices, diagonals, estimates and "
    "posteriors of it are those of the composed map, and neither the original nor its "
    "other derivatives change.",
    ["histories", "inputs", "schedules", "fault_sequences"],
    "every tree of transformations (linear, rectangular, tree or flat, non-linear for "
    "products) over several operators, used in any order, by several callers, with "
    "failures in any callback",
    "Tests wrap once with a flattener; order, depth, siblings and reuse after a failure "
    "are not observed.",
    ["laplax/util/flatten.py", "laplax/util/loader.py", "laplax/util/mv.py",
     "laplax/curv/utils.py", "laplax/curv/full.py", "laplax/curv/cov.py"],
    [("wrapped operator is a new object", "laplax/util/loader.py wrap_function for "
      "DataLoaderMV"),
     ("composition order", "laplax/util/flatten.py wrap_function, wrap_factory")],
    observe=["products, dense matrices, diagonals and estimates of every operator"],
    rule="A plan draws 1-2 operators, 1-5 wrappings and the uses of them by 1-3 callers. "
    "Non-trivial: a streamed operator and at least one wrapping.",
    technique=DST + "trees of transformations, faults and schedules against numpy "
    "composition",
    note="Every operator is re-evaluated at the end of each run.",
    budget=dict(quick=(210, 60), thorough=(5000, 840)),
)
prop(
    "C14", "A stream may be larger than memory",
    "An operation on a data loader holds a few batches at a time however long the "
    "stream is, reads it once per product or evaluation, and lets go of its batches and "
    "iterators once it has ended or failed. A process with room for only a few batches "
    "gets the same result as one that holds them all. (Solvers that compile their whole "
    "loop, mv_jit or curv_mv_jit, are excepted.)",
    ["fault_sequences", "histories", "configurations"],
    "every length of stream, kind of loader and batch, operation, failure of the stream "
    "at any batch, and sequence of operations",
    "Tests stream three batches that fit into memory; nothing observes which batches are "
    "still alive, during the operation or after it.",
    ["laplax/util/loader.py", "laplax/util/mv.py", "laplax/eval/utils.py",
     "laplax/curv/full.py", "laplax/curv/diagonal.py", "laplax/curv/lanczos.py",
     "laplax/curv/lobpcg.py", "laplax/api.py"],
    [("reductions keep a running state", "laplax/util/loader.py reduce_*"),
     ("batches are processed one at a time",
      "laplax/util/loader.py process_batches, laplax/eval/utils.py "
      "evaluate_metrics_on_generator")],
    observe=["batches alive during and after an operation", "iterators left open",
             "batches drawn per product", "result of the operation"],
    rule="A plan draws a stream of 7-18 small batches, 1-4 operations, repetitions and a "
    "fault at any batch. Allocation of a batch fails while five are alive. Non-trivial: "
    "the stream is longer than the memory.",
    technique=DST + "simulated memory for a few batches, and faults of the stream",
    note="Liveness of batches by weak references in a process whose allocator fails; "
    "values against float64 numpy.",
    budget=dict(quick=(120, 65), thorough=(2500, 840)),
)
