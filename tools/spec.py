#!/usr/bin/env python3
"""Single source of properties.jsonl, MANIFEST.json, budget.json and meta.json.

Run from anywhere:  python3 tools/spec.py
"""
import json
import pathlib

V = pathlib.Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"

REAL = ["laplax (all of it, from /repo's working tree)", "JAX and XLA CPU", "tqdm", "loguru"]
STUB = ["data loader (simulated: order, splitting, containers, stalls, faults)",
        "neural network and loss (small models with a closed-form numpy reference)"]
ASSUME = ["JAX, XLA and numpy compute correctly",
          "runs are sampled, not enumerated: a quiet check is evidence, not proof"]

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(),
         rule="", level="exploration", technique="", note="", budget=None, real=(), stub=(),
         assume=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, state=state, observe=observe, rule=rule,
                  level=level, technique=technique, note=note, budget=budget, real=real,
                  stub=stub, assume=assume))


DST = "deterministic simulation, seeded search: "

prop(
    "C01", "A streamed curvature equals the whole-data curvature",
    "The curvature operator of a data stream, and every curvature estimate, dense "
    "matrix, diagonal, low-rank approximation and posterior derived from it, equals the "
    "sum of the per-point curvatures of all points the stream delivers. How the points "
    "are split into batches, ordered, packed into containers or re-shuffled from pass to "
    "pass makes no difference.",
    ["schedules", "inputs", "configurations"],
    "every partition and order of a finite data set into batches, chosen anew on every "
    "pass; every batch container, loader kind, loss, model and precision; every "
    "estimate that can be built from the operator",
    "Tests use one fixed loader with equal batches; the claim is over every way a stream "
    "can deliver the same points, including different ones on successive passes of one "
    "computation.",
    ["laplax/api.py", "laplax/curv/ggn.py", "laplax/curv/lanczos.py",
     "laplax/curv/lobpcg.py", "laplax/curv/full.py", "laplax/curv/diagonal.py",
     "laplax/util/loader.py"],
    [("per-batch sums combined by addition", "laplax/util/loader.py process_batches, reduce_add"),
     ("operator lowering per batch", "laplax/util/loader.py DataLoaderMV.lower_func"),
     ("loader or batch detection", "laplax/api.py _maybe_wrap_loader_or_batch")],
    state=[("accumulator", "running reduction over the batches of one pass",
            "laplax/util/loader.py process_batches")],
    observe=["result of the operator on a vector", "dense matrix, diagonal",
             "curvature estimate of laplace()", "posterior covariance"],
    rule="A plan draws model, loss, data, partition, per-pass reshuffling, container, "
    "loader kind, precision and 1-3 derived computations. Non-trivial: more than one "
    "batch per pass and more than one pass actually consumed.",
    technique=DST + "stream delivery schedules against a numpy reference",
    note="Sampled delivery schedules; oracle is an independent float64 numpy GGN "
    "(complex-step Jacobians) with precision-dependent tolerances.",
    budget=dict(quick=(280, 60), thorough=(6000, 840)),
)
prop(
    "C02", "A failing data stream never yields a partial result",
    "If a stream, transform, model, reduction, progress display or array allocation "
    "fails while a result is being accumulated, the caller gets that failure and no "
    "result. Retrying the same object once the fault has passed gives exactly the result "
    "of an undisturbed run, whatever happened before.",
    ["fault_sequences", "crash_points", "histories"],
    "every point of a pass at which a fault of any kind can strike, any number of "
    "failed attempts before a success, nested and derived computations included",
    "No test makes a stream fail; the claim is about every crash point inside the "
    "accumulation and about the state left behind for the retry.",
    ["laplax/util/loader.py", "laplax/api.py", "laplax/eval/utils.py"],
    [("accumulator local to the pass", "laplax/util/loader.py process_batches"),
     ("no exception swallowed", "laplax/util/loader.py, laplax/api.py, laplax/eval/utils.py")],
    observe=["exception seen by the caller", "value after retry"],
    rule="A plan draws operations and 1-3 faults (kind, seam, crossing). Non-trivial: an "
    "armed fault fired inside an operation and was followed by a checked retry.",
    technique=DST + "fault injection at every seam crossing of an accumulation",
    note="Faults are placed by seed at I/O, transform, model, reduction, display and "
    "allocation seams; the retry is compared with a fault-free reference.",
    budget=dict(quick=(360, 60), thorough=(7000, 840)),
    stub=["stderr (fails on demand)", "jnp entry points (allocation failures on demand)"],
)
prop(
    "C03", "Streaming reductions are exact on every prefix and restartable",
    "After any number of chunks, a streaming sum, mean or concatenation equals that "
    "reduction over all rows delivered so far, for any nesting of arrays and any chunk "
    "sizes. Continuing from a saved state after a crash gives the uninterrupted result, "
    "and saved states are never changed by later steps.",
    ["histories", "crash_points", "schedules"],
    "every sequence of chunk sizes and leaf shapes, every crash point with resumption "
    "from any durable earlier state, every interleaving of several reductions",
    "Tests reduce two or three equal chunks to the end once; prefixes, unequal chunks and "
    "resumption are not exercised.",
    ["laplax/util/loader.py", "laplax/util/tree.py"],
    [("explicit state threaded through each step", "laplax/util/loader.py reduce_*")],
    state=[("reduction state", "count and sum, or the accumulated value",
            "laplax/util/loader.py reduce_*")],
    observe=["result after every step", "state after every step"],
    rule="A plan draws a tree, chunks, reductions, checkpoints and crashes. Non-trivial: "
    "at least two chunks and a crash that resumed from a checkpoint or interleaved "
    "reductions.",
    technique=DST + "crash and resume of reduction state machines",
    note="Model is a numpy reduction over the recorded prefix; crashes keep only pickled "
    "state.",
    budget=dict(quick=(2520, 60), thorough=(40000, 840)),
)
prop(
    "C04", "Streamed evaluation scores every point once, in stream order",
    "Evaluating a predictive on a stream returns, per metric, one entry for each data "
    "point in delivery order, equal to what each point gives when evaluated on its own. "
    "Splitting, container, one-shot iteration, set of metrics and predictive type make "
    "no difference, and a fault never yields a shortened result.",
    ["schedules", "inputs", "fault_sequences", "configurations"],
    "every split of a data set into batches, every loader and iterator kind, metric "
    "sets, predictive types, and a fault at every point of the stream",
    "Tests evaluate a single whole-data batch; streams, one-shot iterators and failing "
    "streams are not covered.",
    ["laplax/api.py", "laplax/eval/utils.py", "laplax/eval/metrics.py",
     "laplax/eval/pushforward.py"],
    [("per-batch evaluation and concatenation",
      "laplax/eval/utils.py evaluate_metrics_on_generator"),
     ("first batch put back", "laplax/api.py evaluation")],
    observe=["returned metric arrays", "predictive of a single point"],
    rule="A plan draws model, posterior, predictive, metrics, stream and faults. "
    "Non-trivial: at least two batches evaluated or a fault fired mid-stream.",
    technique=DST + "stream delivery schedules and faults against a per-point reference",
    note="Per-point reference evaluated without the streaming code.",
    budget=dict(quick=(280, 60), thorough=(6000, 840)),
)

exec((V / "tools" / "spec_more.py").read_text()) if (V / "tools" / "spec_more.py").exists() else None

NA = [
    ("N01", "Curvature-vector products match their closed forms",
     "The generalised Gauss-Newton and Hessian vector products of a single batch equal "
     "the closed-form matrices applied to the vector.",
     ["laplax/curv/ggn.py", "laplax/curv/hessian.py"],
     "A pure function of one batch: no schedule, stream, clock, fault or other caller "
     "enters it (its streamed form is claimed as C01)."),
    ("N02", "Posterior linear algebra is consistent",
     "For every curvature type the covariance is the inverse of the posterior precision, "
     "and the scale is a square root of the covariance.",
     ["laplax/curv/full.py", "laplax/curv/diagonal.py", "laplax/curv/low_rank.py"],
     "Matrix identities of pure functions with nothing for a simulator to schedule or "
     "break."),
    ("N03", "Closed-form predictives are probability vectors",
     "Laplace-bridge and mean-field predictives are non-negative and sum to one for "
     "every mean and covariance.",
     ["laplax/eval/predictives.py"],
     "Pointwise formulas on arrays: inputs only, no schedule or fault."),
    ("N04", "Metric formulas match their definitions",
     "Chi-squared, log-likelihood, correctness and calibration-error metrics equal their "
     "textbook definitions for all inputs.",
     ["laplax/eval/metrics.py"],
     "Pure array formulas: inputs only, no schedule or fault (their streamed assembly "
     "is claimed as C04)."),
    ("N05", "Flattening parameter trees round-trips",
     "Flattening a parameter tree to a vector and back is the identity for every tree "
     "structure.",
     ["laplax/util/flatten.py", "laplax/util/tree.py"],
     "A pure structural bijection: inputs only, no schedule or fault."),
    ("N06", "Marginal likelihood equals its closed form",
     "The approximate log marginal likelihood equals its closed form for every curvature "
     "type and prior.",
     ["laplax/eval/likelihood.py"],
     "A pure function of curvature, prior and data: no schedule or fault."),
]


def main():
    props, checks, na, budget, meta = [], [], [], {}, {}
    for p in P:
        props.append({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                "mechanism": [dict(zip(("name", "where"), m)) for m in p["mech"]],
                "observe_at": list(p["observe"]), "hook_needed": None,
            },
        })
        if not (V / "sim" / "worlds" / f"{p['id'].lower()}.py").exists():
            na.append({"property": p["id"], "reason": "world not built yet"})
            continue
        cmd = f"{PY} sim/run.py check {p['id']} --tier "
        checks.append({
            "property": p["id"], "quick_cmd": cmd + "quick",
            "thorough_cmd": cmd + "thorough", "technique": p["technique"],
            "level": p["level"], "level_note": p["note"],
        })
        q, t = p["budget"]["quick"], p["budget"]["thorough"]
        budget[p["id"]] = {
            "quick": {"runs": q[0], "wall": q[1]},
            "thorough": {"runs": t[0], "wall": t[1]},
            "recheck": p["budget"].get("recheck", 4),
            "min_nontrivial": p["budget"].get("min_nontrivial", 10),
        }
        meta[p["id"]] = {
            "level": p["level"], "rule": p["rule"], "real": REAL + list(p["real"]),
            "stub": STUB + list(p["stub"]), "assumptions": ASSUME + list(p["assume"]),
        }
    for id, title, st, files, reason in NA:
        props.append({
            "id": id, "title": title, "statement": st,
            "quantifier": {"over": ["inputs"], "text": "every valid input"},
            "why_tests_cant": "Tests sample a handful of inputs.",
            "anchors": {"files": files,
                        "mechanism": [{"name": "formula", "where": files[0]}]},
        })
        na.append({"property": id, "reason": reason})
    (V / "properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in props))
    man = {
        "version": 1,
        "setup_cmd": f"{PY} sim/run.py setup",
        "checks": checks, "not_applicable": na,
        "notes": "No hooks in /repo: every seam is an argument or a module attribute "
        "replaced from outside. The simulator lives in sim/, one world per property in "
        "sim/worlds/. `sim/run.py replay FILE` re-executes a replay file.",
    }
    (V / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
    (V / "sim" / "budget.json").write_text(json.dumps(budget, indent=1) + "\n")
    (V / "sim" / "worlds" / "meta.json").write_text(json.dumps(meta, indent=1) + "\n")
    try:
        import jsonschema
    except ImportError:
        return
    r = pathlib.Path("/root/.vp")
    if r.exists():
        s = json.loads((r / "PROPERTIES.schema.json").read_text())
        for p in props:
            jsonschema.validate(p, s)
            assert p["statement"].count(". ") <= 2, p["id"]
        jsonschema.validate(man, json.loads((r / "MANIFEST.schema.json").read_text()))


main()
