"""C04 - streamed evaluation: one entry per data point, in stream order, exact.

The stream decides order, batch boundaries, container types, whether it can be
iterated twice, and how long it stalls.  Oracle: each point pushed alone through the
predictive and numpy metrics; for linearised Gaussians the predictive moments come
from the numpy reference as well.
"""

import math

from .common import *  # noqa: F403
from .common import (
    ALL_SIM, FaultBook, NullStream, Sim, Violation, caused_by_sim, check_close,
    enable_x64, gen_problem, jax, jnp, loader_spec, make_loader, max_rel, np, problem,
    stderr_as,
)
from .c02 import KINDS

LIN_PT = ("none", "mc_bridge", "laplace_bridge", "mean_field_0", "mean_field_1",
          "mean_field_2")


def gen_faults(rng, n_parts):
    out = []
    for _ in range(rng.choice([1, 1, 2])):
        seam = rng.choice(["next"] * 5 + ["iter", "iter()", "transform", "metric", "model"])
        out.append({"seam": seam, "at": rng.choice([1, 2, 3, n_parts]),
                    "kind": rng.choice([*KINDS, "oom", "interrupt"] + ["stopiter"] * (
                        6 if seam in ("transform", "metric", "model") else 0))})
    return out


def generate(rng, i, tier):
    ops = []
    pr = gen_problem(rng, alike=("twins", "same", "halves"), big=0.04, n_lo=2, n_hi=9, losses=("mse",), vmap_choice=False)
    for _ in range(rng.choice([1, 2])):
        pf = rng.choice(["linear", "linear", "linear", "nonlinear"])
        pt = rng.choice(LIN_PT) if pf == "linear" else rng.choice(["none", "mc_bridge"])
        if pr["model"] == "vec":
            pt = "none"
        spec = loader_spec(rng, pr["n"], max_parts=7)
        spec["one_shot"] = rng.random() < 0.3
        ops.append({
            "pf": pf, "pt": pt, "loader": spec,
            "curv": rng.choice(["full", "diagonal"]),
            "prior": rng.choice([0.5, 2.0]),
            "metrics": rng.choice(["default", "default", "custom", "single", "str"]),
            "via": rng.choice(["evaluation", "evaluation", "dataset", "generator",
                               "points", "metrics_dict", "batches"]),
            "bins": rng.choice([1, 2, 5, 10]),
            "jit": rng.random() < 0.7, "key": rng.randrange(1000),
            "num_samples": rng.choice([3, 5]), "enum": rng.random() < 0.5,
            "bs": rng.choice([None, 1, 2, 3, 50]),
            "red": rng.choice(["identity", "mean", "sum"]),
            "whole": rng.choice(["tuple", "list", "dict", "dict+"]),
            "attempts": [gen_faults(rng, len(spec["sizes"]))
                         for _ in range(rng.choice([0, 0, 1, 1, 2]))],
        })
    return {"problem": pr, "ops": ops, "x64": rng.random() < 0.35}


def norm_logpdf(r, s):
    return -0.5 * (r / s) ** 2 - np.log(s) - 0.5 * math.log(2 * math.pi)


_erf = np.vectorize(math.erf)


def crps(m, s, y):
    z = (y - m) / s
    pdf = np.exp(-0.5 * z * z) / math.sqrt(2 * math.pi)
    cdf = 0.5 * (1 + _erf(z / math.sqrt(2)))
    return np.mean(s * (z * (2 * cdf - 1) + 2 * pdf - 1 / math.sqrt(math.pi)))


def softmax(f):
    e = np.exp(f - f.max())
    return e / e.sum()


def batch_scores(prob, y, bins):
    """Scores that only a whole batch has, or None near the edge of a bin."""
    conf, k = prob.max(axis=1), len(y)
    if np.any(np.abs(conf * bins - np.round(conf * bins))[conf < 0.9999] < 1e-3):
        return None
    hit = (prob.argmax(axis=1) == y).astype(float)
    idx = np.minimum((conf * bins).astype(int), bins - 1)
    gaps = [(np.mean(idx == b), abs(conf[idx == b].mean() - hit[idx == b].mean()))
            for b in sorted(set(idx.tolist()))]
    onehot = np.eye(prob.shape[1])[y]
    score = 1 - 2 * prob + np.sum(prob ** 2, axis=1, keepdims=True)
    return {"accuracy": 100.0 * hit.mean(), "ece": sum(w * g for w, g in gaps),
            "mce": max(g for _, g in gaps), "brier": -np.mean(onehot * score),
            "xent": -np.mean(np.log(prob[np.arange(k), y])), "rows": float(k)}


def execute(sim: Sim, plan):
    import laplax
    from laplax.api import evaluation
    from laplax.enums import DefaultMetrics, Predictive, Pushforward
    from sim.seams import LOADERS
    from laplax.eval.utils import (
        apply_fns, evaluate_metrics_on_dataset, evaluate_metrics_on_generator,
        transfer_entry,
    )

    x64, prd = plan["x64"], plan["problem"]
    nontriv = False
    states = []
    with enable_x64(x64), stderr_as(NullStream()):
        pr = problem(prd)
        rt = 1e-7 if x64 else 2e-3
        G = pr.ggn()
        X = jnp.asarray(pr.X, dtype=float)
        for op in plan["ops"]:
            classify = op["pt"] != "none"
            spec = {**op["loader"], "x64": x64}
            if classify:
                Y = np.random.default_rng(prd["seed"]).integers(0, pr.out, pr.n)
                Y = Y.astype(np.int32)
            else:
                Y = pr.Y
            pf, _ = laplax.laplace(pr.model_fn, pr.params, (X, jnp.asarray(pr.Y)),
                                   loss_fn="mse", curv_type=op["curv"])
            prior = {"prior_prec": op["prior"]}
            default = "classification" if classify else "regression"
            tracer = transfer_entry(["map", "pred_mean", "pred_std", "target"])
            if op["metrics"] in ("default", "str"):
                metrics = default if op["metrics"] == "str" else DefaultMetrics(default)
            elif op["metrics"] == "single":
                metrics = tracer
            else:
                metrics = [tracer, apply_fns(lambda m, t, **kw: jnp.sum(m - t),
                                             lambda m, t, **kw: jnp.max(m) * jnp.ones(2),
                                             # infinite for some points, and rightly so
                                             lambda m, t, **kw: jnp.log(jnp.maximum(
                                                 0.0, jnp.ravel(t)[0])),
                                             names=["d", "vec", "log"], m="map",
                                             t="target")]
            kw = dict(
                predictive_type=Predictive(op["pt"]) if op["enum"] else op["pt"].upper(),
                pushforward_type=Pushforward(op["pf"]) if op["enum"] else op["pf"],
                sample_key=jax.random.key(op["key"]), num_samples=op["num_samples"],
                predictive_jit=op["jit"])
            Yj = jnp.asarray(Y)
            full = {"tuple": (X, Yj), "list": [X, Yj], "dict": {"input": X, "target": Yj},
                    "dict+": {"id": jnp.arange(pr.n), "target": Yj, "input": X}
                    }[op["whole"]]
            book = FaultBook(sim, None)
            book.armed = False
            model_fn = pr.make_model_fn(lambda b=book: b.hit("model"))
            ld = LOADERS[spec["kind"]](sim, pr.X, Y, spec, book)
            via = op["via"]
            if via == "batches" and not classify:
                via = "generator"
            red = {"identity": None, "mean": jnp.mean, "sum": jnp.sum}[op["red"]]
            reducer = red if via == "dataset" else None
            ml = [tracer] if isinstance(metrics, str) else (
                metrics if isinstance(metrics, list) else [metrics])

            def faulty(results, aux, b=book, **kw):
                b.hit("metric")
                return results, aux

            def run(armed, op=op, spec=spec, ld=ld, book=book, model_fn=model_fn, via=via,
                    pf=pf, prior=prior, full=full, metrics=metrics, ml=ml, kw=kw, Y=Y,
                    red=red, faulty=faulty):
                """Result, predictive and delivery order of one evaluation."""
                order = list(range(pr.n))
                if armed and op["metrics"] in ("custom", "single"):
                    ml = metrics = [*ml, faulty]
                if via == "dataset":
                    rkw = {} if red is None else {"reduce": red}
                    res, pred = evaluation(pf, model_fn, pr.params, prior, full,
                                           metrics=metrics, **rkw, **kw)
                elif via == "evaluation":
                    base, src = ld, ld
                    if spec["one_shot"]:
                        base = LOADERS[spec["kind"]](sim, pr.X, Y, spec, book)
                        src = iter(base)
                    res, pred = evaluation(pf, model_fn, pr.params, prior, src,
                                           metrics=metrics, **kw)
                    last = base._plan_pass(base.passes - 1)  # noqa: SLF001
                    order = [k for b in last for k in b]
                else:
                    on, book.armed = book.armed, False
                    _, pred = evaluation(pf, model_fn, pr.params, prior, full,
                                         metrics=[tracer], **kw)
                    book.armed = on
                    d = {"input": X, "target": jnp.asarray(Y)}
                    if via == "generator":
                        s2 = {**spec,
                              "batch": "dict+" if "dict" in spec["batch"] else "tuple"}
                        base = LOADERS[spec["kind"]](sim, pr.X, Y, s2, book)

                        def tr(b):
                            book.hit("transform")
                            return b if s2["batch"] == "dict+" else {
                                "input": b[0], "target": b[1]}

                        res = evaluate_metrics_on_generator(
                            pred, iter(base), metrics=ml, transform=tr,
                            reduce=jnp.concatenate)
                        order = [k for b in base._plan_pass(0) for k in b]  # noqa: SLF001
                    elif via == "batches":
                        s2 = {**spec,
                              "batch": "dict+" if "dict" in spec["batch"] else "tuple"}
                        base = LOADERS[spec["kind"]](sim, pr.X, Y, s2, book)

                        def as_dict(b):
                            book.hit("transform")
                            x, t = (b["input"], b["target"]) if "dict" in s2["batch"] \
                                else b
                            return {"input": jnp.asarray(x), "target": jnp.asarray(t)}

                        extra = [faulty] if armed else []
                        res = evaluate_metrics_on_generator(
                            jax.vmap(pred), iter(base), transform=as_dict,
                            metrics=[*whole_batch(op["bins"]), *extra],
                            vmap_over_data=False)
                        order = base._plan_pass(0)  # noqa: SLF001
                    elif via == "points":
                        order = np.random.default_rng(spec["seed"]).permutation(
                            pr.n).tolist()

                        def points():
                            for k in order:
                                book.hit("next")
                                yield {"input": X[k], "target": jnp.asarray(Y[k])}

                        res = evaluate_metrics_on_generator(
                            pred, points(), metrics=ml, reduce=jnp.stack,
                            vmap_over_data=False)
                    else:
                        res = evaluate_metrics_on_dataset(
                            pred, d, metrics=[tracer], metrics_dict={
                                "d": lambda map, target, **kw: jnp.sum(map - target)},
                            evaluate_metrics_on_dataset_batch_size=op["bs"])
                return res, pred, order

            for faults in op.get("attempts", ()):
                book.pending = [dict(f) for f in faults]
                book.count, book.fired, book.armed = {}, [], True
                try:
                    res = run(True)[0]
                except (Exception, *ALL_SIM) as e:  # noqa: BLE001
                    if not book.fired:
                        raise
                    if not caused_by_sim(e):
                        raise Violation("masked-failure", f"{via}: {book.fired} surfaced as "
                                        f"{type(e).__name__}: {str(e)[:200]}") from e
                    sim.probe("fault-surfaced")
                else:
                    if book.fired:
                        raise Violation(
                            "swallowed-failure", f"{via}: {book.fired} fired, but the "
                            f"evaluation returned { {k: np.shape(v) for k, v in res.items()} }")
                finally:
                    book.armed, book.pending = False, []
            res, pred, order = run(False)
            sim.probe(f"via:{via}")
            sim.probe(f"type:{op['pf']}-{op['pt']}")
            if spec["one_shot"] and via == "evaluation":
                sim.probe("one-shot")
            got = {k: np.asarray(v, dtype=np.float64) for k, v in res.items()}

            # -- reference -------------------------------------------------------
            lam = {"full": G, "diagonal": np.diag(np.diag(G))}[op["curv"]]
            lam = lam / pr.factor + op["prior"] * np.eye(pr.P)
            cov = np.linalg.inv(lam)
            single = jax.jit(pred)
            rows = []
            for k in range(pr.n):
                f = pr.forward(pr.X[k]).astype(np.float64)
                alone = {a: np.asarray(b, dtype=np.float64)
                         for a, b in single(X[k]).items()}
                if op["pf"] == "linear":
                    J = pr.jac(pr.X[k])
                    m, s = f, np.sqrt(np.diag(J @ cov @ J.T))
                    for nm, ref in (("map", f), ("pred_mean", m), ("pred_std", s)):
                        check_close(f"predictive {nm} of point {k}", alone[nm], ref, rt)
                else:
                    m, s = alone["pred_mean"], alone["pred_std"]
                y = Y[k]
                row = {"map": f, "pred_mean": m, "pred_std": s,
                       "target": np.asarray(y, dtype=np.float64),
                       "d": np.sum(f - y), "vec": np.max(f) * np.ones(2),
                       "log": math.log(y0) if (y0 := np.ravel(y)[0]) > 0 else -math.inf}
                if classify:
                    pa = alone["pred_act"]
                    onehot = np.eye(pr.out)[y]
                    row["act"] = pa
                    row |= {"confidences_map": softmax(f).max(),
                            "confidences_pred": pa.max(),
                            "correctness_map": float(np.argmax(f) == y),
                            "correctness_pred": float(np.argmax(m) == y),
                            "nll_gaussian": -np.mean(norm_logpdf(m - onehot, s))}
                else:
                    row |= {"rmse": math.sqrt(np.mean((m - y) ** 2)),
                            "chi^2": np.mean((m - y) ** 2 / s ** 2),
                            "nll": -np.mean(norm_logpdf(m - y, s)),
                            "crps": crps(m, s, y)}
                rows.append(row)
            if op["metrics"] in ("default", "str") and via in ("dataset", "evaluation"):
                want = ({"confidences_map", "confidences_pred", "correctness_map",
                         "correctness_pred", "nll_gaussian"} if classify
                        else {"rmse", "chi^2", "nll", "crps"})
            elif via == "metrics_dict":
                want = {"map", "pred_mean", "pred_std", "target", "d"}
            elif op["metrics"] in ("default", "str", "single"):
                want = {"map", "pred_mean", "pred_std", "target"}
            else:
                want = {"map", "pred_mean", "pred_std", "target", "d", "vec", "log"}
            if via == "batches":
                check_batches(sim, got, rows, order, Y, op["bins"], rt)
                states.append([via, op["pf"], op["pt"], op["bins"], spec["batch"]])
                nontriv |= len(order) > 1
                continue
            if set(got) != want:
                raise Violation("wrong-keys", f"{sorted(got)} expected {sorted(want)}")
            for name in sorted(want):
                ref = np.stack([np.asarray(rows[k][name]) for k in order])
                if name.startswith("correctness_pred") and ambiguous(rows):
                    continue
                if reducer is not None:
                    ref = np.mean(ref) if op["red"] == "mean" else np.sum(ref)
                    scale_ref = np.sum(np.abs(np.stack(
                        [np.asarray(rows[k][name]) for k in order])))
                    if abs(got[name] - ref) > rt * max(1.0, scale_ref):
                        raise Violation("wrong-value", f"{op['red']} of {name}: "
                                                       f"{got[name]} expected {ref}")
                    continue
                if got[name].shape != ref.shape:
                    raise Violation(
                        "wrong-count", f"{via}: metric {name} has shape "
                        f"{got[name].shape}, expected {ref.shape} for {pr.n} points")
                if max_rel(got[name], ref) > rt:
                    hint = "" if ref.ndim != 1 else (
                        " (same values in another order)"
                        if max_rel(np.sort(got[name]), np.sort(ref)) <= rt else "")
                    raise Violation("wrong-value", f"{via}: metric {name}{hint}: got "
                                    f"{got[name].ravel()[:4]} expected {ref.ravel()[:4]}")
            nontriv |= via in ("evaluation", "generator", "points") and \
                len(spec["sizes"]) > 1
            states.append([via, op["pf"], op["pt"], op["metrics"], spec["one_shot"],
                           spec["batch"], spec["kind"]])
    return {"nontrivial": nontriv, "state": [states, prd["model"], x64]}


def whole_batch(bins):
    from laplax.eval import metrics as m
    from laplax.eval.utils import apply_fns

    def binned(fn):
        return lambda p, t, **kw: fn(
            confidence=jnp.max(p, axis=-1), num_bins=bins,
            correctness=m.correctness(p, t).astype(p.dtype))

    return [
        apply_fns(lambda p, t, **kw: m.accuracy(p, t)[0],
                  binned(m.expected_calibration_error),
                  binned(m.maximum_calibration_error),
                  lambda p, t, **kw: jnp.mean(m.cross_entropy(
                      jax.nn.one_hot(t, p.shape[-1]), p)),
                  lambda p, t, **kw: 1.0 * len(t),
                  names=["accuracy", "ece", "mce", "xent", "rows"],
                  p="pred_act", t="target"),
        apply_fns(m.multiclass_brier, names=["brier"], prob="pred_act", target="target"),
    ]


def check_batches(sim, got, rows, parts, Y, bins, rt):
    """One entry per batch, in the order of the stream, and exact."""
    names = ["accuracy", "brier", "ece", "mce", "rows", "xent"]
    if sorted(got) != names:
        raise Violation("wrong-keys", f"batches: {sorted(got)} expected {names}")
    for n in names:
        if got[n].shape != (len(parts),):
            raise Violation("wrong-count", f"batches: {n} has shape {got[n].shape} "
                                           f"for {len(parts)} batches")
    for i, part in enumerate(parts):
        if len(part) == 0:  # an average over no points: only its count is defined
            if got["rows"][i] != 0:
                raise Violation("wrong-value", f"batches: batch {i} is empty, but "
                                               f"{got['rows'][i]} rows were scored")
            sim.probe("batch-empty")
            continue
        prob = np.stack([rows[k]["act"] for k in part])
        top = np.sort(prob, axis=1)
        ref = batch_scores(prob, np.asarray(Y)[list(part)], bins)
        if ref is None or np.any(top[:, -1] - top[:, -2] < 1e-4) or prob.min() < 1e-6:
            sim.probe("batch-ambiguous")
            continue
        sim.probe("batch-scored")
        for n in names:
            if abs(got[n][i] - ref[n]) > 5 * rt * max(1.0, abs(ref[n])):
                raise Violation("wrong-value", f"batches: {n} of batch {i} ({len(part)} "
                                f"points): {got[n][i]} expected {ref[n]}")


def ambiguous(rows):
    """Two classes tie in the predictive mean up to rounding."""
    for r in rows:
        s = np.sort(np.asarray(r["pred_mean"]).ravel())
        if len(s) > 1 and s[-1] - s[-2] < 1e-4 * max(1.0, abs(s[-1])):
            return True
    return False


def shrink(plan):
    for j, op in enumerate(plan["ops"]):
        s = op["loader"]
        for k, v in (("reshuffle", False), ("stall", 0.0), ("kind", "gen"),
                     ("batch", "tuple"), ("array", "np"), ("one_shot", False)):
            if s.get(k) != v:
                o = {**op, "loader": {**s, k: v}}
                yield {**plan, "ops": plan["ops"][:j] + [o] + plan["ops"][j + 1:]}
        for k, v in (("pf", "linear"), ("metrics", "single"), ("curv", "diagonal"),
                     ("num_samples", 3), ("bs", None)):
            if op[k] != v:
                yield {**plan, "ops": plan["ops"][:j] + [{**op, k: v}]
                       + plan["ops"][j + 1:]}
