"""Runs many seeded simulations, minimises failures, writes evidence and replays."""

import importlib
import io
import json
import multiprocessing
import os
import signal
import subprocess
import sys
import time
import traceback
from collections import Counter
from concurrent.futures import ProcessPoolExecutor
from concurrent.futures.process import BrokenProcessPool
from contextlib import redirect_stderr, redirect_stdout

from dst import env

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN_TIMEOUT = int(os.environ.get("DST_RUN_TIMEOUT", "240"))


def load(prop):
    return importlib.import_module(f"dst.props.{prop.lower()}")


class RunTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise RunTimeout()


def from_library(tb):
    """Whether an exception passed through the code under test."""
    root = os.path.join(env.REPO, "curvlinops")
    return any(f.filename.startswith(root) for f in traceback.extract_tb(tb))


def execute(prop, spec, keep_events=False):
    """One simulated run: a pure function of ``spec`` and the code under test."""
    import torch

    from dst.core import Ctx, InvalidSpec, Violation, seed_globals

    module = load(prop)
    ctx = Ctx()
    res = {"verdict": "ok", "kind": None, "msg": None}
    torch.set_default_dtype(torch.float32)
    torch.set_grad_enabled(True)
    seed_globals(spec.get("ambient", 0))
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(RUN_TIMEOUT)
    sink = io.StringIO()
    try:
        with redirect_stdout(sink), redirect_stderr(sink):
            module.run(spec, ctx)
    except Violation as v:
        res.update(verdict="violation", kind=v.kind, msg=v.msg)
    except InvalidSpec as e:
        res.update(verdict="invalid", msg=str(e))
    except RunTimeout:
        res.update(verdict="error", kind="timeout", msg=f"run exceeded {RUN_TIMEOUT}s")
    except BaseException as e:  # noqa: B036
        tb = traceback.format_exc()
        if isinstance(e, Exception) and from_library(e.__traceback__):
            # an uncaught exception inside a library call that had to succeed
            res.update(verdict="violation", kind=f"exception:{type(e).__name__}", msg=tb)
        else:
            res.update(verdict="error", kind=type(e).__name__, msg=tb)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    ctx.ev("verdict", res["verdict"], res["kind"])
    res["digest"] = ctx.digest()
    res["counts"] = dict(ctx.counts)
    res["evals"] = ctx.evals
    res["n_events"] = len(ctx.events)
    res["nontrivial"] = bool(
        module.nontrivial(spec, ctx) if hasattr(module, "nontrivial") else ctx.evals
    )
    if keep_events:
        res["events"] = ctx.events
    return res


def make_spec(prop, seed, tier, index):
    import random

    from dst.core import run_seed

    s = run_seed(seed, prop, index)
    rng = random.Random(s)
    spec = load(prop).gen(rng, tier)
    spec.setdefault("ambient", s % (2**31))
    return json.loads(json.dumps(spec))


def task(args):
    prop, seed, tier, index = args
    t = time.perf_counter()
    try:
        spec = make_spec(prop, seed, tier, index)
    except Exception:
        return {
            "index": index,
            "verdict": "error",
            "kind": "generator",
            "msg": traceback.format_exc(),
            "digest": "",
            "counts": {},
            "evals": 0,
            "n_events": 0,
            "nontrivial": False,
            "wall": 0.0,
        }
    res = execute(prop, spec)
    res["index"] = index
    res["wall"] = time.perf_counter() - t
    return res


def spec_task(args):
    prop, spec = args
    return execute(prop, spec)


def pool(workers):
    return ProcessPoolExecutor(
        workers, mp_context=multiprocessing.get_context("fork")
    )


def minimise(prop, spec, kind, ex, budget_s=75, max_evals=600):
    """Greedy minimisation that preserves the violation class."""
    module = load(prop)
    if not hasattr(module, "shrink"):
        return spec, 0
    end = time.monotonic() + budget_s
    evals, progress = 0, True
    while progress and time.monotonic() < end and evals < max_evals:
        progress = False
        seen, batch = set(), []
        cands = module.shrink(spec)
        while time.monotonic() < end and evals < max_evals:
            batch = []
            for c in cands:
                c = json.loads(json.dumps(c))
                key = json.dumps(c, sort_keys=True)
                if key not in seen and c != spec:
                    seen.add(key)
                    batch.append(c)
                if len(batch) == 8:
                    break
            if not batch:
                break
            results = list(ex.map(spec_task, [(prop, c) for c in batch]))
            evals += len(batch)
            hit = next(
                (
                    c
                    for c, r in zip(batch, results)
                    if r["verdict"] == "violation" and r["kind"] == kind
                ),
                None,
            )
            if hit is not None:
                spec, progress = hit, True
                break
    return spec, evals


def fresh(args, hashseed="0", timeout=600):
    """Run this tool in a fresh interpreter."""
    e = dict(os.environ)
    e.pop("DST_REEXEC", None)
    e.pop("PYTHONHASHSEED", None)
    e["DST_HASHSEED"] = hashseed
    return subprocess.run(
        [env.PYTHON, "-m", "dst"] + args,
        cwd=VERIF,
        env=e,
        capture_output=True,
        text=True,
        timeout=timeout,
    )


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        entries = json.load(f)["findings"]
    return [e for e in entries if e.get("property") == prop and not e.get("fixed")]


def matches(finding, module, spec, res):
    """A violation is known only if its class and its specific input match."""
    if finding.get("kind") != res["kind"]:
        return False
    fn = getattr(module, "finding_key", None)
    return fn is not None and fn(spec, res) == finding.get("key")


def check(prop, tier, seed, runs=None, workers=None):
    env.setup()
    t0 = time.monotonic()
    module = load(prop)
    runs = runs or module.RUNS[tier]
    workers = workers or min(8, os.cpu_count() or 1)
    budget = float(
        os.environ.get("DST_BUDGET_S", "420" if tier == "quick" else "14400")
    )
    wave = max(8 * workers, min(400, runs // 6 + 1))
    print(f"dst: property={prop} tier={tier} VERIF_SEED={seed} runs={runs}", flush=True)
    results, stopped = [], None
    with pool(workers) as ex:
        start = 0
        while start < runs:
            idx = range(start, min(runs, start + wave))
            chunk = max(1, min(8, len(idx) // (workers * 3)))
            try:
                results += list(
                    ex.map(task, [(prop, seed, tier, i) for i in idx], chunksize=chunk)
                )
            except BrokenProcessPool:
                print("dst: a worker process died", flush=True)
                return 2
            start += len(idx)
            if any(r["verdict"] == "violation" for r in results):
                stopped = "violation"
                break
            if time.monotonic() - t0 > budget:
                stopped = "time budget"
                break
        search_s = time.monotonic() - t0
        errors = [r for r in results if r["verdict"] == "error"]
        bad = [r for r in results if r["verdict"] == "violation"]
        invalid = [r for r in results if r["verdict"] == "invalid"]

        # -- failures: known ones are announced, others minimised and replayed
        reports, announced, unknown = [], set(), []
        findings = known_findings(prop)
        for r in bad:
            spec = make_spec(prop, seed, tier, r["index"])
            hit = next((f for f in findings if matches(f, module, spec, r)), None)
            if hit is None:
                unknown.append((r, spec))
            else:
                announced.add(hit["what"])
        kinds = []
        for r, spec in unknown:
            if r["kind"] in kinds or len(kinds) >= 2:
                continue
            kinds.append(r["kind"])
            reports.append(report(prop, tier, seed, r, spec, ex))

    # -- determinism: the same seeds in a fresh interpreter, other hash seed, no pool
    n_det = {"quick": 10, "thorough": 40}[tier]
    good = [r for r in results if r["verdict"] in ("ok", "invalid")]
    step = max(1, len(good) // n_det)
    sample = good[::step][:n_det]
    mism = []
    if sample and not bad:
        p = fresh(
            ["digests", prop, "--tier", tier, "--seed", str(seed)]
            + ["--indices", ",".join(str(r["index"]) for r in sample)],
            hashseed="12345",
        )
        lines = dict(
            line.split()[1:3] for line in p.stdout.splitlines() if line.startswith("D ")
        )
        mism = [r["index"] for r in sample if lines.get(str(r["index"])) != r["digest"]]

    write_evidence(
        prop, module, tier, seed, results, search_s, time.monotonic() - t0, sample,
        mism, len(unknown), stopped, workers,
    )
    for f in findings:
        print(f"KNOWN-FINDING: property={prop} {f['what']}")
    if reports:
        confirmed = [r for r in reports if r["confirmed"]]
        for r in reports:
            print(
                f"dst: run {r['index']} kind={r['kind']} confirmed={r['confirmed']}\n"
                f"     {str(r['msg'])[:1500]}"
            )
        for r in confirmed:
            print(f"VIOLATION property={prop} replay={r['path']}", flush=True)
        if confirmed:
            return 1
        print("dst: violations did not replay in a fresh process", flush=True)
        return 2
    if errors:
        for r in errors[:3]:
            print(f"dst: HARNESS ERROR in run {r['index']}: {r['kind']}\n{r['msg']}")
        print(f"dst: {len(errors)} harness errors", flush=True)
        return 2
    if mism:
        print(f"dst: runs not reproducible in a fresh interpreter: {mism}", flush=True)
        return 2
    done = len(results) - len(invalid)
    if done < min(runs, 20) or done < 0.2 * runs:
        print(f"dst: only {done} of {runs} runs done", flush=True)
        return 2
    print(
        f"dst: property={prop} held on {done} runs "
        f"({sum(r['evals'] for r in results)} comparisons, {search_s:.1f}s)",
        flush=True,
    )
    return 0


def report(prop, tier, seed, r, spec, ex):
    """Minimise, write the replay file, confirm it in a fresh process."""
    try:
        small, evals = minimise(prop, spec, r["kind"], ex)
    except BrokenProcessPool:
        small, evals = spec, 0
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    slug = "".join(c if c.isalnum() else "-" for c in r["kind"])[:40]
    path = os.path.join("replays", f"{prop}-{seed}-{r['index']}-{slug}.json")
    confirmed = False
    for candidate in (small, spec):
        for _ in range(3 if candidate is spec else 2):
            res = execute_fresh_file(prop, seed, r, candidate, spec, path, evals)
            if res == 1:
                confirmed = True
                break
        if confirmed:
            break
    return {**r, "path": path, "confirmed": confirmed}


def execute_fresh_file(prop, seed, r, candidate, original, path, evals):
    doc = {
        "property": prop,
        "kind": r["kind"],
        "verif_seed": seed,
        "run_index": r["index"],
        "minimised": candidate is not original,
        "minimisation_runs": evals,
        "spec": candidate,
    }
    full = os.path.join(VERIF, path)
    with open(full, "w") as f:
        json.dump(doc, f, indent=1)
    try:
        p = fresh(["replay", path, "--record"], timeout=RUN_TIMEOUT + 60)
    except subprocess.TimeoutExpired:
        return 2
    return p.returncode


def replay(path, record=False):
    """Re-execute a replay file: exit 1 iff the recorded violation happens again."""
    env.setup()
    with open(path) as f:
        doc = json.load(f)
    res = execute(doc["property"], doc["spec"], keep_events=True)
    same = res["verdict"] == "violation" and res["kind"] == doc["kind"]
    for e in res["events"]:
        print("  ", e)
    print(f"replay: verdict={res['verdict']} kind={res['kind']} digest={res['digest']}")
    print(f"replay: {res['msg']}")
    if record and same:
        doc["digest"], doc["msg"] = res["digest"], res["msg"]
        doc["trace"] = res["events"][:400]
        with open(path, "w") as f:
            json.dump(doc, f, indent=1)
    elif "digest" in doc and same:
        print(f"replay: same trace as recorded: {doc['digest'] == res['digest']}")
    if same:
        print(f"VIOLATION property={doc['property']} replay={path}")
        return 1
    return 0 if res["verdict"] == "ok" else 2


def digests(prop, tier, seed, indices):
    env.setup()
    for i in indices:
        res = execute(prop, make_spec(prop, seed, tier, i))
        print(f"D {i} {res['digest']} {res['verdict']}", flush=True)
    return 0


def write_evidence(
    prop, module, tier, seed, results, search_s, wall_s, sample, mism, n_bad, stopped,
    workers,
):
    counts = Counter()
    for r in results:
        counts.update(r["counts"])
    ran = [r for r in results if r["verdict"] in ("ok", "violation")]
    distinct = {r["digest"] for r in ran if r["nontrivial"]}
    samples = []
    for r in ran[:2]:
        samples.append(
            {
                "run": r["index"],
                "verdict": r["verdict"],
                "events": r["n_events"],
                "comparisons": r["evals"],
                "trace_digest": r["digest"],
                "spec": make_spec(prop, seed, tier, r["index"]),
            }
        )
    faults = {k[6:]: v for k, v in sorted(counts.items()) if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in sorted(counts.items()) if k.startswith("probe:")}
    doc = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": getattr(module, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": len(ran),
            "distinct_nontrivial": len(distinct),
            "rule": module.RULE,
            "samples": samples,
            "comparisons_with_oracle": sum(r["evals"] for r in results),
            "simulated_events": sum(r["n_events"] for r in results),
            "simulated_time": "logical: the code under test reads no clock; time is "
            "the global sequence of deliveries, model calls and tensor operations "
            "(simulated_events counts the recorded ones)",
            "runs_per_hour": round(3600 * len(ran) / max(search_s, 1e-9)),
            "seeds_per_hour": round(3600 * len(ran) / max(search_s, 1e-9)),
            "workers": workers,
            "faults_fired": faults,
            "conditions_reached": probes,
            "distinct_interleavings_measure": "distinct digests of the recorded event "
            "traces of non-trivial runs",
            "invalid_specs": sum(r["verdict"] == "invalid" for r in results),
            "harness_errors": sum(r["verdict"] == "error" for r in results),
            "determinism": {
                "replayed_in_fresh_interpreter": len(sample),
                "other_hash_seed": True,
                "mismatches": len(mism),
            },
            "components": module.COMPONENTS,
            "stopped_by": stopped,
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(wall_s, 2),
        "violations": n_bad,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(doc, f, indent=1)
