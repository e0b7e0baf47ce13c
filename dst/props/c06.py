"""C06: a failed operation has no effect on later results."""

from dst import faults, history
from dst.core import Ctx, InvalidSpec, Violation, close, err

ID = "C06"
LEVEL = "fault_enumeration"
RUNS = {"quick": 2600, "thorough": 60000}
TECHNIQUE = (
    "seeded search over histories with exceptions injected at loader, model, loss and "
    "tensor-operation level, compared with a twin in which the failed step never happened"
)
NOTE = (
    "Sampled, not exhaustive: each run injects 1-3 failures at randomly chosen occurrences "
    "(any tensor operation, forward or backward, batch, forward pass, loss call, matrix "
    "factorisation) and compares every later result with a never-faulted twin. Failures "
    "between two tensor operations (pure Python code) are not injected."
)
RULE = (
    "One run = one world with 1-2 operators x a history of 3-12 steps (construct, multiply "
    "in any format, gradient, trace/det/logdet/norm, state dict, rejected input), 1-3 of "
    "which are aborted. Non-trivial: an injected failure really left the library and a "
    "later result was compared with the twin's."
)
COMPONENTS = {
    "real": ["all curvlinops data-driven operators", "torch autograd"],
    "stub": ["data loader (SimStream)", "failing calls raise instead of running"],
}
ASSUMPTIONS = ["a tensor operation fails before it has changed its operands"]


def gen(rng, tier):
    spec = history.gen_universe(rng)
    return history.add_faults(rng, spec)


# results of finished sub-computations may be kept although a later part failed
CACHES = ("covariances/", "trace", "det", "logdet", "frobenius_norm")


def compare(got, want, tol, what, state=False, floor=1e-6):
    if state:
        both = {k for k in got if k in want or not any(c in k for c in CACHES)}
        got = {k: v for k, v in got.items() if k in both}
        want = {
            k: v
            for k, v in want.items()
            if k in both or not any(c in k for c in CACHES)
        }
    if set(got) != set(want):
        raise Violation("after-failure", f"{what}: {sorted(got)} != {sorted(want)}")
    for k in want:
        if not close(got[k], want[k], tol, floor=floor):
            raise Violation("after-failure", f"{what}/{k}: {err(got[k], want[k])}")


def attempt(universe, step):
    """Result of a step, or the error that it raises on its own."""
    try:
        return universe.do(step)
    except (Violation, InvalidSpec, history.Missing):
        raise
    except Exception as e:
        return e


def run(spec, ctx):
    subject = history.Universe(spec, ctx)
    twin = history.Universe(spec, Ctx())
    w = subject.world
    done, failed = [], 0
    for j, step in enumerate(spec["steps"]):
        clean = {k: v for k, v in step.items() if k != "fault"}
        what = f"step {j} {clean}"
        ctx.ev("step", j, step["do"], step["op"])
        swallowed = False
        try:
            if step.get("fault"):
                counts = history.clean_counts(spec, done, step)
                if counts is None or not counts.get(step["fault"]["site"]):
                    ctx.ev("no-site")
                    continue
                try:
                    out = faults.inject(
                        w, ctx, step["fault"], counts, lambda: subject.do(clean)
                    )
                except (Violation, InvalidSpec, history.Missing):
                    raise
                except Exception as e:  # failed on its own before the fault
                    out = faults.Outcome(value=e)
                if out.exc is not None:
                    failed += 1
                    ctx.probe("aborted " + step["do"])
                    if step["do"] == "new":
                        # the caller has no operator; nor has the twin
                        subject.slots[step["op"]] = None
                        twin.slots[step["op"]] = None
                        done = done + [{"do": "drop", "op": step["op"]}]
                    continue
                got, swallowed = out.value, out.fired is not None
            else:
                got = attempt(subject, clean)
        except history.Missing:
            ctx.ev("missing")
            continue
        want = attempt(twin, clean)
        if isinstance(got, Exception) or isinstance(want, Exception):
            if type(got) is not type(want):
                raise Violation(
                    "after-failure", f"{what}: {got!r} instead of {want!r}"[:600]
                )
            ctx.probe("both raise")
            continue
        done.append(clean)
        tol, floor = w.tight, 1e-6
        if swallowed:
            # the handled failure may have led to another, as accurate, computation
            ctx.probe("failure handled inside the library")
            tol, floor = w.tol, 1e-6 if w.tol < 1e-6 else 1e-2
        compare(got, want, tol, what, step["do"] == "state", floor)
        ctx.checked()
        if failed:
            ctx.probe("compared after a failure")


def nontrivial(spec, ctx):
    return ctx.counts["probe:compared after a failure"] > 0


def shrink(spec):
    yield from history.shrink_universe(spec)
