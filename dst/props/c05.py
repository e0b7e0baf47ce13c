"""C05: non-deterministic data or models are detected, deterministic ones accepted."""

import copy
import random

import torch

from dst import history, ops, problems, shrink as sh
from dst.core import Ctx, InvalidSpec, Violation, chain_injected, sub_seed, weighted
from dst.refs import Dense
from dst.stream import gen_cuts, gen_recycle

ID = "C05"
LEVEL = "exploration"
RUNS = {"quick": 4000, "thorough": 100000}
TECHNIQUE = (
    "seeded search over sequences of loader traversals and forward passes with content "
    "faults, judged by what was delivered"
)
NOTE = (
    "Sampled, not exhaustive; only clear-cut cases are judged: differences of more than "
    "2 % of loss, gradient or product must be detected, re-ordered or re-cut (double "
    "precision) and identical traversals must be accepted, anything in between is not."
)
RULE = (
    "One run = one operator constructed with the default check on a loader (or model) "
    "whose traversals (forward passes) are healthy, re-ordered, re-cut or damaged "
    "following a pattern (every traversal, alternating, one, from one on). Non-trivial: "
    "the run had a clear-cut expected outcome that was compared."
)
COMPONENTS = {
    "real": ["constructors of all data-driven operators", "torch autograd"],
    "stub": ["data loader (SimStream)", "model outputs perturbed by the simulator"],
}
ASSUMPTIONS = [
    "the check compares two traversals for loss and gradient, then two products "
    "(otherwise only runs in which all traversals differ are judged)"
]
KINDS = ("hess", "hessb", "ggn", "ef", "fmc", "jac", "jact", "kfac")
FIXED = ("fmc", "jac", "jact")


def gen(rng, tier):
    kind = rng.choice(KINDS)
    problem = problems.gen_problem(
        rng, kfac=kind == "kfac", n_max=8, big=0.02, f32=0.1, max_D=70
    )
    problems.vary_loss(rng, problem, [kind])
    if kind == "jac" or kind == "jact":
        problem.pop("bsfn", None)
    cuts = gen_cuts(rng, 8)
    if rng.random() < 0.05:
        # a long stream
        problem["N"] = rng.randint(11, 24)
        cuts = gen_cuts(rng, 24, style=rng.choice(["singles", "singles", "many"]))
    what = weighted(rng, {"content": 6, "order": 4, "model": 2, "none": 1})
    spec = {
        "problem": problem,
        "op": history.gen_op(rng, kind),
        "cuts": cuts,
        "order": rng.choice([None, rng.randrange(99)]),
        "what": what,
        "recycle": gen_recycle(rng, 0.1),
    }
    spec["op"].pop("progressbar", None)
    if what == "content":
        spec["fault"] = {
            "k": rng.choice(
                ["drop", "dup", "truncate", "augment", "relabel", "swap", "permute_rows"]
                + ["extra"] * (problem.get("input", "tensor") != "tensor") * 3
            ),
            "b": rng.choice([0, 1, 2, 7, -1, rng.randrange(30)]),
            "mag": rng.choice([0.2, 1.0, 3.0]),
            "s": rng.randrange(1000),
        }
        spec["pattern"] = rng.choice(["every", "alternate", "single", "single", "from"])
        spec["offset"] = rng.randrange(4)
    elif what == "order":
        spec["recut"] = rng.random() < 0.7
        spec["reorder"] = rng.random() < 0.7
        spec["s"] = rng.randrange(1000)
    elif what == "model":
        spec["noise"] = rng.choice(["call", "global", "harmless", "curvature"])
        spec["mag"] = rng.choice([0.5, 2.0])
        spec["s"] = rng.randrange(1000)
    return spec


def affected(pattern, offset, t):
    """Whether check traversal ``t`` (0, 1, ...) is faulty."""
    if pattern == "every":
        return True
    if pattern == "alternate":
        return t % 2 == 1
    if pattern == "single":
        return t == offset
    return t >= offset


def plan_of(spec, pre, salt):
    """Healthy up to the check, then what the specification asks for."""
    base = {"cuts": spec["cuts"], "order": spec["order"]}
    plan = [dict(base) for _ in range(pre)]
    for t in range(12):
        e = dict(base)
        if spec["what"] == "content" and affected(spec["pattern"], spec["offset"], t):
            f = dict(spec["fault"])
            f["s"] = f["s"] + 1000 * salt + (17 * t if spec["pattern"] == "every" else 0)
            if spec["pattern"] == "every":
                f["b"] = f["b"] + t
            e["faults"] = [f]
        if spec["what"] == "order":
            rng = random.Random(sub_seed("order", spec["s"], t))
            if spec["reorder"]:
                e["order"] = rng.randrange(10**6)
            if spec["recut"]:
                e["cuts"] = gen_cuts(rng, max(8, spec["problem"]["N"]))
        plan.append(e)
    return plan


def construct(spec, plan, check, ctx, salt=0):
    """Construct on a fresh world. Returns (world, stream, exception)."""
    world = problems.World(spec["problem"], ctx, plan, spec.get("recycle"))
    history.reject_unequal_padding(world, [spec["op"]])
    if spec["what"] == "model" and check is not False:
        world.hook_model()
        calls = [0]

        def perturb(out):
            calls[0] += 1
            if spec["noise"] == "global":
                noise = torch.randn(out.shape).to(out.dtype)
            else:
                g = torch.Generator().manual_seed(
                    sub_seed("noise", spec["s"], salt, calls[0])
                )
                noise = torch.randn(out.shape, generator=g).to(out.dtype)
            if spec["noise"] == "harmless":
                torch.rand(3)
                return out
            if spec["noise"] == "curvature":
                # neither the value nor the gradient changes
                zero = sum(((p - p.detach()) ** 2).sum() for p in world.params)
                return out + spec["mag"] * zero * noise
            return out + spec["mag"] * noise

        world.sim_output = perturb
    try:
        ops.build(world, spec["op"], check=check)
    except (InvalidSpec, Violation):
        raise
    except Exception as e:
        if chain_injected(e):
            raise
        return world, e
    return world, None


def totals(world, delivered):
    """Data-set loss and gradient of what one traversal delivered."""
    d = Dense(world)
    loss, grad = 0.0, torch.zeros(d.D, dtype=torch.float64)
    for X, y, _, _ in delivered:
        f = 1.0 if world.loss.reduction == "sum" else X.shape[0] / world.N
        yb = y.to(torch.float64) if y.is_floating_point() else y
        loss_b = f * d.loss(d.model(X.to(torch.float64)), yb)
        gs = torch.autograd.grad(loss_b, d.params)
        loss = loss + loss_b.detach()
        grad = grad + d.flat(gs).detach()
    return torch.as_tensor(loss).reshape(1), grad


def matrix(world, delivered, kind, o):
    out = 0
    for X, y, _, _ in delivered:
        w = copy.copy(world)
        w.X, w.y = X, y
        d = Dense(w)
        f = 1.0 if world.loss.reduction == "sum" else X.shape[0] / world.N
        if kind in ("hess", "hessb"):
            A = d.hessian()
            blocks = ops.blocks_of(o, len(world.params)) if kind == "hessb" else None
            if blocks:
                A = A * d.block_mask(blocks)
        else:
            A = d.ggn() if kind == "ggn" else d.ef()
        out = out + f * A
    return out


def differ(a, b):
    """Clearly different (True), clearly equal (False), or unclear (None)."""
    scale = max(float(a.abs().max()), float(b.abs().max()))
    diff = float((a - b).abs().max())
    if diff > 0.02 * scale and diff > 1e-3:
        return True
    return False if diff <= 1e-9 * max(scale, 1e-3) else None


def same_batches(a, b):
    """Whether two traversals delivered the same batches: True, False, None: unclear."""
    if len(a) != len(b):
        return False
    verdict = True
    for (Xa, ya, _, ta), (Xb, yb, _, tb) in zip(a, b):
        if ta != tb:
            return False
        if Xa.shape != Xb.shape or ya.shape != yb.shape:
            return False
        for p, q in ((Xa, Xb), (ya, yb)):
            d = differ(p.to(torch.float64), q.to(torch.float64))
            if d:
                return False
            if d is None or not torch.equal(p, q):
                verdict = None
    return verdict


def expectation(spec, world, pre, total, plan):
    """'raise', 'accept', or None if the case is not clear-cut."""
    kind, o = spec["op"]["kind"], spec["op"]
    usual = total - pre == (3 if kind == "kfac" else 4)
    n = total - pre
    stream = world.new_stream(plan)
    D = [stream.delivered(pre + t) for t in range(max(n, 1))]
    if spec["what"] == "model":
        if spec["noise"] == "harmless":
            return "accept"
        if spec["noise"] == "curvature" and kind not in ("hess", "hessb"):
            return "accept"
        flat = spec["problem"].get("variant") in ("huber", "smooth_l1")
        if spec["noise"] == "curvature" and (flat or spec["problem"].get("fit") is not None):
            return None  # no gradient of the loss, no curvature
        return None if degenerate(world) and kind not in ("jac", "jact") else "raise"
    if not usual and n < 2:
        return None  # not a check that uses the loader as assumed
    # lost or duplicated data contradict the number of data if it is given
    full = all(sum(len(b[2]) for b in d) == world.N for d in D)
    pairs = [(0, 1)] if usual else [(i, j) for i in range(n) for j in range(i)]

    if kind in FIXED:
        same = [same_batches(D[i], D[j]) for i, j in pairs]
        if all(s is False for s in same):
            return "raise"
        every = [same_batches(D[0], D[t]) for t in range(n)]
        return "accept" if full and all(s is True for s in every) else None

    different = []
    T = [totals(world, d) for d in D]
    for i, j in pairs:
        different.append(bool(differ(T[i][0], T[j][0]) or differ(T[i][1], T[j][1])))
    if all(different):
        return "raise"
    if usual and kind != "kfac":
        if differ(matrix(world, D[2], kind, o), matrix(world, D[3], kind, o)):
            return "raise"
    # the same data, in whatever order and cut
    changed = any(e.get("faults") for e in plan)
    if all(f["k"] == "extra" for e in plan for f in e.get("faults", [])):
        changed = False  # entries that the model ignores
    identical = all(same_batches(D[0], D[t]) is True for t in range(n))
    if full and (identical or (not changed and world.dtype == torch.float64)):
        return "accept"
    return None


def degenerate(world):
    """The loss does not depend on the model's output."""
    ignored = world.spec.get("variant") == "ignore" and not bool(world.y.any())
    return ignored or (world.spec["loss"] == "ce" and world.out_shape[1] == 1)


def run(spec, ctx):
    if spec["problem"].get("input", "tensor") == "tensor":
        if spec.get("fault", {}).get("k") == "extra":
            raise InvalidSpec("there are no other entries")
    # traversals of a construction without and with the check, on a healthy loader
    healthy = {**spec, "what": "none"}
    base = [{"cuts": spec["cuts"], "order": spec["order"]}]
    state = torch.get_rng_state()
    w0, e0 = construct(healthy, base, False, Ctx())
    w1, e1 = construct(healthy, base, None, Ctx())
    torch.set_rng_state(state)
    if e0 is not None:
        raise Violation("construction", f"failed without the check: {e0!r}")
    ctx.checked()
    if e1 is not None:
        raise Violation("false-rejection", f"healthy loader: {e1!r}")
    if degenerate(w0) and spec.get("fault", {}).get("k") == "relabel":
        raise InvalidSpec("there is no other label")
    pre, total = w0.stream.traversals, w1.stream.traversals
    ctx.ev("traversals", pre, total)

    want, outcomes = None, []
    # a missed difference must be missed for several streams of random numbers
    for salt in range(4):
        plan = plan_of(spec, pre, salt)
        world, e = construct(spec, plan, None, ctx, salt)
        want = expectation(spec, world, pre, total, plan)
        outcomes.append(e)
        ctx.ev("outcome", want, type(e).__name__)
        if want is None:
            ctx.probe("not clear-cut")
            return
        ctx.checked()
        if want == "accept":
            ctx.probe(f"accept {spec['what']}")
            if e is not None:
                raise Violation("false-rejection", f"{spec['what']}: {e!r}")
            return
        for f in [spec.get("fault", {}).get("k") or spec["what"]]:
            ctx.fired(f)
        if isinstance(e, RuntimeError):
            ctx.probe(f"detected {spec.get('pattern', '')}")
            return
        if e is not None:
            raise Violation("wrong-exception", repr(e))
    raise Violation("missed", f"{spec['what']} accepted with {len(outcomes)} seeds")


def nontrivial(spec, ctx):
    return ctx.evals > 1


def shrink(spec):
    yield from sh.sub(spec, "problem", problems.shrink_problem)
    if spec.get("recycle"):
        yield {**spec, "recycle": False}
    yield from (
        {**spec, **{k: v for k, v in e.items()}}
        for e in sh.plan_entry({"cuts": spec["cuts"], "order": spec["order"]})
    )
    yield from sh.sub(spec, "op", history.shrink_ops)
    if spec.get("pattern") == "every":
        yield {**spec, "pattern": "alternate"}
    for k in ("reorder", "recut"):
        if spec.get(k):
            yield {**spec, k: False}
