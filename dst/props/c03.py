"""C03: KFAC's factors do not depend on how the loader delivers the data."""

import torch

from dst import ops, problems, shrink as sh
from dst.core import InvalidSpec, Violation, close, err
from dst.kfacref import KFACRef, unequal_padding
from dst.stream import gen_plan, gen_recycle

ID = "C03"
LEVEL = "exploration"
RUNS = {"quick": 3500, "thorough": 120000}
TECHNIQUE = (
    "seeded search over delivery schedules and KFAC configurations, compared with a datum-by-datum reference model"
)
NOTE = (
    "Sampled, not exhaustive: thousands of seeded runs on small problems, compared with "
    "float64 reference models written from the definitions; assumes those references "
    "and torch are right."
)
RULE = (
    "One run = one network of Linear/Conv2d layers x loss, reduction, KFAC options and "
    "parameter selection x a delivery plan that re-cuts and re-shuffles the data on "
    "every traversal; the operator's products are compared with the dense KFAC matrix "
    "computed datum by datum. Non-trivial: two or more data."
)
COMPONENTS = {
    "real": ["curvlinops KFAC operator", "torch autograd and module hooks", "einconv"],
    "stub": ["data loader (SimStream)"],
}
ASSUMPTIONS = [
    "networks apply every selected layer exactly once per forward pass",
    "unequal 'same' padding is a documented limitation of expand (not explored there)",
]


def gen_kfac_op(rng, fishers=("type-2", "empirical", "forward-only")):
    return {
        "kind": "kfac",
        "fisher": rng.choice(fishers),
        "approx": rng.choice(["expand", "reduce"]),
        "separate": rng.random() < 0.5,
        "num_data": rng.random() < 0.5,
        "terms": rng.random() < 0.4,
        "seed": rng.randrange(100),
    }


def gen(rng, tier):
    problem = problems.gen_problem(rng, kfac=True, large=0.03)
    n = max(30, problem["N"]) if problem["N"] > 10 else 12
    calls = []
    for _ in range(rng.choice([1, 1, 2])):
        fmt, k = ops.gen_format(rng)
        calls.append({"fmt": fmt, "k": k, "s": rng.randrange(1000)})
    o = gen_kfac_op(rng)
    if rng.random() < 0.05:
        o["progressbar"] = True
    return {
        "problem": problem,
        "op": o,
        "plan": gen_plan(rng, n_max=n),
        "recycle": gen_recycle(rng),
        "calls": calls,
    }


def make_ref(world, o):
    """Reference, or InvalidSpec where the library documents that it cannot."""
    ref = KFACRef(world, o["fisher"], o["approx"], o["separate"])
    if o["approx"] == "expand":
        for m, pos in ref.layers.values():
            if hasattr(m, "kernel_size") and "weight" in pos and unequal_padding(m):
                raise InvalidSpec("unequal padding")
    return ref


def run(spec, ctx):
    o = spec["op"]
    world = problems.World(spec["problem"], ctx, spec["plan"], spec.get("recycle"))
    ref = make_ref(world, o)
    K = ref.matrix()
    with ctx.lib("construction"):
        op = ops.build(world, o)
    for c in spec["calls"]:
        ctx.ev("call", c["fmt"], c["k"])
        V = world.matrix(world.D, c["k"], c["s"])
        with ctx.lib("product"):
            R = ops.apply(world, op, "kfac", V, c["fmt"])
        ctx.checked()
        want = K @ V
        floor = max(1e-6, float(K.norm() * V.norm()) * 1e-2)
        if not close(R, want, world.tol, floor=floor):
            raise Violation(f"product-{o['fisher']}", f"{c['fmt']}: {err(R, want)}")
    # block by block: small blocks must not hide behind large ones
    if world.D <= 40:
        eye = torch.eye(world.D, dtype=torch.float64)
        with ctx.lib("product with identity"):
            M = ops.apply(world, op, "kfac", eye, "mat")
        ctx.checked()
        off = 0
        for p in world.params:
            s = slice(off, off + p.numel())
            off += p.numel()
            if not close(M[s], K[s], 10 * world.tol, floor=1e-9):
                raise Violation(f"block-{o['fisher']}", err(M[s], K[s]))
    for t in range(world.stream.traversals):
        if len(world.stream.batches(t)) > 1:
            ctx.probe("multi-batch")
    ctx.probe("loss:" + spec["problem"]["loss"])
    ctx.probe("fisher:" + o["fisher"])
    if any(len(pos) == 1 for _, pos in ref.layers.values()):
        ctx.probe("layer with only weight or only bias")


def nontrivial(spec, ctx):
    return ctx.evals > 0 and spec["problem"]["N"] > 1


def op_shrink(o):
    yield from sh.remove_keys(o, ["progressbar", "num_data", "terms"])
    yield from sh.toward(o, "approx", ["expand", "reduce"])
    yield from sh.toward(o, "separate", [True, False])
    yield from sh.toward(o, "fisher", ["forward-only", "empirical", "type-2", "mc"])


def call_shrink(c):
    if c.get("fmt") not in (None, "vec"):
        yield {**c, "fmt": "vec", "k": 1}
    if c.get("k", 1) > 1:
        yield {**c, "k": c["k"] - 1}


def shrink(spec):
    yield from sh.drop_items(spec, "calls", keep=1)
    yield from sh.sub(spec, "problem", problems.shrink_problem)
    yield from sh.plan(spec)
    if spec.get("recycle"):
        yield {**spec, "recycle": False}
    yield from sh.sub(spec, "op", op_shrink)
    yield from sh.each_item(spec, "calls", call_shrink)
