"""C01: exact curvature products do not depend on how the loader delivers the data."""

from dst import ops, problems, shrink as sh
from dst.core import Violation, close, err
from dst.refs import Dense
from dst.stream import gen_plan, gen_recycle

ID = "C01"
LEVEL = "exploration"
RUNS = {"quick": 6000, "thorough": 60000}
TECHNIQUE = (
    "seeded search over delivery schedules (cuts, orders, per traversal) and call histories, compared with dense whole-data references"
)
NOTE = (
    "Sampled, not exhaustive: thousands of seeded runs on small problems, compared with "
    "float64 reference models written from the definitions; assumes those references "
    "and torch are right."
)
RULE = (
    "One run = one random problem (network, loss, reduction, data, parameter subset) x "
    "one delivery plan that re-cuts and re-shuffles the data on every traversal x a "
    "history of 1-4 products/gradient evaluations, each compared with the dense matrix "
    "of the whole data set. Non-trivial: at least one product over a traversal cut into "
    "two or more batches, or a single batch of two or more data."
)
COMPONENTS = {
    "real": [
        "curvlinops Hessian/GGN/EF operators",
        "torch autograd",
        "backpack R-op products",
    ],
    "stub": ["data loader (SimStream)"],
}
ASSUMPTIONS = ["dense references via torch autograd on the whole data set are right"]


UPDATES = ("add", "data", "rebind", "load")


def gen(rng, tier):
    kind = rng.choice(["hess", "hessb", "ggn", "ef"])
    squeeze = 0.0 if kind == "ef" else 0.05
    problem = problems.gen_problem(rng, large=0.03, squeeze=squeeze)
    problems.vary_loss(rng, problem, [kind])
    o = {"kind": kind, "num_data": rng.random() < 0.5}
    if kind == "hessb":
        o["blocks"] = [rng.randint(1, 3) for _ in range(4)]
    if rng.random() < 0.1:
        o["progressbar"] = True
    calls = []
    for _ in range(rng.randint(1, 3)):
        fmt, k = ops.gen_format(rng)
        if rng.random() < 0.03:
            fmt, k = "mat", rng.randint(8, 20)
        calls.append({"do": "mul", "fmt": fmt, "k": k, "s": rng.randrange(1000)})
    if rng.random() < 0.5:
        calls.insert(rng.randrange(len(calls) + 1), {"do": "grad"})
    if rng.random() < 0.25:
        u = {"do": "update", "s": rng.randrange(99), "how": rng.choice(UPDATES)}
        calls.insert(rng.randrange(len(calls)), u)
    n = max(30, problem["N"]) if problem["N"] > 10 else 12
    return {
        "problem": problem,
        "op": o,
        "plan": gen_plan(rng, n_max=n),
        "recycle": gen_recycle(rng),
        "calls": calls,
    }


def reference(dense, kind, blocks):
    if kind == "hess":
        return dense.hessian()
    if kind == "hessb":
        return dense.hessian_blocks(blocks) if blocks else dense.hessian()
    return dense.ggn() if kind == "ggn" else dense.ef()


def run(spec, ctx):
    world = problems.World(spec["problem"], ctx, spec["plan"], spec.get("recycle"))
    o = spec["op"]
    kind = o["kind"]
    with ctx.lib("construction"):
        op = ops.build(world, o)
    dense = Dense(world)
    A = reference(dense, kind, ops.blocks_of(o, len(world.params)))
    if tuple(op.shape) != (world.D, world.D):
        raise Violation("shape", f"{op.shape} for {world.D} parameters")
    for c in spec["calls"]:
        ctx.ev("call", c["do"], c.get("fmt"), c.get("k"))
        if c["do"] == "update":
            world.update(c["s"], c["how"])
            dense = Dense(world)
            A = reference(dense, kind, ops.blocks_of(o, len(world.params)))
            ctx.probe("parameters updated")
            continue
        before = world.stream.traversals
        if c["do"] == "grad":
            with ctx.lib("gradient_and_loss"):
                gs, loss = op.gradient_and_loss()
            g_ref, l_ref = dense.gradient_and_loss()
            shapes = [tuple(p.shape) for p in world.params]
            g = ops.unpack(world, list(gs), shapes, "lvec", 1, "gradient")[:, 0]
            ctx.checked(2)
            floor = max(1e-3, 1e-2 * dense.gradient_scale())
            if not close(g, g_ref, world.tol, floor=floor):
                raise Violation("gradient", err(g, g_ref))
            if not close(loss.detach(), l_ref, world.tol):
                raise Violation("loss", f"{float(loss)} != {float(l_ref)}")
        else:
            V = world.matrix(world.D, c["k"], c["s"])
            with ctx.lib("product"):
                R = ops.apply(world, op, kind, V, c["fmt"])
            ctx.checked()
            want = A @ V
            # cancellation-safe: errors scale with |A||v|
            scale = A.norm() if kind in ("ggn", "ef") else A.norm() + dense.ggn().norm()
            floor = max(1e-3, float(scale * V.norm()) * 1e-2)
            if not close(R, want, world.tol, floor=floor):
                raise Violation(f"product-{kind}", f"{c['fmt']}: {err(R, want)}")
        for t in range(before, world.stream.traversals):
            nb = len(world.stream.batches(t))
            if nb > 1:
                ctx.probe("multi-batch")
            if any(len(b) == 1 for b in world.stream.batches(t)) and nb > 1:
                ctx.probe("single-datum batch")
    if len({tuple(map(tuple, world.stream.batches(t))) for t in range(3)}) > 1:
        ctx.probe("delivery changed between traversals")


def nontrivial(spec, ctx):
    return ctx.evals > 0 and (
        ctx.counts["probe:multi-batch"] > 0 or spec["problem"]["N"] > 1
    )


def shrink(spec):
    yield from sh.drop_items(spec, "calls", keep=1)
    yield from sh.sub(spec, "problem", problems.shrink_problem)
    yield from sh.plan(spec)
    if spec.get("recycle"):
        yield {**spec, "recycle": False}
    yield from sh.sub(
        spec, "op", lambda o: sh.remove_keys(o, ["progressbar", "num_data", "blocks"])
    )

    def call(c):
        if c["do"] == "mul":
            if c["fmt"] != "vec":
                yield {**c, "fmt": "vec", "k": 1}
            if c["k"] > 1:
                yield {**c, "k": c["k"] - 1}

    yield from sh.each_item(spec, "calls", call)
