"""C02: Jacobian rows follow the delivered order, the transpose is its adjoint."""


from dst import ops, problems, shrink as sh
from dst.core import Violation, close, err
from dst.refs import Dense
from dst.props.c01 import UPDATES
from dst.stream import gen_cuts, gen_recycle

ID = "C02"
LEVEL = "exploration"
RUNS = {"quick": 5000, "thorough": 150000}
TECHNIQUE = (
    "seeded search over delivery schedules (cuts per traversal) and call histories, compared with dense whole-data Jacobians"
)
NOTE = (
    "Sampled, not exhaustive: thousands of seeded runs on small problems, compared with "
    "float64 reference models written from the definitions; assumes those references "
    "and torch are right."
)
RULE = (
    "One run = one random problem x one data order x a delivery plan that cuts this "
    "order differently on every traversal x a history of products with the Jacobian, "
    "the transposed Jacobian, their adjoints and adjoints of adjoints, each compared "
    "with the dense Jacobian. Non-trivial: some traversal has two or more batches, or "
    "the only batch has two or more data."
)
COMPONENTS = {
    "real": ["curvlinops Jacobian operators", "torch autograd", "backpack R-op/L-op"],
    "stub": ["data loader (SimStream)"],
}
ASSUMPTIONS = ["dense Jacobian via torch autograd on the whole data set is right"]


def gen(rng, tier):
    problem = problems.gen_problem(rng, losses=("mse", "ce"), large=0.03, squeeze=0.06)
    n = max(30, problem["N"]) if problem["N"] > 10 else 12
    order = rng.randrange(1000) if rng.random() < 0.6 else None
    plan = [
        {"cuts": gen_cuts(rng, n), "order": order} for _ in range(rng.choice([1, 2, 3, 5]))
    ]
    calls = []
    for _ in range(rng.randint(1, 4)):
        fmt, k = ops.gen_format(rng)
        calls.append(
            {
                "adj": rng.choice([0, 0, 1, 1, 2, 3]),
                "fmt": fmt,
                "k": k,
                "s": rng.randrange(1000),
                "scipy_adj": rng.random() < 0.3,
                "old": rng.random() < 0.5,
            }
        )
    if rng.random() < 0.25:
        u = {"update": rng.choice(UPDATES), "s": rng.randrange(99)}
        calls.insert(rng.randrange(len(calls)), u)
    return {
        "problem": problem,
        "op": {
            "kind": rng.choice(["jac", "jact"]),
            "num_data": rng.random() < 0.5,
            "check": rng.random() < 0.2,
            "progressbar": rng.random() < 0.05,
        },
        "plan": plan,
        "recycle": gen_recycle(rng),
        "calls": calls,
    }


def delivered_jacobian(world, dense):
    """Dense Jacobian with rows in delivered order."""
    idx = [i for b in world.stream.batches(0) for i in b]
    J = dense.jacobian()
    per = J.shape[0] // world.N
    return J.reshape(world.N, per, -1)[idx].reshape(J.shape)


def run(spec, ctx):
    o = spec["op"]
    plan = spec["plan"]
    if o.get("check"):
        # the determinism check compares batches: the cut has to stay
        plan = plan[:1]
    world = problems.World(spec["problem"], ctx, plan, spec.get("recycle"))
    with ctx.lib("construction"):
        root = ops.build(world, o, check=bool(o.get("check")))
    dense = Dense(world)
    J = delivered_jacobian(world, dense)
    flip = {"jac": "jact", "jact": "jac"}
    taken = {}
    for c in spec["calls"]:
        if "update" in c:
            world.update(c["s"], c["update"])
            J = delivered_jacobian(world, Dense(world))
            ctx.probe("parameters updated")
            continue
        kind, op = o["kind"], root
        for _ in range(c["adj"]):
            with ctx.lib("adjoint"):
                if c.get("old") and (id(op), "adj") in taken:
                    op = taken[id(op), "adj"]  # an adjoint taken earlier
                else:
                    old, op = op, op.adjoint()
                    taken[id(old), "adj"] = op
                    taken[id(old)] = old  # keeps the id unique
                kind = flip[kind]
        A = J if kind == "jac" else J.T
        ctx.ev("call", kind, c["adj"], c["fmt"], c["k"])
        if tuple(op.shape) != tuple(A.shape):
            raise Violation("shape", f"{kind}: {tuple(op.shape)} != {tuple(A.shape)}")
        if c["fmt"] in ("svec", "smat") and c["scipy_adj"]:
            # the adjoint side of the SciPy export
            V = world.matrix(A.shape[0], c["k"], c["s"])
            X = ops.pack(world, V, ops.out_space(world, kind), c["fmt"])
            with ctx.lib("adjoint SciPy product"):
                S = op.to_scipy()
                R = S.rmatvec(X) if c["fmt"] == "svec" else S.rmatmat(X)
            ins = ops.in_space(world, kind)
            R = ops.unpack(world, R, ins, c["fmt"], c["k"])
            want = A.T @ V
        else:
            V = world.matrix(A.shape[1], c["k"], c["s"])
            with ctx.lib("product"):
                R = ops.apply(world, op, kind, V, c["fmt"])
            want = A @ V
        ctx.checked()
        floor = max(1e-3, float(A.norm() * V.norm()) * 1e-2)
        if not close(R, want, world.tol, floor=floor):
            raise Violation(f"product-{kind}", f"{c}: {err(R, want)}")
    for t in range(world.stream.traversals):
        if len(world.stream.batches(t)) > 1:
            ctx.probe("multi-batch")
    if len({tuple(map(tuple, world.stream.batches(t))) for t in range(5)}) > 1:
        ctx.probe("cut changed between traversals")


def nontrivial(spec, ctx):
    return ctx.evals > 0 and (
        ctx.counts["probe:multi-batch"] > 0 or spec["problem"]["N"] > 1
    )


def shrink(spec):
    yield from sh.drop_items(spec, "calls", keep=1)
    yield from sh.sub(spec, "problem", problems.shrink_problem)
    same = {e.get("order") for e in spec["plan"]}
    if same != {None}:
        yield {**spec, "plan": [{**e, "order": None} for e in spec["plan"]]}
    for s in sh.plan(spec):
        if len({e.get("order") for e in s["plan"]}) == 1:
            yield s
    if spec.get("recycle"):
        yield {**spec, "recycle": False}
    yield from sh.sub(
        spec, "op", lambda o: sh.remove_keys(o, ["progressbar", "num_data", "check"])
    )

    def call(c):
        if "update" in c:
            return
        if c["fmt"] != "vec":
            yield {**c, "fmt": "vec", "k": 1}
        if c["k"] > 1:
            yield {**c, "k": c["k"] - 1}
        if c["adj"]:
            yield {**c, "adj": c["adj"] - 1}

    yield from sh.each_item(spec, "calls", call)
