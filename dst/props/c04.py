"""C04: Monte-Carlo curvature is fixed by its seed and right in expectation."""

import itertools
import random

import numpy
import torch

from dst import faults, history, ops, problems, shrink as sh
from dst.core import Ctx, InvalidSpec, Violation, close, err, sub_rng, weighted
from dst.kfacref import KFACRef
from dst.refs import Dense
from dst.stream import gen_cuts

ID = "C04"
LEVEL = "exploration"
RUNS = {"quick": 3000, "thorough": 40000}
TECHNIQUE = (
    "seeded search over ambient random streams, disturbances during products, failures and "
    "operator seeds; expectations by a sequential test over operator seeds"
)
NOTE = (
    "Sampled, not exhaustive. Fixedness is compared exactly (tight tolerance) with an "
    "undisturbed twin. Expectations are tested statistically: alarm only if two "
    "independent samples deviate by more than 8 standard errors and 4 %, so biases below "
    "about 10 % can pass."
)
RULE = (
    "One run = one operator (Monte-Carlo Fisher or KFAC) x one of: a history with "
    "ambient noise between and inside products, failed products and other operators "
    "('fixed'); several seeds ('differ'); the mean over many seeds ('mean'). Non-trivial: "
    "an oracle comparison was made."
)
COMPONENTS = {
    "real": ["FisherMCLinearOperator", "KFACLinearOperator", "torch generators"],
    "stub": ["data loader (SimStream)", "ambient consumers of randomness"],
}
ASSUMPTIONS = ["torch's generators produce independent streams for different seeds"]
SEEDS = (0, 1, 2, 42, 2**31 - 1, 2**32 - 5)


def gen(rng, tier):
    mode = weighted(rng, {"fixed": 10, "differ": 3, "mean": 4})
    kind = rng.choice(["fmc", "fmc", "kfac"])
    small = mode != "fixed"
    problem = problems.gen_problem(
        rng,
        kfac=kind == "kfac",
        n_max=6 if not small else 4,
        big=0.03 if not small else 0,
        f32=0.1 if not small else 0,
        tiny=small,
        max_D=60 if not small else 30,
    )
    o = history.gen_op(rng, kind)
    o["fisher"] = "mc"
    o.pop("progressbar", None)
    o["seed"] = rng.choice(SEEDS) if rng.random() < 0.5 else rng.randrange(2**31)
    o["mc"] = rng.choice([1, 1, 2, 3, 5])
    spec = {
        "mode": mode,
        "problem": problem,
        "op": o,
        "plan": [
            {"cuts": gen_cuts(rng, 6), "order": rng.choice([None, rng.randrange(99)])}
        ],
    }
    if mode == "fixed":
        steps = []
        for _ in range(rng.randint(2, 6)):
            do = weighted(
                rng,
                {"mul": 6, "ambient": 2, "fail": 2, "other": 2, "renew": 1.5, "grad": 0.5},
            )
            s = {"do": do, "s": rng.randrange(1000)}
            if do in ("mul", "fail", "other"):
                s["fmt"], s["k"] = ops.gen_format(rng)
            if do == "fail":
                s["fault"] = faults.gen_fault(rng)
            if do == "other":
                s["same_seed"] = rng.random() < 0.4
            s["noise"] = rng.random() < 0.5
            steps.append(s)
        steps.append({"do": "mul", "fmt": "mat", "k": 2, "s": 7, "noise": False})
        spec["steps"] = steps
    elif mode == "mean":
        many = rng.random() < 0.6 or kind == "kfac"
        o["mc"] = rng.choice([1, 2, 3, 5]) if many else rng.choice([400, 1000])
        spec["seeds"] = (150 if kind == "fmc" else 90) if many else 16
        spec["s"] = rng.randrange(10**6)
    return spec


# ---------------------------------------------------------------------- fixed
def disturb(world, seed):
    """Consume and re-seed ambient randomness inside deliveries and forward passes."""
    rng = sub_rng("disturb", seed)

    def draw(*_):
        r = rng.random()
        if r < 0.4:
            torch.rand(rng.randint(1, 5))
        elif r < 0.6:
            torch.manual_seed(rng.randrange(2**31))
        elif r < 0.8:
            numpy.random.rand(2)
            random.random()

    world.hook_model()
    world.sim_forward = draw
    world.stream.on_event = draw


def calm(world):
    world.sim_forward = None
    world.stream.on_event = None


def dense(world, op):
    return ops.apply(world, op, "fmc", torch.eye(world.D, dtype=torch.float64), "mat")


def fixed(spec, ctx):
    o = spec["op"]
    calm_world = problems.World(spec["problem"], Ctx(), spec["plan"])
    history.reject_unequal_padding(calm_world, [o])
    with ctx.lib("reference"):
        M = dense(calm_world, ops.build(calm_world, o))
    scale = max(float(M.norm()), 1e-12)
    ctx.checked(2)
    if not close(M, M.T, calm_world.tight, floor=scale * 1e-3):
        raise Violation("not-symmetric", err(M, M.T))
    low = float(torch.linalg.eigvalsh((M + M.T) / 2).min())
    if low < -calm_world.tol * scale:
        raise Violation("not-psd", f"smallest eigenvalue {low} of norm {scale}")

    w = problems.World(spec["problem"], ctx, spec["plan"])
    with ctx.lib("construction"):
        op = ops.build(w, o)
    for j, s in enumerate(spec["steps"]):
        ctx.ev("step", j, s["do"])
        if s["do"] == "ambient":
            torch.manual_seed(s["s"])
            random.seed(s["s"])
            continue
        if s["do"] == "renew":
            with ctx.lib("construction"):
                op = ops.build(w, o)
            continue
        if s["noise"]:
            ctx.fired("ambient-noise")
            disturb(w, s["s"])
        try:
            if s["do"] == "grad":
                if o["kind"] == "fmc":
                    op.gradient_and_loss()
                continue
            V = w.matrix(w.D, s["k"], s["s"])
            if s["do"] == "other":
                o2 = {**o, "seed": o["seed"] if s["same_seed"] else s["s"] + 1}
                with ctx.lib("other operator"):
                    R = ops.apply(w, ops.build(w, o2), "fmc", V, s["fmt"])
                if not s["same_seed"]:
                    continue
            elif s["do"] == "fail":
                counts, _ = faults.count(
                    calm_world,
                    Ctx(),
                    lambda: ops.apply(
                        calm_world, ops.build(calm_world, o), "fmc", V, s["fmt"]
                    ),
                    linalg=s["fault"]["site"] == "linalg",
                )
                if not counts.get(s["fault"]["site"]):
                    continue
                out = faults.inject(
                    w,
                    ctx,
                    s["fault"],
                    counts,
                    lambda: ops.apply(w, op, "fmc", V, s["fmt"]),
                )
                if out.exc is not None:
                    continue
                R = out.value
            else:
                with ctx.lib("product"):
                    R = ops.apply(w, op, "fmc", V, s["fmt"])
        finally:
            calm(w)
        ctx.checked()
        if not close(R, M @ V, w.tight, floor=scale * float(V.norm()) * 2e-2):
            raise Violation("not-fixed", f"step {j} {s}: {err(R, M @ V)}")


# ---------------------------------------------------------------------- differ
def differ(spec, ctx):
    o = spec["op"]
    w = problems.World(spec["problem"], ctx, spec["plan"])
    history.reject_unequal_padding(w, [o])
    d = Dense(w)
    J = d.jacobian()
    terms = d._terms().shape[0] * o["mc"]
    if spec["problem"]["loss"] != "mse":
        f = d.term_outputs()
        if spec["problem"]["loss"] == "ce":
            p = f.softmax(1).max()
            if f.shape[1] == 1:
                raise InvalidSpec("one class")
            informative = (f.softmax(1) - 0.5).abs().amax(1) > 1e-2
        else:
            p = torch.maximum(f.sigmoid(), 1 - f.sigmoid()).max()
            informative = (f.sigmoid() - 0.5).abs().amax(1) > 1e-2
        # with p = 1/2 the squared gradient is the same for both labels
        terms = int(informative.sum()) * o["mc"]
        if p > 0.85 or terms < 8:
            raise InvalidSpec("draws may coincide")
    if o["kind"] == "kfac":
        A = KFACRef(w, "expect", o["approx"], o["separate"]).matrix()
    else:
        A = d.ggn()
    if float(J.norm()) < 1e-3 or float(A.norm()) < 1e-6:
        raise InvalidSpec("no curvature")
    seeds = [0, 1, 2, o["seed"]] + [o["seed"] + 10**k for k in range(1, 9)]
    seeds = list(dict.fromkeys(seeds))
    mats = []
    for s in seeds:
        with ctx.lib("product"):
            mats.append(dense(w, ops.build(w, {**o, "seed": s})))
    ctx.checked()
    scale = float(A.norm())
    if spec["problem"]["loss"] == "mse":
        for (i, a), (j, b) in itertools.combinations(enumerate(mats), 2):
            if float((a - b).norm()) < 1e-9 * scale:
                raise Violation("same-draws", f"seeds {seeds[i]} and {seeds[j]} agree")
    elif all(float((a - mats[0]).norm()) < 1e-9 * scale for a in mats):
        raise Violation("same-draws", f"seeds {seeds} all agree")


# ---------------------------------------------------------------------- mean
def fisher_variance(d, V, mc):
    """Exact variance of the quadratic forms ``v^T F v`` over the label draws."""
    J = d.jacobian()[d._terms()]  # [T, C, D]
    f = d.term_outputs()
    T, C = f.shape
    loss = d.w.spec["loss"]
    var = torch.zeros(V.shape[1], dtype=torch.float64)
    for t in range(T):
        U = J[t] @ V  # [C, K]
        if loss == "mse":
            var += 8 * (U**2).sum(0) ** 2
            continue
        if loss == "ce":
            p = f[t].softmax(0)
            G = p[None, :] - torch.eye(C, dtype=torch.float64)
            prob = p
        else:
            p = f[t].sigmoid()
            outcomes = torch.tensor(
                list(itertools.product([0.0, 1.0], repeat=C)), dtype=torch.float64
            )
            G = p[None, :] - outcomes
            prob = torch.where(outcomes == 1, p[None, :], 1 - p[None, :]).prod(1)
        q = (G @ U) ** 2  # [outcomes, K]
        m = prob @ q
        var += prob @ (q - m) ** 2
    return d.prefactor() ** 2 * var / mc


def sample_forms(w, o, V, seeds, ctx):
    """``v^T F_s v`` for all operator seeds ``s`` and columns ``v``."""
    out = []
    for s in seeds:
        with ctx.lib("product"):
            R = ops.apply(w, ops.build(w, {**o, "seed": s}), "fmc", V, "mat")
        out.append((V * R).sum(0))
    return torch.stack(out)


def mean(spec, ctx):
    o = spec["op"]
    w = problems.World(spec["problem"], Ctx(), spec["plan"])
    history.reject_unequal_padding(w, [o])
    d = Dense(w)
    f = d.term_outputs()
    n = spec["seeds"] * o["mc"]
    if spec["problem"]["loss"] == "ce":
        rare = f.softmax(1).min()
    elif spec["problem"]["loss"] == "bce":
        rare = torch.minimum(f.sigmoid(), 1 - f.sigmoid()).min()
        if f.shape[1] > 8:
            raise InvalidSpec("too many outcomes")
    else:
        rare = torch.tensor(1.0)
    if float(rare) * n < 8:
        raise InvalidSpec("rare draws")
    V = w.matrix(w.D, 4, spec["s"])
    V[:, 3] = 0
    V[spec["s"] % w.D, 3] = 1
    if o["kind"] == "kfac":
        ref = KFACRef(w, "expect", o["approx"], o["separate"])
        A = ref.matrix()
    else:
        A = d.ggn()
        exact = fisher_variance(d, V, o["mc"])
    want = (V * (A @ V)).sum(0)
    scale = float(A.norm())
    if scale < 1e-9:
        raise InvalidSpec("no curvature")
    rng = sub_rng("seeds", spec["s"])
    suspects = None
    for stage in range(2):
        k = spec["seeds"] * (1 if stage == 0 else 3)
        seeds = [rng.randrange(2**32) for _ in range(k)]
        q = sample_forms(w, o, V, seeds, ctx)
        if o["kind"] == "kfac":
            var = q.var(0)
        else:
            var = torch.maximum(exact, 0.25 * torch.minimum(exact, q.var(0)))
        se = (var / k).sqrt()
        dev = q.mean(0) - want
        bad = (dev.abs() > 8 * se + 1e-9 * scale) & (dev.abs() > 0.04 * want.abs())
        ctx.checked(len(want))
        ctx.ev("mean", stage, int(bad.sum()))
        if stage == 0:
            suspects = bad * dev.sign()
            if not bool(bad.any()):
                ctx.probe(f"mean ok {o['kind']}")
                return
            ctx.probe("mean suspicious")
        else:
            again = (bad * dev.sign() == suspects) & (suspects != 0)
            if bool(again.any()):
                c = int(again.nonzero()[0])
                raise Violation(
                    "biased",
                    f"mean {float(q[:, c].mean()):.5g} instead of {float(want[c]):.5g} "
                    f"({float(dev[c] / se[c]):.1f} standard errors, {k} seeds)",
                )


def run(spec, ctx):
    ctx.ev("mode", spec["mode"], spec["op"]["kind"])
    ctx.probe(f"mode {spec['mode']} {spec['op']['kind']}")
    {"fixed": fixed, "differ": differ, "mean": mean}[spec["mode"]](spec, ctx)


def shrink(spec):
    if "steps" in spec:
        yield from sh.drop_items(spec, "steps", keep=1)
    yield from sh.sub(spec, "problem", problems.shrink_problem)
    yield from sh.plan(spec)
    yield from sh.sub(spec, "op", history.shrink_ops)

    def step(s):
        if s.get("noise"):
            yield {**s, "noise": False}
        if s.get("fmt") not in (None, "vec"):
            yield {**s, "fmt": "vec", "k": 1}

    if "steps" in spec:
        yield from sh.each_item(spec, "steps", step)
