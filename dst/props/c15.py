"""C15: concurrent products on shared models and data do not interfere."""

import os

import torch

from dst import env, ops, problems, shrink as sh
from dst.core import (
    EXCEPTIONS,
    Ctx,
    InvalidSpec,
    Violation,
    chain_injected,
    close,
    err,
    weighted,
)
from dst.history import Universe, gen_op, gen_pick, reject_unequal_padding, shrink_ops
from dst.stream import gen_cuts
from dst.threads import Baton, Stuck

ID = "C15"
LEVEL = "fault_enumeration"
RUNS = {"quick": 2500, "thorough": 80000}
TECHNIQUE = (
    "seeded search over thread interleavings: real threads under a baton scheduler that "
    "switches at tensor operations (also inside backward passes), forward passes, loader "
    "events and lines of the library's code, with failures injected in single threads; "
    "every result is compared with the same operation executed alone"
)
NOTE = (
    "Sampled, not exhaustive. Threads switch at tensor operations, forward passes and "
    "loader events, in part of the runs also at every line of curvlinops; not between the "
    "byte codes of one line and not inside one tensor operation."
)
RULE = (
    "One run = 2-4 threads with 1-3 products or gradient evaluations each on 1-4 operators "
    "that share a model, parameters and a loader x one schedule of 1-300 switches x 0-2 "
    "injected failures. Non-trivial: the baton changed hands inside an operation."
)
COMPONENTS = {
    "real": ["all data-driven curvlinops operators", "torch autograd", "Python threads"],
    "stub": ["thread scheduling (baton)", "data loader: SimStream"],
}
ASSUMPTIONS = [
    "a single tensor operation is atomic",
    "networks without state that a forward pass changes",
]

KINDS = ("hess", "hessb", "ggn", "ef", "jac", "jact", "fmc", "kfac", "kfacinv")


def gen(rng, tier):
    kinds = [
        weighted(
            rng,
            {"hess": 3, "hessb": 1, "ggn": 3, "ef": 3, "jac": 2, "jact": 3, "fmc": 3,
             "kfac": 2, "kfacinv": 2},
        )
        for _ in range(rng.choice([1, 2, 2, 3, 4]))
    ]
    kfac = any(k.startswith("kfac") for k in kinds)
    for _ in range(100):
        problem = problems.gen_problem(rng, kfac=kfac, n_max=5, big=0, f32=0.1, max_D=40)
        problems.vary_loss(rng, problem, kinds)
        try:
            w = problems.World(problem, Ctx())
            reject_unequal_padding(w, [{"kind": k} for k in kinds])
        except InvalidSpec:
            continue
        if "jac" in kinds or "jact" in kinds:
            problem.pop("bsfn", None)
        break
    specs = [gen_op(rng, k) for k in kinds]
    for o in specs:
        o.pop("progressbar", None)
        if rng.random() < 0.35:
            gen_pick(rng, o)
    shuffle = not any(k in ("jac", "jact") for k in kinds) and rng.random() < 0.5
    plan = [{"cuts": gen_cuts(rng, 6), "order": rng.randrange(99) if shuffle else None}]
    threads = []
    for j in range(rng.choice([2, 2, 2, 3, 4])):
        tasks = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            # a Monte-Carlo operator has a random stream of its own: one thread only
            usable = [i for i, k in enumerate(kinds) if k != "fmc" or i % 2 == j % 2]
            usable = [
                i for i in usable
                if kinds[i] != "fmc" or specs[i].setdefault("thread", j) == j
            ]
            if not usable:
                continue
            i = rng.choice(usable)
            t = {"op": i, "do": "mul", "s": rng.randrange(100)}
            t["fmt"], t["k"] = ops.gen_format(rng)
            t["k"] = min(t["k"], 2)
            if rng.random() < 0.2 and t["fmt"] not in ("svec", "smat"):
                t["adj"] = True
            if kinds[i] not in ("jac", "jact", "kfacinv") and rng.random() < 0.25:
                t = {"op": i, "do": "grad"}
            elif rng.random() < 0.1 and not kinds[i].startswith("kfac"):
                t["build"] = rng.choice(["plain", "check"])
            tasks.append(t)
        if tasks:
            threads.append(tasks)
    style = weighted(rng, {"few": 3, "some": 3, "many": 2, "dense": 2})
    n = {"few": 2, "some": 8, "many": 60, "dense": 300}[style]
    n = rng.randint(1, n) if style != "dense" else n
    schedule = sorted([round(rng.random(), 5), rng.randrange(3)] for _ in range(n))
    spec = {
        "problem": problem,
        "ops": specs,
        "plan": plan,
        "threads": threads,
        "schedule": schedule,
        "lines": rng.random() < 0.3,
    }
    if rng.random() < 0.35:
        for _ in range(rng.choice([1, 1, 2])):
            tasks = rng.choice(threads) if threads else []
            if tasks:
                rng.choice(tasks)["fault"] = {
                    "site": weighted(rng, {"op": 6, "batch": 2, "forward": 2, "iter": 1}),
                    "frac": rng.random(),
                    "exc": rng.choice(list(EXCEPTIONS)),
                }
    return spec


class Sim:
    def __init__(self, spec, ctx):
        self.spec, self.ctx = spec, ctx
        self.u = Universe(spec, ctx)
        self.w = w = self.u.world
        self.baton = None
        w.hook_model()
        w.sim_forward = lambda: self.baton and self.baton.point("forward")
        w.stream.on_event = lambda site: self.baton and self.baton.point(site)
        for i in range(len(spec["ops"])):
            kind = self.u.kind(i)
            with ctx.lib(f"construction of {kind}", allow=(NotImplementedError,)):
                self.u.do({"do": "new", "op": i})
                if kind == "kfac":
                    self.first_use(self.u.get(i))
                elif kind == "kfacinv":
                    self.first_use(self.u.get(i)._A)

    def first_use(self, kfac):
        """KFAC computes its factors at the first use, which is not shared here."""
        kfac @ torch.zeros(kfac.shape[1], dtype=self.w.dtype)

    def perform(self, t):
        """One operation, on the raw interface (thread-safe harness code)."""
        u, w, i = self.u, self.w, t["op"]
        op = u.get(i)
        if t.get("build"):
            op = u.construct(i, check=t["build"] == "check")
        if t["do"] == "grad":
            gs, loss = op.gradient_and_loss()
            return torch.cat([g.reshape(-1).to(torch.float64) for g in gs] + [
                loss.reshape(1).to(torch.float64)
            ])
        ins, outs = u.spaces(i)
        if t.get("adj"):
            op, ins, outs = op.adjoint(), outs, ins
        V = w.matrix(sum(map(ops.numel, ins)), t["k"], t["s"])
        X = ops.pack(w, V, ins, t["fmt"])
        sp = t["fmt"] in ("svec", "smat")
        R = (op.to_scipy() if sp else op) @ X
        return ops.unpack(w, R, outs, t["fmt"], t["k"], f"{u.kind(i)} product")


def run(spec, ctx):
    try:
        sim = Sim(spec, ctx)
    except NotImplementedError as e:
        raise InvalidSpec(str(e))
    if not spec["threads"]:
        raise InvalidSpec("no threads")
    lines = None
    if spec.get("lines"):
        lines = os.path.join(os.path.realpath(env.REPO), "curvlinops") + os.sep
    w = sim.w

    # alone: expected results, number of yield points, occurrences of the sites
    want, counts, total = {}, {}, 0
    for j, tasks in enumerate(spec["threads"]):
        for n, t in enumerate(tasks):
            baton = sim.baton = Baton(Ctx(), (), lines)
            box = []

            def alone(t=t, box=box, baton=baton):
                baton.arm(None)
                with ctx.lib(f"{t} alone", allow=(NotImplementedError,)):
                    box.append(sim.perform(t))

            try:
                baton.run([alone])
            except NotImplementedError as e:
                raise InvalidSpec(str(e))
            want[j, n] = box[0]
            counts[j, n] = baton.threads[0].counts
            total += baton.step

    schedule = [(1 + int(f * total), o) for f, o in spec["schedule"]]
    baton = sim.baton = Baton(ctx, schedule, lines)
    got = {}
    inside = [0]

    def body(j, tasks):
        def go():
            for n, t in enumerate(tasks):
                f = t.get("fault")
                fault = None
                if f is not None:
                    c = counts[j, n].get(f["site"], 0)
                    if c:
                        at = min(c - 1, int(f["frac"] * c))
                        exc = EXCEPTIONS[f["exc"]](f"injected at {f['site']} {at}")
                        fault = {"site": f["site"], "n": at, "exc": exc}
                baton.arm(fault)
                before = baton.switches
                try:
                    got[j, n] = ("value", sim.perform(t))
                except (Violation, InvalidSpec, Stuck):
                    raise
                except BaseException as e:  # noqa: B036
                    ok = fault is not None and (
                        e is fault["exc"] or chain_injected(e) is fault["exc"]
                    )
                    got[j, n] = ("failed" if ok else "error", e)
                if baton.switches > before:
                    inside[0] += 1
                baton.arm(None)

        return go

    baton.run([body(j, tasks) for j, tasks in enumerate(spec["threads"])])
    ctx.counts["switches"] += baton.switches
    if inside[0]:
        ctx.probe("interleaved")

    for (j, n), (what, value) in sorted(got.items()):
        t = spec["threads"][j][n]
        name = f"thread {j}, task {n}: {sim.u.kind(t['op'])} {t}"
        if what == "error":
            raise Violation(
                f"interference:{type(value).__name__}", f"{name} raised {value!r:.300}"
            )
        if what == "failed":
            continue
        ctx.checked()
        if not close(value, want[j, n], w.tight, floor=1e-9):
            raise Violation("interference", f"{name}: {err(value, want[j, n])}")

    # afterwards everything is as before
    sim.baton = None
    for j, tasks in enumerate(spec["threads"]):
        for n, t in enumerate(tasks):
            with ctx.lib(f"{t} afterwards"):
                value = sim.perform(t)
            ctx.checked()
            if not close(value, want[j, n], w.tight, floor=1e-9):
                raise Violation(
                    "changed-afterwards",
                    f"{sim.u.kind(t['op'])} {t}: {err(value, want[j, n])}",
                )
    for name, p in w.model.named_parameters():
        if p.grad is not None or not p.requires_grad:
            raise Violation("model-changed", f"{name}: .grad or requires_grad changed")
    for name, m in w.model.named_modules():
        if m._forward_hooks or m._forward_pre_hooks or m._backward_hooks:
            raise Violation("model-changed", f"hooks left on {name}")


def nontrivial(spec, ctx):
    return ctx.counts["probe:interleaved"] > 0


def shrink_task(t):
    if "fault" in t:
        yield {k: v for k, v in t.items() if k != "fault"}
    for key in ("adj", "build"):
        if t.get(key):
            yield {k: v for k, v in t.items() if k != key}
    if t["do"] == "mul" and t["fmt"] != "vec":
        yield {**t, "fmt": "vec", "k": 1}


def shrink(spec):
    for j in range(len(spec["threads"])):
        rest = spec["threads"][:j] + spec["threads"][j + 1 :]
        if len(rest) > 1:
            yield {**spec, "threads": rest}
    for j, tasks in enumerate(spec["threads"]):
        if len(tasks) > 1:
            for n in range(len(tasks)):
                new = list(spec["threads"])
                new[j] = tasks[:n] + tasks[n + 1 :]
                yield {**spec, "threads": new}
        for n, t in enumerate(tasks):
            for u in shrink_task(t):
                new = list(spec["threads"])
                new[j] = tasks[:n] + [u] + tasks[n + 1 :]
                yield {**spec, "threads": new}
    if spec.get("lines"):
        yield {**spec, "lines": False}
    yield from sh.drop_items(spec, "schedule", keep=1)
    yield from sh.sub(spec, "problem", problems.shrink_problem)
    yield from sh.plan(spec)
    yield from sh.each_item(spec, "ops", shrink_ops)
