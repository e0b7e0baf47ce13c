"""C22: the activation Hessian always is the mini-batch's current one."""

import copy

import torch
from torch import nn

from dst import faults, ops, problems, shrink as sh
from dst.core import Ctx, InvalidSpec, Violation, close, err, sub_rng, weighted
from dst.refs import Dense

ID = "C22"
LEVEL = "exploration"
RUNS = {"quick": 5000, "thorough": 150000}
TECHNIQUE = (
    "seeded search over histories of products, parameter updates, caller hooks, failing "
    "operations and delivery orders, compared with dense double-backward references"
)
NOTE = (
    "Sampled, not exhaustive: features of at most 60 entries of small networks, compared "
    "with a float64 reference computed on a private copy of the model."
)
RULE = (
    "One run = one problem with a single mini-batch (re-ordered on every traversal in part "
    "of the runs) x 1-2 activation Hessians of features of one model x a history of 3-8 "
    "steps. Non-trivial: a product was compared."
)
COMPONENTS = {
    "real": ["ActivationHessianLinearOperator", "store_activation", "torch autograd"],
    "stub": ["data loader (SimStream)", "hooks and failures of the caller"],
}
ASSUMPTIONS = ["torch's double backward is right"]


def features(world):
    """Inputs and outputs of modules that run once and depend on a parameter."""
    model = copy.deepcopy(world.model)
    model.from_dict = False
    seen, handles = {}, []
    for name, m in model.named_modules():

        def hook(_m, inputs, out, name=name):
            seen.setdefault(name, []).append((inputs, as_tuple(out)))

        handles.append(m.register_forward_hook(hook))
    for m in model.modules():
        if isinstance(m, nn.ReLU):
            m.inplace = False
    model(world.X)
    out = []
    for name, calls in seen.items():
        if len(calls) != 1:
            continue
        for io, ts in zip(("input", "output"), calls[0]):
            for j, t in enumerate(ts):
                if isinstance(t, torch.Tensor) and t.requires_grad and t.numel() <= 60:
                    out.append((name, io, tuple(t.shape), j))
    if not out:
        raise InvalidSpec("no feature")
    return out


def as_tuple(out):
    return (out,) if isinstance(out, torch.Tensor) else tuple(out)


class Scale(nn.Module):
    """A hook of the caller that changes what a module returns."""

    def __init__(self, factor):
        super().__init__()
        self.factor = factor

    def forward(self, module, inputs, out):
        return tuple(self.factor * o for o in out) if isinstance(out, tuple) else (
            self.factor * out
        )


def reference(world, feature, order):
    """Hessian of the loss of the batch, rows of the data in the given order."""
    name, io, _, idx = feature
    model = copy.deepcopy(world.model).to(torch.float64)
    model.from_dict = False
    for m in model.modules():
        if isinstance(m, nn.ReLU):
            m.inplace = False
    kept = []

    def hook(_m, inputs, out):
        kept.append((inputs if io == "input" else as_tuple(out))[idx])

    model.get_submodule(name).register_forward_hook(hook)
    X = world.X[order].to(torch.float64)
    y = world.y[order]
    y = y.to(torch.float64) if y.is_floating_point() else y
    loss = copy.deepcopy(world.loss).to(torch.float64)(model(X), y)
    (z,) = kept
    (g,) = torch.autograd.grad(loss, z, create_graph=True)
    g = g.flatten()
    rows = []
    for i in range(g.numel()):
        if not g.requires_grad:
            rows.append(torch.zeros_like(g))
            continue
        (h,) = torch.autograd.grad(g[i], z, retain_graph=True, allow_unused=True)
        rows.append(torch.zeros_like(g) if h is None else h.flatten())
    return torch.stack(rows).detach(), float(g.detach().norm())


def gen(rng, tier):
    for _ in range(100):
        problem = problems.gen_problem(
            rng, n_max=6, big=0, f32=0.1, max_D=130, inputs=False
        )
        problems.vary_loss(rng, problem, ["acth"])
        if rng.random() < 0.3:
            problem["loader"] = rng.choice(["exact", "subset", "batch_size"])
        arch = problem["arch"]
        if arch["kind"] == "mlp" and len(arch["dims"]) > 2 and rng.random() < 0.25:
            arch["two"] = rng.randrange(len(arch["dims"]) - 2)
        try:
            features(problems.World(problem, Ctx()))
        except InvalidSpec:
            continue
        break
    spec = {
        "problem": problem,
        "ops": [rng.randrange(40) for _ in range(rng.choice([1, 1, 2]))],
        "check": rng.choice([None, False, False]),
        "plan": [{"cuts": [], "order": rng.choice([None, rng.randrange(99)])}],
        "recycle": rng.choice([False, False, False, True, "buffer"]),
    }
    if spec["check"] is False and rng.random() < 0.5:
        spec["plan"] = [{"cuts": [], "order": rng.randrange(99)} for _ in range(3)]
    steps = []
    for _ in range(rng.randint(2, 7 if tier == "quick" else 12)):
        do = weighted(
            rng,
            {"mul": 6, "update": 2, "hook": 1, "unhook": 0.5, "bad": 1, "other": 0.7,
             "new": 0.5, "grad": 0.5, "mode": 0.3},
        )
        s = {"do": do, "op": rng.randrange(2), "s": rng.randrange(1000)}
        if do == "mul":
            s["fmt"], s["k"] = ops.gen_format(rng)
            s["adj"] = rng.random() < 0.2
            s["layout"] = rng.choice([0, 0, 1, 2])
            if rng.random() < 0.2:
                s["fault"] = faults.gen_fault(rng)
        elif do == "update":
            s["how"] = rng.choice(["add", "data", "rebind", "load"])
        elif do == "hook":
            s["factor"] = rng.choice([1.0, 0.5, 2.0])
        elif do == "bad":
            s["how"] = rng.choice(["layer", "io", "index", "batches", "batches", "input"])
        steps.append(s)
    for i in range(len(spec["ops"])):
        fmt, k = ops.gen_format(rng)
        steps.append({"do": "mul", "op": i, "s": 1, "fmt": fmt, "k": k})
    spec["steps"] = steps
    return spec


class Sim:
    def __init__(self, spec, ctx):
        self.spec, self.ctx = spec, ctx
        self.w = problems.World(spec["problem"], ctx, spec["plan"], spec.get("recycle"))
        self.every = features(self.w)
        self.features = [self.every[i % len(self.every)] for i in spec["ops"]]
        self.handles = []

    def make(self, feature, stream=None):
        from curvlinops.experimental import ActivationHessianLinearOperator

        kw = {} if self.spec["check"] is None else {"check_deterministic": False}
        w = self.w
        return ActivationHessianLinearOperator(
            w.model, w.loss, (feature[0], feature[1], feature[3]), stream or w.stream, **kw
        )

    def rejected(self, s):
        """Constructions that must be rejected."""
        w, how = self.w, s["how"]
        feature, stream = self.every[s["s"] % len(self.every)], None
        if how == "layer":
            feature = (feature[0] + "_x",) + feature[1:]
        elif how == "io":
            feature = (feature[0], "outputs") + feature[2:]
        elif how == "batches":
            if w.N < 2:
                return
            plan = [{"cuts": [1 + s["s"] % (w.N - 1)], "order": None}]
            stream = w.new_stream(plan)
        before = len(w.model.get_submodule("")._forward_hooks)
        try:
            if how == "index":
                single = [f for f in self.every if not f[0].endswith("fork")]
                feature = single[s["s"] % len(single)]
                from curvlinops.experimental import ActivationHessianLinearOperator

                ActivationHessianLinearOperator(
                    w.model,
                    w.loss,
                    (feature[0], "output", 1 + s["s"] % 2),
                    w.stream,
                    check_deterministic=False,
                )
            else:
                self.make(feature, stream)
        except ValueError:
            self.ctx.probe("rejected " + how)
        else:
            raise Violation("accepted", f"{how}: {feature}")
        if len(w.model.get_submodule("")._forward_hooks) != before:
            raise Violation("hook-left", how)

    def mul(self, H, feature, s):
        w = self.w
        shapes = [feature[2]]
        V = w.matrix(ops.numel(feature[2]), s["k"], s["s"])
        X = ops.pack(w, V, shapes, s["fmt"], s.get("layout", 0))
        A = H.adjoint() if s.get("adj") else H
        R = (A.to_scipy() if s["fmt"] in ("svec", "smat") else A) @ X
        return V, ops.unpack(w, R, shapes, s["fmt"], s["k"])


def hooks_of(model):
    return [
        (n, len(m._forward_hooks), len(m._forward_pre_hooks), len(m._backward_hooks))
        for n, m in model.named_modules()
    ]


def run(spec, ctx):
    sim = Sim(spec, ctx)
    w = sim.w
    invs = []
    for f in sim.features:
        with ctx.lib(f"construction {f}"):
            H = sim.make(f)
        n = ops.numel(f[2])
        if tuple(H.shape) != (n, n):
            raise Violation("shape", f"{H.shape} for the feature {f}")
        invs.append(H)
    failed = False
    for j, s in enumerate(spec["steps"]):
        what = f"step {j} {s}"
        do = s["do"]
        i = s["op"] % len(invs)
        H, f = invs[i], sim.features[i]
        ctx.ev("step", j, do)
        if do == "update":
            w.update(s["s"], s["how"])
            ctx.probe("parameters updated")
            continue
        if do == "hook":
            if len(sim.handles) < 3:
                names = [n for n, _ in w.model.named_modules() if n]
                m = w.model.get_submodule(names[s["s"] % len(names)])
                sim.handles.append(m.register_forward_hook(Scale(s["factor"])))
                ctx.probe("caller's hook")
            continue
        if do == "unhook":
            if sim.handles:
                sim.handles.pop(s["s"] % len(sim.handles)).remove()
            continue
        if do == "mode":
            w.model.train(bool(s["s"] % 2))
            problems.fixed_mode(w.model)
            continue
        before = hooks_of(w.model)
        if do == "new":
            with ctx.lib(what):
                invs[i] = sim.make(f)
        elif do == "grad":
            with ctx.lib(what):
                gs, _ = H.gradient_and_loss()
        elif do == "other":
            o = sub_rng("other", s["s"]).choice(["hess", "ggn", "ef"])
            if w.spec.get("variant") and o == "ef":
                o = "ggn"  # not every loss is supported
            with ctx.lib(what):
                op = ops.build(w, {"kind": o})
                V = w.matrix(w.D, 2, s["s"])
                R = ops.apply(w, op, o, V, "mat")
        elif do == "bad" and s["how"] == "input":
            n = ops.numel(f[2])
            try:
                H @ torch.zeros(n + 1 + s["s"] % 3, dtype=w.dtype)
            except ValueError:
                pass
            else:
                raise Violation("accepted", what)
        elif do == "bad":
            sim.rejected(s)
        else:
            fault = s.get("fault")
            if fault:
                rng = sub_rng("fault", j, spec.get("ambient", 0))
                counts = {fault["site"]: 1 + rng.randrange(40)}
                out = faults.inject(
                    w, ctx, fault, counts, lambda: sim.mul(H, f, s)
                )
                if hooks_of(w.model) != before:
                    raise Violation("hook-left", what)
                if out.exc is not None:
                    failed = True
                    ctx.probe("failed product")
                    continue
                if out.fired is not None or out.value is None:
                    continue
                V, R = out.value
            else:
                with ctx.lib(what):
                    V, R = sim.mul(H, f, s)
            t = w.stream.traversals - 1
            order = [d for b in w.stream.batches(t) for d in b]
            A, size = reference(w, f, order)
            ctx.checked()
            ctx.probe("compared " + f[1])
            if failed:
                ctx.probe("compared after a failure")
            want = A @ V
            floor = max(1e-3 * size, 1e-8, 1e-2 * float(A.norm() * V.norm()))
            # saturated losses: p (1 - p) is exact up to rounding of order one
            peak = max(1.0, *(float(p.detach().norm()) for p in w.model.parameters()))
            floor = max(floor, 1e-6 * peak**2 * float(V.norm()))
            if not close(R, want, w.tol, floor=floor):
                raise Violation("product", f"{what} {f}: {err(R, want)}")
        if hooks_of(w.model) != before:
            raise Violation("hook-left", what)


def nontrivial(spec, ctx):
    return any(k.startswith("probe:compared") for k in ctx.counts)


def shrink(spec):
    yield from sh.drop_items(spec, "steps", keep=1)
    yield from sh.drop_items(spec, "ops", keep=1)
    yield from sh.sub(spec, "problem", problems.shrink_problem)
    yield from sh.plan(spec)
    if spec.get("recycle"):
        yield {**spec, "recycle": False}
    if spec["check"] is None:
        yield {**spec, "check": False}
    for i, v in enumerate(spec["ops"]):
        for u in range(min(v, 6)):
            yield {**spec, "ops": spec["ops"][:i] + [u] + spec["ops"][i + 1 :]}

    def step(s):
        if s.get("fault"):
            yield {k: v for k, v in s.items() if k != "fault"}
        if s["do"] == "mul":
            if s["fmt"] != "vec":
                yield {**s, "fmt": "vec", "k": 1}
            for key in ("adj", "layout"):
                if s.get(key):
                    yield {k: v for k, v in s.items() if k != key}

    yield from sh.each_item(spec, "steps", step)
