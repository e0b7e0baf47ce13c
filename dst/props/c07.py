"""C07: operations leave the caller's objects exactly as they were."""

import random

import torch

from dst import faults, history, problems
from dst.core import InvalidSpec, Violation, global_rng_names, rng_states, sub_rng

ID = "C07"
LEVEL = "fault_enumeration"
RUNS = {"quick": 2600, "thorough": 60000}
TECHNIQUE = (
    "seeded search over histories with injected failures, with snapshots of everything "
    "the caller owns around every step"
)
NOTE = (
    "Sampled, not exhaustive. Snapshots cover parameters, gradients, requires_grad, "
    "modes, buffers, hooks, module attributes, delivered batches, inputs, argument lists, "
    "loss, gradient mode and (except for construction) the global random states."
)
RULE = (
    "One run = one world (with frozen and gradient-carrying parameters and the caller's "
    "own hooks) with 1-2 operators x 3-12 steps, some aborted by an injected failure. "
    "Non-trivial: at least one product, gradient or derived quantity was executed or "
    "aborted between two snapshots."
)
COMPONENTS = {
    "real": ["all curvlinops data-driven operators", "torch autograd"],
    "stub": ["data loader (SimStream)", "failing calls raise instead of running"],
}
ASSUMPTIONS = ["models are free of random or running-statistics layers"]


def gen(rng, tier):
    spec = history.gen_universe(rng)
    if rng.random() < 0.75:
        history.add_faults(rng, spec)
    spec["own"] = {
        "grads": rng.random() < 0.6,
        "frozen": rng.random() < 0.4,
        "hooks": rng.random() < 0.5,
        "alias": rng.random() < 0.5,
        "s": rng.randrange(1000),
    }
    return spec


HOOKS = (
    "_forward_hooks",
    "_forward_pre_hooks",
    "_backward_hooks",
    "_backward_pre_hooks",
    "_forward_hooks_with_kwargs",
    "_forward_pre_hooks_with_kwargs",
    "_forward_hooks_always_called",
    "_state_dict_hooks",
    "_load_state_dict_pre_hooks",
)


def own_state(u, own):
    """Give the caller's objects some state of their own."""
    w = u.world
    g = torch.Generator().manual_seed(own["s"])
    rng = sub_rng("own", own["s"])
    chosen = {id(p) for p in w.params}
    for p in w.model.parameters():
        if own["grads"] and rng.random() < 0.7:
            p.grad = torch.randn(p.shape, generator=g, dtype=torch.float64).to(p.dtype)
        if own["frozen"] and id(p) not in chosen and rng.random() < 0.6:
            p.requires_grad_(False)
    if own["hooks"]:
        for m in w.model.modules():
            if rng.random() < 0.5:
                m.register_forward_hook(lambda *a: None)
            if rng.random() < 0.3:
                m.register_forward_pre_hook(lambda *a: None)
    for m in w.model.modules():
        if rng.random() < 0.2 and not isinstance(m, (torch.nn.Linear,) + problems.FIXED_MODE):
            m.training = not m.training
    w.stream.keep = []


class Snapshot:
    def __init__(self, u):
        w = u.world
        self.u = u
        model = w.model
        self.params = [
            (n, p, p.detach().clone(), p.requires_grad, p.grad,
             None if p.grad is None else p.grad.clone(), p.data_ptr())
            for n, p in model.named_parameters()
        ]
        self.buffers = [(n, b, b.clone()) for n, b in model.named_buffers()]
        self.tree = [n for n, _ in model.named_modules()]
        self.modes = [m.training for m in model.modules()]
        self.hooks = self.all_hooks()
        self.attrs = [sorted(m.__dict__) for m in list(model.modules()) + [w.loss]]
        self.loss = (type(w.loss), w.loss.reduction, w.loss.training)
        self.data = (w.X.clone(), w.y.clone())
        self.plist = list(w.params)
        self.plist_obj = w.params
        self.grad_mode = torch.is_grad_enabled()
        self.dtype = torch.get_default_dtype()
        self.rng = rng_states()

    def all_hooks(self):
        out = []
        for m in list(self.u.world.model.modules()) + [self.u.world.loss]:
            for h in HOOKS:
                d = getattr(m, h, None)
                out.append(list(d.keys()) if d is not None else None)
        for p in self.u.world.model.parameters():
            d = p._backward_hooks
            out.append(list(d.keys()) if d else None)
        import torch.nn.modules.module as M

        out.append(len(M._global_forward_hooks) + len(M._global_forward_pre_hooks))
        return out

    def verify(self, what, rng=True):
        u, w, model = self.u, self.u.world, self.u.world.model

        def bad(kind, msg=""):
            raise Violation(kind, f"{what}: {msg}")

        now = list(model.named_parameters())
        if [n for n, _ in now] != [s[0] for s in self.params] or any(
            p is not s[1] for (_, p), s in zip(now, self.params)
        ):
            bad("parameters-replaced")
        for n, p, v, rg, gr, gv, ptr in self.params:
            if not same(p.detach(), v):
                bad("parameter-changed", n)
            if p.requires_grad != rg:
                bad("requires-grad-changed", n)
            if p.grad is not gr:
                bad("grad-replaced", n)
            if gr is not None and not same(gr, gv):
                bad("grad-changed", n)
            if p.data_ptr() != ptr:
                bad("parameter-storage", n)
        if [n for n, _ in model.named_buffers()] != [b[0] for b in self.buffers]:
            bad("buffers-changed")
        for n, b, v in self.buffers:
            if not same(b, v):
                bad("buffer-changed", n)
        if [n for n, _ in model.named_modules()] != self.tree:
            bad("modules-changed")
        if [m.training for m in model.modules()] != self.modes:
            bad("mode-changed")
        if self.all_hooks() != self.hooks:
            bad("hooks-changed", "registered hooks differ")
        if [sorted(m.__dict__) for m in list(model.modules()) + [w.loss]] != self.attrs:
            bad("module-attributes")
        if (type(w.loss), w.loss.reduction, w.loss.training) != self.loss:
            bad("loss-changed")
        if not same(w.X, self.data[0]) or not same(w.y, self.data[1]):
            bad("data-changed")
        for Xb, yb, Xc, yc, box, keys in w.stream.keep:
            if not same(Xb, Xc) or not same(yb, yc):
                bad("batch-changed", "a delivered batch was modified")
            if keys is not None and (list(box) != keys or box["x"] is not Xb):
                bad("batch-changed", "a delivered mapping was modified")
        w.stream.keep = []
        if w.params is not self.plist_obj or len(w.params) != len(self.plist) or any(
            a is not b for a, b in zip(w.params, self.plist)
        ):
            bad("params-list-changed")
        for X, items, copy_ in u.inputs:
            if items is not None and (
                len(X) != len(items) or any(a is not b for a, b in zip(X, items))
            ):
                bad("input-list-changed", "entries of the caller's list were replaced")
            check_input(X, copy_, bad)
        if torch.is_grad_enabled() != self.grad_mode:
            bad("grad-mode-changed")
        if torch.get_default_dtype() != self.dtype:
            bad("default-dtype-changed")
        if rng:
            names = global_rng_names(self.rng, rng_states())
            if names:
                bad("global-rng", f"advanced the global random state of {names}")


def check_input(X, copy_, bad):
    if isinstance(X, list):
        for a, b in zip(X, copy_):
            check_input(a, b, bad)
    elif isinstance(X, torch.Tensor):
        if X.requires_grad or X.grad is not None:
            bad("input-changed", "requires_grad or grad was set")
        if not same(X, copy_):
            bad("input-changed", "values of the multiplied vector or matrix changed")
    elif hasattr(X, "shape"):
        if X.shape != copy_.shape or not bool((X == copy_).all()):
            bad("input-changed", "values of the multiplied array changed")
    elif X != copy_:
        bad("input-changed")


def same(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and torch.equal(a, b)


def overwrite(results):
    """The caller re-uses the memory of results."""
    for r in results:
        if isinstance(r, torch.Tensor):
            with torch.no_grad():
                r.fill_(123.25)
        elif hasattr(r, "fill") and r.flags.writeable:
            r.fill(123.25)


def run(spec, ctx):
    u = history.Universe(spec, ctx)
    own = spec["own"]
    own_state(u, own)
    done = []
    for j, step in enumerate(spec["steps"]):
        clean = {k: v for k, v in step.items() if k != "fault"}
        what = f"step {j} {step}"
        ctx.ev("step", j, step["do"], step["op"])
        counts = None
        if step.get("fault"):
            state = rng_states()
            random_state = random.getstate()
            counts = history.clean_counts(spec, done, step)
            torch.set_rng_state(torch.frombuffer(bytearray(state[0]), dtype=torch.uint8))
            random.setstate(random_state)
            if counts is None or not counts.get(step["fault"]["site"]):
                ctx.ev("no-site")
                continue
        snap = Snapshot(u)
        u.inputs, u.results = [], []
        aborted = False
        try:
            if counts is not None:
                out = faults.inject(
                    u.world, ctx, step["fault"], counts, lambda: u.do(clean)
                )
                aborted = out.exc is not None
                if aborted:
                    ctx.probe("aborted " + step["do"])
                    if step["do"] == "new":
                        u.slots[step["op"]] = None
            else:
                u.do(clean)
        except history.Missing:
            ctx.ev("missing")
            continue
        except (Violation, InvalidSpec):
            raise
        except Exception as e:  # failing on its own is no licence to leave traces
            ctx.ev("failed", type(e).__name__)
            ctx.probe("failed on its own")
        if not aborted:
            done.append(clean)
        # hook_model() of the fault session re-installs the seam of this universe
        snap.verify(what, rng=step["do"] != "new")
        ctx.checked()
        if own["alias"] and not aborted and step["do"] in ("mul", "grad"):
            overwrite(u.results)
            snap.verify(what + " (results overwritten)", rng=False)


def nontrivial(spec, ctx):
    return ctx.evals > 1


def shrink(spec):
    yield from history.shrink_universe(spec)
    for k in ("grads", "frozen", "hooks", "alias"):
        if spec["own"].get(k):
            yield {**spec, "own": {**spec["own"], k: False}}
