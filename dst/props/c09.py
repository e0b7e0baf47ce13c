"""C09: KFAC checkpoints restore exactly, rejected checkpoints change nothing."""

import copy
import io
import os
import shutil
import tempfile

import torch

from dst import history, ops, problems, shrink as sh
from dst.core import Ctx, InvalidSpec, Violation, close, err, weighted
from dst.stream import gen_cuts

ID = "C09"
LEVEL = "fault_enumeration"
RUNS = {"quick": 12000, "thorough": 300000}
TECHNIQUE = (
    "seeded search over save/restore histories of two operators with damaged and mismatched "
    "checkpoints, every operator shadowed by a twin rebuilt from the history at the save"
)
NOTE = (
    "Sampled, not exhaustive. Checkpoints are damaged entry-wise (missing, of another loss, "
    "model, layer or shape); damage that keeps all shapes and keys cannot be noticed and "
    "is not generated. Torn checkpoint files are rejected by torch.load itself."
)
RULE = (
    "One run = two operators (each with its own model) x a history of uses, optimiser "
    "steps, saves (in memory, byte buffer, file), restores (into a new, used or the same "
    "operator) and restores of damaged checkpoints. Non-trivial: a checkpoint was restored "
    "or rejected and a later result compared."
)
COMPONENTS = {
    "real": [
        "KFACLinearOperator / KFACInverseLinearOperator state_dict, load_state_dict, "
        "from_state_dict",
        "torch.save, torch.load",
    ],
    "stub": ["data loader (SimStream)"],
}
ASSUMPTIONS = ["torch.save/torch.load round trips are exact"]
PROPS = ("trace", "det", "logdet", "frobenius_norm")
DAMAGE = {
    "missing": 4,
    "loss": 2,
    "loss-unknown": 0.5,
    "reduction": 2,
    "model-missing": 1,
    "model-extra": 1,
    "model-shape": 1,
    "shape": 1,
    "factor-missing": 2,
    "factor-other": 2,
    "factor-shape": 2,
    "factor-none": 1,
    "inverse-other": 1,
    "inverse-half": 1,
    "inverse-shape": 1,
}


def gen(rng, tier):
    for _ in range(200):
        problem = problems.gen_problem(
            rng, kfac=True, n_max=5, big=0, f32=0.1, max_D=45, tiny=rng.random() < 0.7
        )
        inverse = rng.random() < 0.45
        sides = [history.gen_op(rng, "kfacinv" if inverse else "kfac") for _ in "ab"]
        if rng.random() < 0.4:
            sides[1] = dict(sides[0])
        try:
            w = problems.World(problem, Ctx())
            history.reject_unequal_padding(w, sides)
        except InvalidSpec:
            continue
        break
    steps = []
    n = rng.randint(4, 10 if tier == "quick" else 18)
    for j in range(n):
        do = weighted(
            rng,
            {"use": 10, "save": 4, "load": 4, "bad": 4, "param": 1.5, "state": 1},
        )
        s = {"do": do, "side": rng.randrange(2)}
        if do == "use":
            s["use"] = rng.choice(["mul", "mul", "prop", "prop"])
            if s["use"] == "mul":
                s["fmt"], s["k"] = ops.gen_format(rng)
                s["s"] = rng.randrange(100)
                s["of"] = rng.choice(["top", "top", "base"])
            else:
                s["name"] = rng.choice(PROPS)
        elif do == "save":
            s["storage"] = rng.choice(["mem", "bytes", "bytes", "file"])
        elif do in ("load", "bad"):
            s["which"] = rng.randrange(10)
            s["how"] = rng.choice(["load", "load", "from"])
            s["perturb"] = rng.random() < 0.5
            s["check"] = rng.random() < 0.1
            if do == "bad":
                s["damage"] = weighted(rng, DAMAGE)
                s["s"] = rng.randrange(1000)
        elif do == "param":
            s["s"] = rng.randrange(100)
        steps.append(s)
    return {
        "problem": problem,
        "sides": sides,
        "plan": [
            {"cuts": gen_cuts(rng, 5), "order": rng.choice([None, rng.randrange(99)])}
        ],
        "steps": steps,
    }


def tensors_of(state):
    return history.state_values(state)


def plain_of(state, prefix=""):
    """Entries of a state dictionary that are not tensors, and all key names."""
    out = {}
    for k in state:
        v, name = state[k], f"{prefix}{k}"
        if isinstance(v, dict):
            out[name] = "dict"
            out.update(plain_of(v, name + "/"))
        elif isinstance(v, torch.Tensor):
            out[name] = "tensor"
        elif isinstance(v, tuple) and any(isinstance(t, torch.Tensor) for t in v):
            out[name] = "tensors"
        elif isinstance(v, (tuple, list, torch.Size)):
            out[name] = tuple(v)
        else:
            out[name] = v
    return out


class Side:
    """One operator with its own model; or its twin."""

    def __init__(self, spec, i, ctx):
        self.spec, self.i = spec, i
        self.o = spec["sides"][i]
        self.w = problems.World(spec["problem"], ctx, spec["plan"])
        self.script = []
        self.top = ops.build(self.w, self.o)
        self.inverse = self.o["kind"] == "kfacinv"

    @property
    def base(self):
        return self.top._A if self.inverse else self.top

    def use(self, s):
        """Result of a use and the number of traversals that it took."""
        t = self.w.stream.traversals
        if s["use"] == "mul":
            op = self.base if s["of"] == "base" else self.top
            V = self.w.matrix(self.w.D, s["k"], s["s"])
            value = ops.apply(self.w, op, "kfac", V, s["fmt"])
        else:
            value = getattr(self.base, s["name"])
            value = torch.as_tensor(value).detach().to(torch.float64).clone()
        self.script.append(s)
        return value, self.w.stream.traversals - t

    def move(self, s):
        with torch.no_grad():
            for k, p in enumerate(self.w.model.parameters()):
                d = 0.3 * self.w.matrix(p.numel(), 1, s["s"] + k)
                p.add_(d.reshape(p.shape))
        self.script.append(s)

    def params(self):
        return [p.detach().clone() for p in self.w.model.parameters()]

    def restore(self, state, how, check, plain=False):
        if how == "load":
            self.top.load_state_dict(state)
            return
        import curvlinops as C

        w = self.w
        if self.inverse and plain:
            A = ops.build(w, {**self.o, "kind": "kfac"})
        else:
            A = C.KFACLinearOperator.from_state_dict(
                state["A"] if self.inverse else state,
                w.model,
                w.params,
                w.stream,
                check_deterministic=check,
                batch_size_fn=w.batch_size_fn,
            )
        if self.inverse:
            A = C.KFACInverseLinearOperator.from_state_dict(state, A)
        self.top = A


def rebuild(spec, i, script):
    twin = Side(spec, i, Ctx())
    for s in script:
        try:
            if s["do"] == "param":
                twin.move(s)
            else:
                twin.use(s)
        except Exception:  # noqa: S110
            pass  # fails in the original, too
    twin.script = list(script)
    return twin


def store(state, storage, scratch, n):
    if storage == "mem":
        return state
    if storage == "bytes":
        buf = io.BytesIO()
        torch.save(state, buf)
        buf.seek(0)
        return torch.load(buf, weights_only=False)
    path = os.path.join(scratch, f"state-{n}.pt")
    torch.save(state, path)
    return torch.load(path, weights_only=False)


def damage(state, kind, side, seed):
    """A copy of the state that does not fit, or ``None`` if not applicable."""
    import random

    rng = random.Random(seed)
    state = copy.deepcopy(state)
    A = state["A"] if side.inverse else state
    model = A["model_func_state_dict"]
    if kind == "missing":
        # entries of either level; not optional ones: all are documented state
        d = rng.choice([A, state])
        del d[rng.choice(sorted(d))]
    elif kind == "loss":
        others = {"MSELoss", "CrossEntropyLoss", "BCEWithLogitsLoss"} - {A["loss_type"]}
        A["loss_type"] = rng.choice(sorted(others))
    elif kind == "loss-unknown":
        A["loss_type"] = "HingeLoss"
    elif kind == "reduction":
        A["loss_reduction"] = {"mean": "sum", "sum": "mean"}[A["loss_reduction"]]
    elif kind == "model-missing":
        del model[rng.choice(sorted(model))]
    elif kind == "model-extra":
        model["net.extra.weight"] = torch.zeros(2, 2)
    elif kind == "model-shape":
        # all other parameters of the checkpoint are legal but different
        for k in model:
            model[k] = model[k] + 1
        k = rng.choice(sorted(model))
        model[k] = torch.zeros(tuple(model[k].shape) + (2,), dtype=side.w.dtype)
    elif kind == "shape":
        n = A["shape"][0] + rng.choice([1, 2])
        A["shape"] = (n, n)
    else:
        inv = kind.startswith("inverse")
        if inv and not side.inverse:
            return None
        pre = "inverse_" if inv else ""
        d = state if inv else A
        ins, grads = d[pre + "input_covariances"], d[pre + "gradient_covariances"]
        if not grads:
            return None
        which = rng.choice([x for x in (ins, grads) if x])
        name = rng.choice(sorted(which))
        if kind == "factor-missing" or kind == "inverse-half":
            del which[name]
            if kind == "factor-missing" and not ins and not grads:
                return None  # same as not computed
        elif kind in ("factor-other", "inverse-other"):
            for x in (ins, grads):
                if name in x:
                    x[name + "0"] = x.pop(name)
        elif kind in ("factor-shape", "inverse-shape"):
            v = which[name]
            grow = lambda t: torch.zeros([s + 1 for s in t.shape], dtype=t.dtype)  # noqa: E731
            if isinstance(v, torch.Tensor):
                which[name] = grow(v)
            elif isinstance(v, tuple) and v[0] is not None:
                which[name] = (grow(v[0]), v[1]) if seed % 2 else (v[0], grow(v[1]))
            else:
                return None
        elif kind == "factor-none":
            A["input_covariances" if seed % 2 else "gradient_covariances"] = None
    return state


def compare(side, twin, s, ctx, what):
    """Use the operator and its twin in the same way."""
    try:
        got, n = side.use(s)
    except Violation:
        raise
    except Exception as e:
        got, n = e, 0
    try:
        want, m = twin.use(s)
    except Violation:
        raise
    except Exception as e:
        want, m = e, 0
    if isinstance(got, Exception) or isinstance(want, Exception):
        if type(got) is not type(want):
            raise Violation("differs", f"{what}: {got!r} instead of {want!r}"[:500])
        return
    ctx.checked()
    tol = side.w.tight
    if not close(got, want, tol * 10, floor=1e-6):
        raise Violation("differs", f"{what}: {err(got, want)}")
    if n != m:
        raise Violation("recomputed", f"{what}: {n} traversals instead of {m}")


def same_state(got, want, what, kind):
    a, b = plain_of(got), plain_of(want)
    if a != b:
        d = [k for k in set(a) | set(b) if a.get(k, "-") != b.get(k, "-")]
        raise Violation(kind, f"{what}: {sorted(d)[:4]}: {[(a.get(k), b.get(k)) for k in d][:3]}")
    a, b = tensors_of(got), tensors_of(want)
    for k in b:
        if a[k].shape != b[k].shape or not bool(
            torch.equal(torch.nan_to_num(a[k], 7.7), torch.nan_to_num(b[k], 7.7))
        ):
            raise Violation(kind, f"{what}: {k}: {err(a[k], b[k])}")


def run(spec, ctx):
    scratch = tempfile.mkdtemp(prefix="dst-c09-")
    try:
        simulate(spec, ctx, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def simulate(spec, ctx, scratch):
    with ctx.lib("construction"):
        sides = [Side(spec, i, ctx) for i in range(2)]
    history.reject_unequal_padding(sides[0].w, spec["sides"])
    twins = [rebuild(spec, i, []) for i in range(2)]
    origin = [0, 1]  # whose options an operator has
    saves = []  # (state, script, origin, owner, storage, snapshot)
    restored = False
    for j, s in enumerate(spec["steps"]):
        i = s["side"]
        side, what = sides[i], f"step {j} {s}"
        ctx.ev("step", j, s["do"], i)
        if s["do"] == "use":
            if restored:
                ctx.probe("used after restore or rejection")
            compare(side, twins[i], s, ctx, what)
        elif s["do"] == "param":
            saves = [x for x in saves if not (x[4] == "mem" and x[3] == i)]
            side.move(s)
            twins[i].move(s)
        elif s["do"] == "state":
            with ctx.lib("state_dict"):
                same_state(side.top.state_dict(), twins[i].top.state_dict(), what, "differs")
            ctx.checked()
        elif s["do"] == "save":
            with ctx.lib("state_dict"):
                state = side.top.state_dict()
            stored = store(state, s["storage"], scratch, j)
            same_state(stored, state, what, "round-trip")
            saves.append(
                (stored, list(side.script), origin[i], i, s["storage"], copy.deepcopy(stored))
            )
        elif saves:
            state, script, org, owner, storage, snap = saves[s["which"] % len(saves)]
            # a checkpoint is a snapshot
            same_state(state, snap, f"{what}: checkpoint", "checkpoint-changed")
            if s["do"] == "load":
                if s["perturb"]:
                    saves = [x for x in saves if not (x[4] == "mem" and x[3] == i)]
                    if storage == "mem" and owner == i:
                        continue
                    side.move({"do": "param", "s": j})
                    twins[i].move({"do": "param", "s": j})
                elif owner != i or storage != "mem":
                    # the restored parameters replace those of live checkpoints
                    saves = [x for x in saves if not (x[4] == "mem" and x[3] == i)]
                with ctx.lib("restore"):
                    side.restore(state, s["how"], s["check"])
                ctx.probe(
                    f"restored {storage} {s['how']} "
                    + ("itself" if owner == i else "other")
                    + (" computed" if state.get("A", state)["gradient_covariances"] else "")
                )
                origin[i], side.script = org, list(script)
                twins[i] = rebuild(spec, org, script)
                if s["check"] and s["how"] == "from" and not side.inverse:
                    # the check for determinism multiplies with the operator
                    probe = {"do": "use", "use": "mul", "of": "base"}
                    probe.update({"fmt": "vec", "k": 1, "s": 0})
                    twins[i].use(probe)
                    side.script.append(probe)
                restored = True
                ctx.checked()
                for a, b in zip(side.params(), twins[i].params()):
                    if not torch.equal(a, b):
                        raise Violation("model-not-restored", what)
                if not (s["check"] and s["how"] == "from"):
                    same_state(side.top.state_dict(), snap, what, "state-not-restored")
            else:
                bad = damage(state, s["damage"], side, s["s"])
                if bad is None:
                    continue
                how = s["how"]
                if how == "from" and s["damage"] in ("loss", "reduction"):
                    how = "load"  # ``from_state_dict`` builds the stated loss itself
                top = side.top
                before = copy.deepcopy(top.state_dict())
                owned = [p for p in side.w.model.parameters()]
                modules = dict(side.w.model.named_modules())
                try:
                    side.restore(bad, how, False, plain=True)
                except Exception as e:
                    ctx.ev("rejected", type(e).__name__)
                    ctx.fired("checkpoint-" + s["damage"])
                else:
                    raise Violation("accepted", f"{what}: damaged checkpoint accepted")
                finally:
                    side.top = top
                ctx.checked()
                restored = True
                same_state(top.state_dict(), before, what, "changed-by-rejected")
                now = list(side.w.model.parameters())
                if [id(p) for p in now] != [id(p) for p in owned]:
                    raise Violation("changed-by-rejected", f"{what}: parameters replaced")
                if dict(side.w.model.named_modules()) != modules:
                    raise Violation("changed-by-rejected", f"{what}: modules replaced")
    for i in range(2):
        V = {"do": "use", "use": "mul", "fmt": "mat", "k": 2, "s": 5, "of": "top"}
        compare(sides[i], twins[i], V, ctx, f"at the end, side {i}")


def nontrivial(spec, ctx):
    return ctx.counts["probe:used after restore or rejection"] > 0


def shrink(spec):
    yield from sh.drop_items(spec, "steps", keep=1)
    yield from sh.sub(spec, "problem", problems.shrink_problem)
    yield from sh.plan(spec)
    yield from sh.each_item(spec, "sides", history.shrink_ops)

    def step(s):
        for key in ("perturb", "check"):
            if s.get(key):
                yield {**s, key: False}
        if s.get("fmt") not in (None, "vec"):
            yield {**s, "fmt": "vec", "k": 1}
        if s.get("storage") not in (None, "mem", "bytes"):
            yield {**s, "storage": "bytes"}

    yield from sh.each_item(spec, "steps", step)
