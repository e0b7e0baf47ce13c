"""Histories of operations on the operators of one world, with optional faults.

A universe is a world plus numbered slots for operators. Steps are plain JSON:

    {"do": "new", "op": i, "check": bool}         construct (again) operator i
    {"do": "mul", "op": i, "fmt", "k", "s", "adj": bool, "layout": 0|1|2}
    {"do": "grad", "op": i}                       gradient_and_loss
    {"do": "prop", "op": i, "name": "trace" | "det" | "logdet" | "frobenius_norm"}
    {"do": "state", "op": i}                      state_dict of (inverse) KFAC
    {"do": "invalid", "op": i, "how": ...}        rejected input

each with an optional ``"fault"`` (see `dst.faults`).
"""

import copy

import torch

from dst import faults, ops, problems
from dst.core import Ctx, InvalidSpec, Violation, weighted
from dst.stream import gen_cuts

PROPS = ("trace", "det", "logdet", "frobenius_norm")
INVALID = (
    "long", "short", "rank0", "rank3", "list-len", "list-shape", "list-cols", "type",
    "list-turned", "list-flat",
)


class Missing(Exception):
    """The step refers to an operator that does not exist (yet)."""


class Universe:
    def __init__(self, spec, ctx, world=None):
        self.spec, self.ctx = spec, ctx
        self.world = world or problems.World(
            spec["problem"], ctx, spec["plan"], spec.get("recycle", False)
        )
        reject_unequal_padding(self.world, spec["ops"])
        self.slots = [None] * len(spec["ops"])
        self.inputs = []  # (packed input, pristine copy) of the last step
        self.results = []  # raw results of the last step
        self.act = {}

    # -- operator spaces -------------------------------------------------------
    def kind(self, i):
        return self.spec["ops"][i]["kind"]

    def spaces(self, i):
        k, w = self.kind(i), self.world
        if k == "acth":
            s = [activation_shape(w, self.spec["ops"][i])]
            return s, s
        params = self.params(i)
        return ops.in_space(w, k, params), ops.out_space(w, k, params)

    def params(self, i):
        """The parameters of operator ``i`` (of its KFAC operator for an inverse)."""
        o = self.spec["ops"][i]
        if "of" in o:
            o = self.spec["ops"][o["of"]]
        return ops.params_of(self.world, o)

    def get(self, i):
        if self.slots[i] is None:
            raise Missing()
        return self.slots[i]

    def construct(self, i, check=False):
        o = self.spec["ops"][i]
        if o["kind"] == "acth":
            import curvlinops.experimental.activation_hessian as E

            return E.ActivationHessianLinearOperator(
                self.world.model,
                self.world.loss,
                activation_of(self.world, o),
                self.world.stream,
                check_deterministic=check,
            )
        if o["kind"] == "kfacinv" and "of" in o:
            return ops.build_inverse(self.get(o["of"]), o)
        return ops.build(self.world, o, check=check)

    # -- steps -----------------------------------------------------------------
    def do(self, step):
        """Execute a step, return ``{name: float64 tensor}``."""
        self.inputs, self.results = [], []
        i, w, do = step["op"], self.world, step["do"]
        o = self.spec["ops"][i]
        if do == "new":
            self.slots[i] = None
            op = self.construct(i, step.get("check", False))
            self.slots[i] = op
            return {"shape": torch.tensor(op.shape, dtype=torch.float64)}
        if do == "drop":
            self.slots[i] = None
            return {}
        op = self.get(i)
        if do == "grad":
            gs, loss = op.gradient_and_loss()
            self.results = list(gs) + [loss]
            shapes = [tuple(p.shape) for p in self.params(i)]
            if o["kind"] == "acth":
                shapes = [tuple(p.shape) for p in w.model.parameters()]
            g = ops.unpack(w, list(gs), shapes, "lvec", 1, "gradient")
            return {"gradient": g, "loss": loss.detach().to(torch.float64)}
        if do == "prop":
            if o["kind"] == "kfacinv":
                op = op._A
            v = getattr(op, step["name"])
            return {step["name"]: torch.as_tensor(v).detach().to(torch.float64)}
        if do == "state":
            return state_values(op.state_dict())
        if do == "scipy":
            s = op.to_scipy()
            return {"shape": torch.tensor(s.shape, dtype=torch.float64)}
        ins, outs = self.spaces(i)
        if step.get("adj"):
            op, ins, outs = op.adjoint(), outs, ins
        if do == "invalid":
            X = invalid_input(w, ins, step["how"])
            self.remember(X)
            try:
                op @ X
            except ValueError as e:
                if isinstance(e, faults_types()):
                    raise
                return {}
            raise Violation("invalid-accepted", f"{step['how']} input accepted")
        if do == "mul":
            dim = sum(ops.numel(s) for s in ins)
            V = w.matrix(dim, step["k"], step["s"])
            if step.get("eye"):
                V = torch.eye(dim, dtype=torch.float64)
            X = ops.pack(w, V, ins, step["fmt"], step.get("layout", 0))
            self.remember(X)
            sp = step["fmt"] in ("svec", "smat")
            R = (op.to_scipy() if sp else op) @ X
            self.results = list(R) if isinstance(R, list) else [R]
            return {
                "product": ops.unpack(
                    w, R, outs, step["fmt"], step["k"], f"{o['kind']} product"
                )
            }
        raise InvalidSpec(do)

    def remember(self, X):
        self.inputs = [(X, list(X) if isinstance(X, list) else None, clone(X))]


def reject_unequal_padding(world, op_specs):
    """KFAC-expand documents that it does not support unequal padding."""
    from dst.kfacref import unequal_padding

    if any(o["kind"] in ("kfac", "kfacinv") for o in op_specs):
        for m in world.model.modules():
            if isinstance(m, torch.nn.Conv2d) and unequal_padding(m):
                raise InvalidSpec("unequal padding")


def faults_types():
    from dst.core import Injected

    return Injected


def clone(X):
    if isinstance(X, list):
        return [clone(x) for x in X]
    if isinstance(X, torch.Tensor):
        return X.detach().clone()
    return copy.deepcopy(X)


def state_values(sd, prefix=""):
    """Tensors and numbers of a state dictionary, in a canonical order."""
    out = {}
    for k in sorted(sd, key=str):
        v = sd[k]
        name = f"{prefix}{k}"
        if isinstance(v, dict):
            out.update(state_values(v, name + "/"))
        elif isinstance(v, torch.Tensor):
            out[name] = v.detach().to(torch.float64)
        elif isinstance(v, (bool, int, float)):
            out[name] = torch.tensor(float(v), dtype=torch.float64)
        elif isinstance(v, (tuple, list)) and v and isinstance(v[0], torch.Tensor):
            for j, t in enumerate(v):
                out[f"{name}/{j}"] = t.detach().to(torch.float64)
    return out


def invalid_input(w, ins, how):
    dim = sum(ops.numel(s) for s in ins)
    z = lambda *s: torch.zeros(torch.Size(s), dtype=w.dtype)  # noqa: E731
    good = [z(*s) for s in ins]
    if how == "long":
        return z(dim + 1)
    if how == "short":
        return z(dim - 1, 2) if dim > 1 else z(dim + 2, 2)
    if how == "rank0":
        return z()
    if how == "rank3":
        return z(dim, 2, 1)
    if how == "list-len":
        return good + [z(1)]
    if how == "list-shape":
        return [z(*(s[:-1] + (s[-1] + 1,) if s else (1, 1))) for s in map(tuple, ins)]
    # the right number of elements in the wrong shape, as vector or matrix
    turn = {
        "list-turned": lambda s: s[::-1],
        "list-flat": lambda s: (ops.numel(s),) if s else (1, 1),
    }.get(how)
    if how in ("list-turned", "list-flat") and any(
        turn(tuple(s)) != tuple(s) for s in ins
    ):
        return [z(*turn(tuple(s)), *((2,) if dim % 2 else ())) for s in ins]
    if how in ("list-turned", "list-flat"):
        return good[:-1] + [z(*ins[-1], 1, 1)]
    if how == "list-cols":
        if len(ins) < 2:
            return [z(*s, 2, 1) for s in ins]
        return [z(*s, 2 + (j == 0)) for j, s in enumerate(ins)]
    return [1.0] * dim


def module_chain(w):
    """Leaf module names of the network, in execution order."""
    return [
        (n, m)
        for n, m in w.model.named_modules()
        if n and not list(m.children()) and not isinstance(m, torch.nn.Identity)
    ]


def activation_of(w, o):
    chain = module_chain(w)
    name, _ = chain[o.get("layer", 0) % len(chain)]
    return (name, "output", 0)


def activation_shape(w, o):
    """Shape of the activation, found with a private copy of the model."""
    m = copy.deepcopy(w.model)
    m.from_dict = False
    seen = []
    h = m.get_submodule(activation_of(w, o)[0]).register_forward_hook(
        lambda _m, _i, out: seen.append(tuple(out.shape))
    )
    with torch.no_grad():
        m(w.X)
    h.remove()
    return seen[0]


# ---------------------------------------------------------------------- generation
def gen_op(rng, kind):
    o = {"kind": kind, "num_data": rng.random() < 0.5}
    if kind == "hessb":
        o["blocks"] = [rng.randint(1, 3) for _ in range(4)]
    if kind == "fmc":
        o["seed"] = rng.choice([0, 1, rng.randrange(2**31)])
        o["mc"] = rng.choice([1, 1, 2, 3])
    if kind in ("kfac", "kfacinv"):
        o["fisher"] = weighted(
            rng, {"type-2": 3, "mc": 3, "empirical": 2, "forward-only": 1}
        )
        o["approx"] = rng.choice(["expand", "reduce"])
        o["separate"] = rng.random() < 0.5
        o["terms"] = rng.random() < 0.5
        o["seed"] = rng.randrange(2**31)
        o["mc"] = rng.choice([1, 2])
    if kind == "kfacinv":
        gen_damping(rng, o)
    if kind == "acth":
        o = {"kind": kind, "layer": rng.randrange(6)}
    if rng.random() < 0.05:
        o["progressbar"] = True
    return o


def gen_pick(rng, o):
    """A parameter list of its own."""
    o["pick"] = [rng.randrange(6) for _ in range(rng.randint(1, 4))]


def gen_damping(rng, o):
    mode = rng.choice(["plain", "pair", "heuristic", "exact"])
    o["damping"] = rng.choice([0.01, 0.1, 1.0])
    if mode == "pair":
        o["damping"] = [rng.choice([0.05, 0.3]), rng.choice([0.1, 0.7])]
    elif mode == "heuristic":
        o["heuristic"] = True
    elif mode == "exact":
        o["exact"] = True
    o["cache"] = rng.random() < 0.7
    return o


def gen_kinds(rng):
    family = weighted(rng, {"exact": 4, "jac": 2, "kfac": 6, "mixed": 2, "acth": 1})
    if family == "exact":
        return family, rng.sample(["hess", "hessb", "ggn", "ef", "fmc"], rng.randint(1, 2))
    if family == "jac":
        return family, rng.sample(["jac", "jact"], rng.randint(1, 2))
    if family == "kfac":
        return family, rng.choice([["kfac"], ["kfac", "kfacinv"], ["kfacinv"]])
    if family == "acth":
        return family, ["acth"] + rng.sample(["hess", "ggn", "jac"], rng.randint(0, 1))
    kinds = ["hess", "ggn", "ef", "fmc", "jac", "jact", "kfac", "kfacinv"]
    return family, rng.sample(kinds, 2)


def gen_step(rng, i, kind, allow=("mul", "grad", "prop", "invalid", "state", "scipy")):
    table = {"mul": 8, "grad": 2, "invalid": 1, "scipy": 0.3}
    if kind in ("jac", "jact"):
        table.pop("grad")
    if kind in ("kfac", "kfacinv"):
        table.update({"prop": 6, "state": 1})
        table["grad"] = 0.5
    if kind == "kfacinv":
        table.pop("grad")
    table = {k: v for k, v in table.items() if k in allow}
    do = weighted(rng, table)
    s = {"do": do, "op": i}
    if do == "mul":
        s["fmt"], s["k"] = ops.gen_format(rng)
        s["s"] = rng.randrange(100)
        if rng.random() < 0.2 and s["fmt"] not in ("svec", "smat"):
            s["adj"] = True
        if rng.random() < 0.3:
            s["layout"] = rng.choice([1, 2])
    elif do == "prop":
        s["name"] = rng.choice(PROPS)
    elif do == "invalid":
        s["how"] = rng.choice(INVALID)
        s["adj"] = rng.random() < 0.2
    return s


def gen_universe(rng, max_steps=6, checks=0.25, allow=None, kinds=None, f32=0.15, large=0.01):
    family, kinds = kinds or gen_kinds(rng)
    kfac = any(k.startswith("kfac") for k in kinds)
    for _ in range(100):
        problem = problems.gen_problem(
            rng, kfac=kfac, n_max=6, big=0, f32=f32, max_D=60, large=large
        )
        problems.vary_loss(rng, problem, kinds)
        try:
            w = problems.World(problem, Ctx())
            reject_unequal_padding(w, [{"kind": k} for k in kinds])
        except InvalidSpec:
            continue
        if "acth" in kinds:
            if problem["N"] > 5:
                continue
            problem.pop("model_as", None)
            if problem.get("input", "tensor") != "tensor":
                problem["input"] = "tensor"
        if "jac" in kinds or "jact" in kinds:
            problem.pop("bsfn", None)
        break
    specs = [gen_op(rng, k) for k in kinds]
    if kinds == ["kfac", "kfacinv"]:
        specs[1]["of"] = 0
    for o in specs:
        if o["kind"] != "acth" and rng.random() < 0.25:
            gen_pick(rng, o)
    n = max(6, problem["N"])
    plan = [{"cuts": gen_cuts(rng, n), "order": rng.choice([None, rng.randrange(99)])}]
    if "acth" in kinds:
        plan[0]["cuts"] = []
    steps = []
    for i, k in enumerate(kinds):
        steps.append({"do": "new", "op": i, "check": rng.random() < checks})
    for _ in range(rng.randint(2, max_steps)):
        i = rng.randrange(len(kinds))
        if rng.random() < 0.12:
            s = {"do": "new", "op": i, "check": rng.random() < checks}
        else:
            s = gen_step(rng, i, kinds[i], **({"allow": allow} if allow else {}))
        steps.append(s)
    return {"problem": problem, "ops": specs, "plan": plan, "steps": steps}


def add_faults(rng, spec, p_max=3):
    """Place faults on random steps; a failed construction is followed by another."""
    steps = spec["steps"]
    candidates = [j for j, s in enumerate(steps) if s["do"] != "invalid"]
    n = rng.choice([1, 1, 1, 2, 2, p_max])
    chosen = sorted(rng.sample(candidates, min(n, len(candidates))))
    out = []
    for j, s in enumerate(steps):
        if j not in chosen:
            out.append(s)
            continue
        sites = None
        if spec["ops"][s["op"]]["kind"] == "kfacinv" and rng.random() < 0.6:
            sites = {"linalg": 1}
        out.append({**s, "fault": faults.gen_fault(rng, sites)})
        if s["do"] == "new":
            out.append({k: v for k, v in s.items() if k != "fault"})
        elif rng.random() < 0.75:
            # look at the operator again right after the failure
            kind = spec["ops"][s["op"]]["kind"]
            if rng.random() < 0.5:
                out.append(dict(s))
            else:
                out.append(gen_step(rng, s["op"], kind, allow=("mul", "prop", "grad")))
    spec["steps"] = out
    return spec


def clean_counts(spec, done, step):
    """Occurrences of the fault sites when ``step`` runs cleanly after ``done``."""
    ctx = Ctx()
    u = Universe(spec, ctx)
    for s in done:
        try:
            u.do(s)
        except Exception:  # noqa: S110
            pass
    linalg = step["fault"]["site"] == "linalg"
    missing = []

    def fn():
        try:
            u.do(step)
        except Missing:
            missing.append(1)
        except Exception:  # noqa: S110
            pass  # an operation that fails on its own: sites up to its failure

    counts = faults.count(u.world, ctx, fn, linalg=linalg)[0]
    return None if missing else counts


def shrink_step(s):
    if "frac" in s.get("fault", {}):
        f = s["fault"]
        for e in ("runtime",):
            if f["exc"] != e:
                yield {**s, "fault": {**f, "exc": e}}
        for frac in (0.0, 0.5, 0.999):
            if f["frac"] != frac:
                yield {**s, "fault": {**f, "frac": frac}}
            else:
                break
    if s["do"] == "mul":
        if s.get("layout"):
            yield {k: v for k, v in s.items() if k != "layout"}
        if s.get("adj"):
            yield {k: v for k, v in s.items() if k != "adj"}
        if s["fmt"] != "vec":
            yield {**s, "fmt": "vec", "k": 1}
        if s["k"] > 1:
            yield {**s, "k": 1} if s["fmt"] in ("mat", "lmat", "smat") else s
    if s.get("check"):
        yield {**s, "check": False}


def shrink_ops(o):
    for key in ("pick", "progressbar", "num_data", "terms", "blocks", "mc", "cache", "approx"):
        if key in o:
            yield {k: v for k, v in o.items() if k != key}


def shrink_universe(spec):
    from dst import shrink as sh

    yield from sh.drop_items(spec, "steps", keep=1)
    yield from sh.sub(spec, "problem", problems.shrink_problem)
    yield from sh.each_item(spec, "steps", shrink_step)
    yield from sh.plan(spec)
    yield from sh.each_item(spec, "ops", shrink_ops)
