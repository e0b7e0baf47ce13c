"""C23: operations keep nothing alive but their results and documented caches."""

import gc

import torch
from torch.multiprocessing.reductions import StorageWeakRef
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_leaves

from dst import faults, history, shrink as sh
from dst.core import InvalidSpec, Violation, sub_rng, weighted

ID = "C23"
LEVEL = "exploration"
RUNS = {"quick": 3000, "thorough": 60000}
TECHNIQUE = (
    "seeded search over histories of operations and failures on one or several operators; "
    "every storage created by any tensor operation is tracked by weak references"
)
NOTE = (
    "Sampled, not exhaustive. Storages of torch tensors, open loader iterators and entries of "
    "the operators' own containers are tracked, after a garbage collection."
)
RULE = (
    "One run = 1-3 operators on one world x a history of 4-10 operations, some repeated, "
    "some aborted. Non-trivial: what an operation left behind was examined."
)
COMPONENTS = {
    "real": ["all data-driven operators, KFAC inverse", "torch's storage reference counts"],
    "stub": ["data loader (SimStream)", "injected failures"],
}
ASSUMPTIONS = ["torch expires weak references of storages that nothing refers to"]
EXACT = ("hess", "hessb", "ggn", "ef", "fmc", "jac", "jact", "acth")
frozen = []


def gen(rng, tier):
    spec = history.gen_universe(
        rng, max_steps=7 if tier == "quick" else 14, checks=0.3
    )
    spec["problem"].pop("same", None)
    steps = []
    for s in spec["steps"]:
        s = {k: v for k, v in s.items() if k != "fault"}
        if rng.random() < 0.2:
            steps.append({**s, "fault": faults.gen_fault(rng)})
        steps += [s] * weighted(rng, {1: 6, 2: 2, 3: 1})
    spec["steps"] = steps
    spec["recycle"] = False
    return spec


class Flush:
    """Empties the ready queue of PyTorch's autograd engine.

    After a failing backward pass, the engine keeps the nodes that did not run until
    another pass gets to them. It prefers later nodes, so this one is created early.
    """

    def __init__(self):
        self.x = torch.ones(1, requires_grad=True)
        self.y = self.x * 1.0

    def __call__(self):
        torch.autograd.grad(self.y, self.x, retain_graph=True)


class Watch(TorchDispatchMode):
    """Weak references to the storages of all results of tensor operations."""

    def __init__(self):
        super().__init__()
        self.refs = {}

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        before = set()
        for t in tree_leaves((args, kwargs)):
            if isinstance(t, torch.Tensor):
                before.add(t.untyped_storage()._cdata)
            elif isinstance(t, torch.UntypedStorage):
                before.add(t._cdata)
        out = func(*args, **(kwargs or {}))
        for t in tree_leaves(out):
            if isinstance(t, torch.Tensor):
                s = t.untyped_storage()
                key = s._cdata
                if key in before:  # a view, or modified in-place
                    continue
                old = self.refs.get(key)
                if old is None or old[0].expired():
                    self.refs[key] = StorageWeakRef(s), s.nbytes(), str(func)
        return out

    def alive(self):
        """What still exists."""
        return {
            k: v[1:] for k, v in self.refs.items() if v[1] > 0 and not v[0].expired()
        }


def collect():
    # repeated: tensors with references from C++ survive their first finalisation
    for _ in range(3):
        gc.collect()


def tensors(x):
    if isinstance(x, torch.Tensor):
        return [x]
    if isinstance(x, (list, tuple)):
        return [t for y in x for t in tensors(y)]
    if isinstance(x, dict):
        return [t for y in x.values() for t in tensors(y)]
    return []


def entries(op, depth=0):
    """Number of entries of the containers that an operator owns."""
    if depth > 6:
        return 0
    if isinstance(op, dict):
        return len(op) + sum(entries(v, depth + 1) for v in op.values())
    if isinstance(op, (list, tuple, set, frozenset)):
        return len(op) + sum(entries(v, depth + 1) for v in op)
    return 0


SKIP = ("_data", "_model_func", "_loss_func", "_params", "_A")


def owned(op):
    return entries({k: v for k, v in vars(op).items() if k not in SKIP})


def cache_bytes(op, prefix):
    """Bytes of the documented caches, according to the operator's state."""
    state = op.state_dict()
    seen = {
        s._cdata: s.nbytes()
        for key in ("input_covariances", "gradient_covariances")
        for t in tree_leaves(state[prefix + key])
        if isinstance(t, torch.Tensor)
        for s in [t.untyped_storage()]
    }
    return sum(seen.values())


def run(spec, ctx):
    if not frozen:
        collect()
        gc.freeze()
        frozen.append(True)
    if spec["problem"].get("same"):
        raise InvalidSpec("the loader keeps its batches")
    flush = Flush()
    u = history.Universe(spec, ctx)
    w = u.world
    alive = []  # no identity is used twice
    done = {}  # clean steps of each operator and its inverses
    previous, count = None, 0
    for j, s in enumerate(spec["steps"]):
        i = s["op"]
        what = f"step {j} {s}"
        kind = u.kind(i)
        clean = {k: v for k, v in s.items() if k != "fault"}
        ctx.ev("step", j, s["do"], i)
        if s["do"] != "new" and u.slots[i] is None:
            continue
        collect()
        watch = Watch()
        failed, replaced = None, s["do"] in ("new", "drop")
        with watch:
            if s.get("fault"):
                rng = sub_rng("fault", j, spec.get("ambient", 0))
                counts = {s["fault"]["site"]: 1 + rng.randrange(60)}
                out = faults.inject(w, ctx, s["fault"], counts, lambda: u.do(clean))
                failed = out.exc is not None
                ctx.probe("aborted" if failed else "survived")
                out = w.stream.exc = None  # also drop the traceback
                flush()
            else:
                with ctx.lib(what):
                    u.do(clean)
        op = u.slots[i]
        if op is not None:
            # an inverse and its KFAC operator, which may have been replaced
            K = op._A if kind == "kfacinv" else op
            alive.append(op)
            _, before = done.setdefault(id(K), (K, []))
        collect()
        # a generator, to not keep the last result as loop variable
        if any(t.grad_fn is not None for t in tensors(u.results)):
            raise Violation("graph", f"{what}: a result holds a computation graph")
        u.inputs, u.results = [], []
        collect()
        left = watch.alive()
        ctx.checked()
        ctx.probe(f"examined {kind}")
        if op is not None:
            computed = any(b["do"] in ("mul", "prop") for b in before)
            repeated = {**clean, "id": id(op)} in before and not failed
            judge(u, i, op, left, repeated, computed, what)
        elif left:
            raise Violation("kept", f"{what}: {left} after a failed construction")
        for rec in w.stream.history:
            if rec["asked"] and not rec["closed"]:
                raise Violation("iterator", f"{what}: an iterator of the loader is kept")
        n = owned(op) if op is not None else 0
        if failed or replaced:
            previous = None
            continue
        if op is not None and previous == clean and n != count:
            raise Violation("grows", f"{what}: {count} entries, then {n}")
        previous, count = clean, n
        if op is not None:
            before.append({**clean, "id": id(op)})


def judge(u, i, op, left, repeated, computed, what):
    """Whether the remaining storages are results or documented caches."""
    if not left:
        return
    kind = u.kind(i)
    total = sum(v[0] for v in left.values())
    if kind in EXACT:
        raise Violation("kept", f"{what}: {kind} keeps {left}")
    if repeated:
        raise Violation("grows", f"{what}: {kind} keeps {left} of a repeated operation")
    K = op._A if kind == "kfacinv" else op
    limit = 4 * 8  # derived scalars
    if not computed:
        limit += cache_bytes(K, "")
    if kind == "kfacinv":
        limit += cache_bytes(op, "inverse_")
    if total > limit:
        raise Violation("kept", f"{what}: {kind} keeps {total} > {limit} bytes: {left}")


def nontrivial(spec, ctx):
    return ctx.evals > 0


def shrink(spec):
    yield from history.shrink_universe(spec)
    yield from sh.each_item(
        spec, "steps", lambda s: [{k: v for k, v in s.items() if k != "fault"}]
    )
