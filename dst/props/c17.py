"""C17: each evaluation consumes the data exactly once."""

import torch

from dst import faults, history, ops, problems, shrink as sh
from dst.core import EXCEPTIONS, Ctx, InvalidSpec, Violation, close, err
from dst.stream import gen_plan, gen_recycle

ID = "C17"
LEVEL = "exploration"
RUNS = {"quick": 9000, "thorough": 250000}
TECHNIQUE = (
    "seeded search over operation histories on loaders that log every request, destroy a "
    "batch when the next one is requested and deliver other cuts in every traversal"
)
NOTE = (
    "Sampled, not exhaustive. The activation Hessian (which uses a single batch) is not "
    "part of this property."
)
RULE = (
    "One run = 1-2 operators on one logging loader x a history of constructions, products "
    "in all formats, gradients, KFAC quantities, adjoints, exports, state round trips and "
    "failing traversals. Non-trivial: the traversals of a step were judged."
)
COMPONENTS = {
    "real": ["all data-driven operators", "torch autograd"],
    "stub": [
        "data loader (SimStream: logs requests, recycles buffers, changes the cuts)",
        "model wrapper that reports which batch it was called with",
    ],
}
ASSUMPTIONS = ["a look at the first batch of a new iterator is not a traversal"]
KINDS = (
    ["hess"], ["hessb"], ["ggn"], ["ef"], ["fmc"], ["jac"], ["jact"], ["kfac"],
    ["kfac"], ["kfacinv"], ["kfac", "kfacinv"], ["kfac", "kfacinv"], ["jac", "jact"],
    ["hess", "ggn"],
)


def gen(rng, tier):
    kinds = rng.choice(KINDS)
    spec = history.gen_universe(
        rng,
        max_steps=6 if tier == "quick" else 12,
        checks=0.25,
        kinds=("x", list(kinds)),
        f32=0.05,
    )
    fixed = any(k in ("jac", "jact") for k in kinds)
    spec["plan"] = gen_plan(rng, shuffle=not fixed, vary=True, n_max=6)
    if any(s.get("check") for s in spec["steps"]) or fixed:
        spec["plan"] = spec["plan"][:1]
    spec["recycle"] = gen_recycle(rng, 0.7)
    spec["nolen"] = rng.random() < 0.3
    steps = []
    for s in spec["steps"]:
        i = s["op"]
        if s["do"] == "prop" and kinds[i] == "kfacinv":
            continue
        r = rng.random()
        if s["do"] != "new" and r < 0.2:
            s = {
                **s,
                "fault": {
                    "site": rng.choice(["iter", "batch", "batch", "end", "forward"]),
                    "n": rng.choice([0, 0, 1, 2, 3]),
                    "exc": rng.choice(["runtime", "os", "interrupt"]),
                },
            }
        elif r < 0.3:
            steps.append({"do": rng.choice(["adjoint", "scipy"]), "op": i})
        elif r < 0.4 and kinds[i] == "kfac":
            steps.append({"do": "load", "op": i})
        steps.append(s)
    spec["steps"] = steps
    return spec


class Log:
    """Which batch was delivered, and which one the model was called with."""

    def __init__(self, world, enabled=True):
        self.world = world
        self.events = []
        self.fault = None
        self.hits = 0
        self.exc = None
        self.fired = False
        world.stream.on_event = lambda what: self.events.append((what, None))
        world.model.sim = self.model_event

    def model_event(self, event, out=None):
        if event == "output":
            return out
        f = self.fault
        self.events.append(("forward", None))
        if f is not None and f["site"] == "forward":
            n, self.hits = self.hits, self.hits + 1
            if n == f["n"]:
                self.fired = True
                self.world.ctx.fired("forward")
                raise self.exc
        return None


class NoLen:
    """A streaming loader of unknown length."""

    def __init__(self, stream):
        self.stream = stream

    def __iter__(self):
        return iter(self.stream)


class Sim:
    def __init__(self, spec, ctx, recycle):
        world = problems.World(spec["problem"], ctx, spec["plan"], recycle)
        self.log = Log(world)
        self.stream = world.stream
        self.u = history.Universe(spec, ctx, world)
        if spec.get("nolen"):
            world.stream = NoLen(self.stream)
        self.computed = [False] * len(spec["ops"])

    def step(self, s):
        """``(result, exception)``; what was requested is left in ``records``."""
        self.start = len(self.stream.history)
        self.log.events.clear()
        f = s.get("fault")
        self.log.fault, self.log.hits, self.log.fired = f, 0, False
        exc = None
        if f is not None:
            exc = self.log.exc = EXCEPTIONS[f["exc"]]("injected")
            if f["site"] != "forward":
                self.stream.arm({"site": f["site"], "n": f["n"]}, exc)
        raised = out = None
        try:
            if s["do"] == "adjoint":
                out = {}
                self.u.get(s["op"]).adjoint()
            elif s["do"] == "load":
                out = self.load(s)
            else:
                out = self.u.do(s)
        except BaseException as e:  # noqa: B036
            raised = e
        fired = self.log.fired or (
            f is not None and f["site"] != "forward" and self.stream.fail is None
        )
        self.stream.disarm()
        self.log.fault = None
        if raised is not None and not (fired and raised is exc):
            raise raised
        self.fired = fired
        return out

    def load(self, s):
        """Restore the operator from its own state."""
        import curvlinops as C

        w, op = self.u.world, self.u.get(s["op"])
        self.u.slots[s["op"]] = C.KFACLinearOperator.from_state_dict(
            op.state_dict(),
            w.model,
            self.u.params(s["op"]),
            w.stream,
            check_deterministic=False,
            batch_size_fn=w.batch_size_fn,
        )
        return {}

    def records(self):
        return self.stream.history[self.start :]


def run(spec, ctx):
    sim = Sim(spec, ctx, spec["recycle"])
    twin = Sim(spec, Ctx(), False) if spec["recycle"] else None
    for j, s in enumerate(spec["steps"]):
        what = f"step {j} {s}"
        ctx.ev("step", j, s["do"], s["op"])
        try:
            with ctx.lib(what, allow=(history.Missing,)):
                out = sim.step(s)
        except history.Missing:
            continue
        judge(sim, s, what)
        if twin is None:
            continue
        with ctx.lib(what):
            want = twin.step(s)
        if (out is None) != (want is None):
            raise Violation("twin", f"{what}: {out} {want}")
        if out is None:
            continue
        for key, v in want.items():
            ctx.checked()
            if not close(out[key], v, sim.u.world.tight, 1e-9):
                raise Violation(
                    "uses-stale-batch", f"{what} {key}: {err(out[key], v)}"
                )


def complete(r):
    return r["done"] and r["asked"] == len(r["given"]) + 1


def judge(sim, s, what):
    spec, ctx = sim.u.spec, sim.u.ctx
    i, do = s["op"], s["do"]
    o = spec["ops"][i]
    kind = o["kind"]
    recs = sim.records()
    full = [r for r in recs if complete(r)]
    partial = [r for r in recs if not complete(r)]
    peeks = [r for r in partial if len(r["given"]) <= 1 and not r["done"]]
    ctx.checked()

    def bad(msg):
        raise Violation(
            "traversals",
            f"{what}: {msg}: {[(r['asked'], len(r['given']), r['done']) for r in recs]}",
        )

    owner = o["of"] if "of" in o else i  # who owns the Kronecker factors
    lazy = kind in ("kfac", "kfacinv") and do in ("mul", "prop", "state")
    if s.get("fault") and sim.fired:
        ctx.probe("interrupted traversal")
        if len(full) > 1:
            bad("more than one traversal")
        if lazy and full and sim.computed[owner] is False:
            sim.computed[owner] = None  # unknown
        return
    if len(peeks) != len(partial):
        bad("abandoned traversal")
    if do == "new":
        if kind == "kfacinv" and "of" in o:
            if full:
                bad("construction of the inverse")
            return
        sim.computed[i] = False
        if kind == "kfac":
            for k, other in enumerate(spec["ops"]):
                if other.get("of") == i:
                    sim.u.slots[k] = None  # belongs to the previous operator
        most = (not o.get("num_data")) + (
            kind in ("kfac", "kfacinv") and not o.get("terms")
        )
        if s.get("check"):
            ctx.probe("construction with check")
            if len(full) < 2 or len(full) > most + 4:
                bad("construction with check")
            if kind in ("kfac", "kfacinv") and len(full) > 2 + most:
                # the check may have used the operator
                sim.computed[i] = None
        elif len(full) > most:
            bad(f"construction, at most {most}")
        if len(peeks) > 4:
            bad("construction looks at too many first batches")
        return
    if do == "load":
        for k, other in enumerate(spec["ops"]):
            if other.get("of") == i:
                sim.u.slots[k] = None  # belongs to the previous operator
    if do in ("invalid", "scipy", "adjoint", "load"):
        if full:
            bad("nothing to traverse")
        if do != "load" and not (kind in ("jac", "jact")) and peeks:
            bad("nothing to look at")
        return
    if kind in ("kfac", "kfacinv") and do != "grad":
        known = sim.computed[owner]
        if known is True and full:
            bad("factors had been computed")
        if known is False and do != "state" and len(full) != 1:
            bad("first use")
        if len(full) > 1:
            bad("first use")
        if do != "state" or full:
            sim.computed[owner] = True
        if known is True:
            ctx.probe("later use of KFAC")
        if peeks:
            bad("nothing to look at")
    else:
        if len(full) != 1:
            bad("exactly one traversal")
        if peeks and not (kind in ("jac", "jact")):
            bad("nothing to look at")
    if full:
        order(sim, full[0], what)


def order(sim, rec, what):
    """Each batch is requested after the model has seen the previous one."""
    ctx = sim.u.ctx
    pending = None  # forward passes since the last delivered batch
    started = False
    n = 0
    given = len(rec["given"])
    forwards = []
    for e, _ in sim.log.events:
        if e == "iter":
            started, pending = True, None
        elif e == "batch" and started:
            if pending is not None:
                forwards.append(pending)
            pending = 0
        elif e == "forward" and pending is not None:
            pending += 1
    if pending is not None:
        forwards.append(pending)
    tail = forwards[-given:]
    ctx.checked()
    if len(tail) != given or any(f == 0 for f in tail):
        raise Violation("prefetch", f"{what}: forward passes per batch {forwards}")
    indices = sorted(x for c in rec["given"] for x in c)
    if indices != list(range(sim.u.world.N)):
        raise InvalidSpec("plan does not deliver the data set")


def shrink(spec):
    for key in ("recycle", "nolen"):
        if spec.get(key):
            yield {**spec, key: False}
    for c in history.shrink_universe(spec):
        yield c
