"""C08: KFAC is computed once, its derived quantities describe its own matrix."""

import torch

from dst import faults, history, problems, shrink as sh
from dst.core import Ctx, InvalidSpec, Violation, close, err, sub_rng, weighted
from dst.kfacref import blocks
from dst.stream import gen_cuts

ID = "C08"
LEVEL = "exploration"
RUNS = {"quick": 12000, "thorough": 400000}
TECHNIQUE = (
    "seeded search over histories of products and property reads (with aborted operations "
    "and moving parameters in between), traversals counted at the loader seam, values "
    "compared with the dense matrix read off through products"
)
NOTE = (
    "Sampled, not exhaustive. Determinants are compared with a tolerance that grows with "
    "the condition number of the blocks and only where it stays below 5 %; singular "
    "matrices contribute trace, norm and repeatability only."
)
RULE = (
    "One run = one KFAC operator (optionally with inverses built from it) x a history of "
    "3-10 steps. Non-trivial: at least one derived quantity was compared with the matrix."
)
COMPONENTS = {
    "real": ["KFACLinearOperator", "KFACInverseLinearOperator", "torch autograd"],
    "stub": ["data loader (SimStream)"],
}
ASSUMPTIONS = ["dense eigenvalues by LAPACK in double precision"]
PROPS = ("trace", "det", "logdet", "frobenius_norm")


def gen(rng, tier):
    for _ in range(100):
        problem = problems.gen_problem(
            rng, kfac=True, n_max=12, big=0.1, f32=0.1, max_D=60, tiny=rng.random() < 0.6
        )
        o = history.gen_op(rng, "kfac")
        try:
            w = problems.World(problem, Ctx())
            history.reject_unequal_padding(w, [o])
        except InvalidSpec:
            continue
        break
    specs = [o]
    if rng.random() < 0.3:
        i = history.gen_op(rng, "kfacinv")
        i["of"] = 0
        specs.append(i)
    steps = []
    for _ in range(rng.randint(3, 8 if tier == "quick" else 14)):
        if len(specs) > 1 and rng.random() < 0.15:
            s = history.gen_step(rng, 1, "kfacinv", allow=("mul",))
        elif rng.random() < 0.1:
            s = {"do": "param", "op": 0, "s": rng.randrange(100)}
        else:
            s = history.gen_step(
                rng, 0, "kfac", allow=("mul", "prop", "state", "scipy", "invalid")
            )
            if s["do"] == "prop" and rng.random() < 0.2:
                s["edit"] = True
        if rng.random() < 0.08 and s["do"] in ("mul", "prop"):
            s["fault"] = faults.gen_fault(rng)
        steps.append(s)
    plan = [
        {"cuts": gen_cuts(rng, 6), "order": rng.choice([None, rng.randrange(99)])}
        for _ in range(rng.choice([1, 2]))
    ]
    if o.get("fisher") == "mc":
        plan = plan[:1]
    return {"problem": problem, "ops": specs, "plan": plan, "steps": steps}


def wants(M, eps):
    """Derived quantities of a dense symmetric matrix, with their tolerances."""
    out = {
        "trace": (M.trace(), 1e3 * eps, max(float(M.diagonal().abs().sum()), 1e-12)),
        "frobenius_norm": (M.norm(), 1e3 * eps, max(float(M.norm()), 1e-12)),
    }
    logdet, worst = 0.0, 0.0
    for idx in blocks(M):
        lam = torch.linalg.eigvalsh(M[idx][:, idx])
        if not bool(torch.isfinite(lam).all()) or lam.min() <= 0:
            return out
        logdet += float(lam.log().sum())
        worst = worst + float(lam.max() / lam.min()) * len(idx)
    bound = 50 * eps * worst
    if bound < 0.05:
        bound = max(bound, 1e-9)
        out["logdet"] = (torch.tensor(logdet, dtype=torch.float64), bound, 1.0)
        limit = 600 if eps < 1e-10 else 60
        if abs(logdet) < limit:
            det = torch.tensor(logdet, dtype=torch.float64).exp()
            out["det"] = (det, bound, float(det))
    return out


def check_singular(u, values, M, eps, ctx):
    """The determinant of a (nearly) singular matrix is bounded by its eigenvalues."""
    bound = 0.0  # logarithm
    for idx in blocks(M):
        lam = torch.linalg.eigvalsh(M[idx][:, idx])
        top = max(float(lam.abs().max()), 1e-300)
        lam = lam.clamp(min=0.0) + 1e3 * eps * len(idx) * top
        bound += float(lam.log().sum())
    if not bound < -3:
        return
    name = "det"
    if name not in values:
        with ctx.lib(name):
            values[name] = u.do({"do": "prop", "op": 0, "name": name})[name]
    ctx.checked()
    ctx.probe("bounded det")
    value = float(values[name])
    limit = float(torch.tensor(bound, dtype=torch.float64).exp())
    if value != value and eps > 1e-10:
        return  # underflow times overflow
    if not abs(value) <= max(1.5 * limit, 1e-30):
        raise Violation("wrong-det", f"det={value!r}, bound {limit!r}")


def run(spec, ctx):
    u = history.Universe(spec, ctx)
    w = u.world
    w.hook_model()
    forwards = [0]

    def calls():
        forwards[0] += 1

    for i in range(len(spec["ops"])):
        with ctx.lib("construction"):
            u.do({"do": "new", "op": i})
    w.hook_model()
    w.sim_forward = calls
    computed, values, done = False, {}, []
    joint = "both" if not spec["ops"][0].get("separate", True) else "separate"
    products = []  # products before the matrix is known
    for j, s in enumerate(spec["steps"]):
        ctx.ev("step", j, s["do"], s["op"])
        if s["do"] == "param":
            with torch.no_grad():
                for k, p in enumerate(w.model.parameters()):
                    # keep the world's parameters legal, but move all of them
                    p.add_(0.3 * w.matrix(p.numel(), 1, s["s"] + k).reshape(p.shape))
            ctx.probe("parameters moved " + ("after" if computed else "before"))
            continue
        before, forwards[0] = w.stream.traversals, 0
        clean = {k: v for k, v in s.items() if k != "fault"}
        if s.get("fault"):
            fault = s["fault"]
            rng = sub_rng("fault", j, spec.get("ambient", 0))
            # place the failure within the first operations: no clean twin needed
            counts = {fault["site"]: 1 + rng.randrange(40)}
            try:
                out = faults.inject(w, ctx, fault, counts, lambda: u.do(clean))
            finally:
                w.hook_model()
                w.sim_forward = calls
            if out.exc is not None:
                # first use was aborted: the factors may or may not be complete
                if not computed:
                    computed = None
                elif w.stream.traversals != before:
                    raise Violation("recomputed", f"step {j} {s}")
                continue
            if out.fired is not None:
                return  # handled inside the library (not for this check)
            got = out.value
        else:
            with ctx.lib(f"step {j} {s}"):
                got = u.do(clean)
        used = w.stream.traversals - before
        needs = s["do"] in ("mul", "prop")
        ctx.checked()
        if computed is None and needs and used in (0, 1):
            computed = True
            ctx.probe("completed after failure")
        elif used != (1 if needs and not computed else 0):
            raise Violation(
                "recomputed" if computed else "first-use",
                f"step {j} {s}: {used} traversals, computed={computed}",
            )
        elif needs and computed and forwards[0]:
            raise Violation("recomputed", f"step {j} {s}: {forwards[0]} forward passes")
        elif needs and not computed:
            computed = True
            ctx.probe(f"first use by {s.get('name', s['do'])} {joint}")
        if s["do"] == "prop":
            value = got[s["name"]]
            if value.shape != ():
                raise Violation("format", f"{s['name']} has shape {tuple(value.shape)}")
            if s["name"] in values:
                same = values[s["name"]]
                if not bool(torch.equal(value, same)) and not bool(
                    value.isnan() and same.isnan()
                ):
                    raise Violation("changed", f"{s['name']}: {same} then {value}")
                ctx.probe("read again")
            values[s["name"]] = value.clone()
        elif s["do"] == "mul" and s["op"] == 0:
            products.append((s, got["product"]))

    before = w.stream.traversals
    with ctx.lib("dense"):
        M = u.do({"do": "mul", "op": 0, "fmt": "mat", "k": w.D, "s": 0, "eye": True})
    M = M["product"]
    if computed and w.stream.traversals != before:
        raise Violation("recomputed", "by the last product")
    scale = max(float(M.norm()), 1e-12)
    if not bool(torch.isfinite(M).all()):
        raise InvalidSpec("overflow")
    for s, got in products:
        V = w.matrix(w.D, s["k"], s["s"])
        ctx.checked()
        if not close(got, M @ V, w.tight * 10, floor=scale * float(V.norm()) * 1e-2):
            raise Violation("matrix-changed", f"{s}: {err(got, M @ V)}")
    eps = torch.finfo(w.dtype).eps
    check_singular(u, values, (M + M.T) / 2, eps, ctx)
    for name, (want, tol, size) in wants((M + M.T) / 2, eps).items():
        read = [values[name]] if name in values else []
        if not read or sub_rng("again", name, spec.get("ambient", 0)).random() < 0.5:
            with ctx.lib(name):
                read.append(u.do({"do": "prop", "op": 0, "name": name})[name])
        for value in read:
            ctx.checked()
            ctx.probe("compared " + name)
            if not bool((value - want).abs() <= tol * size):
                raise Violation(
                    "wrong-" + name,
                    f"{name}={float(value)!r}, of the matrix: {float(want)!r} "
                    f"(tolerance {tol * size:.2e})",
                )


def nontrivial(spec, ctx):
    return any(k.startswith("probe:compared") for k in ctx.counts)


def shrink(spec):
    yield from history.shrink_universe(spec)
    yield from sh.each_item(
        spec, "steps", lambda s: [{k: v for k, v in s.items() if k != "fault"}]
    )
