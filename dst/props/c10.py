"""C10: the KFAC inverse is the documented damped inverse, cached, retried or not."""

import math

import torch

from dst import history, problems, shrink as sh
from dst.core import (
    Ctx,
    EXCEPTIONS,
    Injected,
    InvalidSpec,
    OpSeam,
    Violation,
    close,
    err,
    weighted,
)
from dst.kfacref import KFACRef
from dst.stream import gen_cuts

ID = "C10"
LEVEL = "fault_enumeration"
RUNS = {"quick": 15000, "thorough": 400000}
TECHNIQUE = (
    "seeded search over histories of products with failing factorisations (single, repeated, "
    "single or double precision), compared with dense damped inverses"
)
NOTE = (
    "Sampled, not exhaustive. A result is compared only if the damped factors are "
    "conditioned well enough for the working precision (tolerance grows with the condition "
    "number). Layers without any input or gradient signal under heuristic damping are "
    "checked only for not failing, as their damping is not documented."
)
RULE = (
    "One run = one KFAC operator with 1-2 inverses x 2-7 steps, some with failing "
    "factorisations. Non-trivial: a product was compared with the dense inverse."
)
COMPONENTS = {
    "real": ["KFACInverseLinearOperator", "KFACLinearOperator", "torch.linalg"],
    "stub": ["data loader (SimStream)", "failing factorisations raise instead of running"],
}
ASSUMPTIONS = ["dense inverses by LAPACK in double precision are exact to 1e-12 * cond"]
LINALG = ("linalg_cholesky", "linalg_eigh", "_linalg_eigh", "linalg_inv", "linalg_solve")


def gen(rng, tier):
    for _ in range(200):
        problem = problems.gen_problem(
            rng, kfac=True, n_max=8, big=0.1, f32=0.4, max_D=50, tiny=rng.random() < 0.6
        )
        specs = [history.gen_op(rng, "kfac")]
        for _ in range(rng.choice([1, 1, 2])):
            o = history.gen_op(rng, "kfacinv")
            o["of"] = 0
            if rng.random() < 0.15:
                for key in ("heuristic", "exact"):
                    o.pop(key, None)
                o["damping"] = 0.0
            if o.get("heuristic") and rng.random() < 0.4:
                o["min_damping"] = rng.choice([0.05, 0.3, 0.8])
            elif rng.random() < 0.1:
                o["min_damping"] = 0.5  # must have no effect
            if rng.random() < 0.4:
                o["retry_double_precision"] = rng.random() < 0.5
            specs.append(o)
        try:
            w = problems.World(problem, Ctx())
            history.reject_unequal_padding(w, specs)
        except InvalidSpec:
            continue
        break
    steps = []
    for _ in range(rng.randint(2, 6 if tier == "quick" else 12)):
        if rng.random() < 0.2:
            s = history.gen_step(rng, 0, "kfac", allow=("mul", "prop", "state"))
        else:
            i = rng.randrange(1, len(specs))
            s = history.gen_step(rng, i, "kfacinv", allow=("mul", "scipy", "state", "invalid"))
            if s["do"] == "mul" and rng.random() < 0.45:
                s["fault"] = {
                    "n": rng.choice([0, 0, 1, 2, 3, rng.randrange(8)]),
                    "times": weighted(rng, {1: 6, 2: 2, 3: 1}),
                    "exc": weighted(
                        rng, {"linalg": 8, "runtime": 1, "memory": 1, "interrupt": 1}
                    ),
                }
            if rng.random() < 0.1:
                s = {"do": "new", "op": i}
        steps.append(s)
        if rng.random() < 0.05:
            steps.append({"do": "param", "op": 0, "s": rng.randrange(100)})
    i = rng.randrange(1, len(specs))
    steps.append({"do": "mul", "op": i, "fmt": "mat", "k": 2, "s": 3})
    plan = [{"cuts": gen_cuts(rng, 6), "order": rng.choice([None, rng.randrange(99)])}]
    return {"problem": problem, "ops": specs, "plan": plan, "steps": steps}


class Reference:
    """Dense inverse of the given factors for a damping mode."""

    def __init__(self, ref, o):
        self.o = o
        self.cond, self.judged = 1.0, True
        self.matrix = ref.matrix
        self.ref = ref

    def compute(self):
        """The dense inverse or ``None`` where the documentation does not define it."""
        ref, o = self.ref, self.o
        out = torch.zeros(0)
        d = o.get("damping", 0.1)

        def inv(M):
            lam, Q = torch.linalg.eigh(M)
            if not bool(torch.isfinite(lam).all()) or float(lam[0]) <= 1e-20:
                # not invertible, or nothing but rounding errors of vanishing gradients
                self.judged = False
                return torch.zeros_like(M)
            self.cond_block *= float(lam[-1] / lam[0])
            return (Q / lam) @ Q.T

        layers = {id(B): n for n, B in ref.B.items()}

        def block(A, B):
            self.cond_block = 1.0
            eye = torch.eye(B.shape[0], dtype=torch.float64)
            if o.get("exact"):
                M = B if A is None else torch.kron(B.contiguous(), A.contiguous())
                R = inv(M + d * torch.eye(M.shape[0], dtype=torch.float64))
                # accuracy of eigen-decompositions is relative to the largest eigenvalue
                self.cond_block = max(self.cond_block, 1.0)
            else:
                if isinstance(d, list):
                    da, db = d
                else:
                    da = db = d
                # biases are inverted with the gradient covariance of their layer
                A_layer = ref.A.get(layers[id(B)])
                if o.get("heuristic") and A_layer is not None:
                    ta, tb = float(A_layer.trace()), float(B.trace())
                    if ta <= 1e-14 or tb <= 1e-14:
                        self.judged = False
                        return torch.zeros(0)
                    # the ratio of traces amplifies rounding errors of tiny traces
                    self.cond_block = 1 + 1e-2 / min(ta, tb, 1.0)
                    pi = math.sqrt((ta / A_layer.shape[0]) / (tb / B.shape[0]))
                    low = o.get("min_damping", 1e-8)
                    da = max(pi * math.sqrt(d), low)
                    db = max(math.sqrt(d) / pi, low)
                Bi = inv(B + db * eye)
                if A is None:
                    R = Bi
                else:
                    Ai = inv(A + da * torch.eye(A.shape[0], dtype=torch.float64))
                    R = torch.kron(Bi.contiguous(), Ai.contiguous())
            self.cond = max(self.cond, self.cond_block)
            return R

        safe = []

        def guarded(A, B):
            R = block(A, B)
            n = B.shape[0] * (1 if A is None else A.shape[0])
            if R.shape != (n, n):
                safe.append(1)
                return torch.zeros(n, n, dtype=torch.float64)
            return R

        out = ref.matrix(guarded)
        return out if self.judged and not safe else None


def factors(u, w, o):
    """Factors from the definition; inexact ones from the state dictionary."""
    approx, sep = o.get("approx", "expand"), o.get("separate", True)
    fisher = o.get("fisher", "type-2")
    ref = KFACRef(w, "type-2" if fisher == "mc" else fisher, approx, sep)
    if known(w, o):
        return ref
    sd = u.get(0).state_dict()
    A, B = sd["input_covariances"], sd["gradient_covariances"]
    if set(A) != set(ref.A) or set(B) != set(ref.B):
        raise InvalidSpec("other layout of the state dictionary")
    ref.A = {n: A[n].to(torch.float64).clone() for n in ref.A}
    ref.B = {n: B[n].to(torch.float64).clone() for n in ref.B}
    return ref


def known(w, o):
    """Whether the reference's factors are as exact as the operator's."""
    return o.get("fisher", "type-2") != "mc" and w.dtype == torch.float64


class Seam(OpSeam):
    """Counts factorisations and remembers the precision of the failing one."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.dtype = None
        self.name = None

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        name = str(func)
        if self.fail_at is not None and any(x in name for x in LINALG):
            if self.n == self.fail_at and args and isinstance(args[0], torch.Tensor):
                self.dtype, self.name = args[0].dtype, name
        return super().__torch_dispatch__(func, types, args, kwargs)


def run(spec, ctx):
    u = history.Universe(spec, ctx)
    w = u.world
    with ctx.lib("construction"):
        for i in range(len(spec["ops"])):
            u.do({"do": "new", "op": i})
    eps = torch.finfo(w.dtype).eps
    state = {"ref": None, "want": {}}
    if known(w, spec["ops"][0]):
        state["ref"] = factors(u, w, spec["ops"][0])
    computed = False

    def want(i):
        if i not in state["want"]:
            if state["ref"] is None:
                state["ref"] = factors(u, w, spec["ops"][0])
            r = Reference(state["ref"], spec["ops"][i])
            state["want"][i] = (r.compute(), r.cond)
        return state["want"][i]

    for j, s in enumerate(spec["steps"]):
        what = f"step {j} {s}"
        ctx.ev("step", j, s["do"], s["op"])
        if s["do"] == "param":
            if computed:
                with torch.no_grad():
                    for k, p in enumerate(w.model.parameters()):
                        p.add_(0.3 * w.matrix(p.numel(), 1, s["s"] + k).reshape(p.shape))
                ctx.probe("parameters moved")
            continue
        clean = {k: v for k, v in s.items() if k != "fault"}
        o = spec["ops"][s["op"]]
        if o["kind"] == "kfac" or s["do"] != "mul":
            try:
                with ctx.lib(what):
                    u.do(clean)
            finally:
                if s["do"] in ("mul", "prop"):
                    computed = True
            continue
        if not computed:
            # factors come first: failures inside them are the business of C06
            with ctx.lib("factors"):
                u.do({"do": "mul", "op": 0, "fmt": "vec", "k": 1, "s": 0})
            computed = True
        M, cond = want(s["op"])
        f = s.get("fault")
        seam = Seam(
            f["n"] if f else None,
            EXCEPTIONS[f["exc"]]("injected factorisation failure") if f else None,
            only=LINALG,
            repeat=f["times"] if f else 1,
        )
        raised = None
        try:
            with seam:
                got = u.do(clean)["product"]
        except (Violation, InvalidSpec):
            raise
        except BaseException as e:  # noqa: B036
            raised = e
        if seam.fired:
            ctx.fired("factorisation")
        injected = isinstance(raised, Injected)
        if raised is not None and not injected:
            if not isinstance(raised, Exception):
                raise raised
            bound = 100 * eps * cond
            if M is None or bound > (1e-3 if eps < 1e-10 else 0.05):
                # (nearly) singular factors cannot be inverted
                ctx.probe("singular")
                if M is None and o.get("heuristic"):
                    zero = any(
                        float(x.trace()) <= 1e-14
                        for d in (state["ref"].A, state["ref"].B)
                        for x in d.values()
                    )
                    if zero and o["damping"] > 0 and cond < 1e6:
                        raise Violation("failed", f"{what}: {raised!r}"[:500])
                continue
            raise Violation("failed", f"{what}: {raised!r}, condition number {cond}"[:500])
        if injected:
            retry = o.get("retry_double_precision", True)
            if (
                f["exc"] in ("linalg", "runtime")
                and f["times"] == 1
                and retry
                and seam.dtype == torch.float32
                and "cholesky" in seam.name
            ):
                raise Violation("not-retried", f"{what}: {raised!r} at {seam.name}")
            ctx.probe("failure raised")
            continue
        if seam.fired:
            # survived: only the retry may swallow a failed factorisation
            retry = o.get("retry_double_precision", True)
            if not retry:
                raise Violation("swallowed", f"{what}: failed factorisation ignored")
            ctx.probe("retried in double precision")
        V = w.matrix(w.D, s["k"], s["s"])
        bound = 100 * eps * cond
        if M is None or bound > (1e-3 if eps < 1e-10 else 0.05):
            ctx.probe("not judged")
            continue
        R = M @ V
        ctx.checked()
        mode = (
            "exact" if o.get("exact") else "heuristic" if o.get("heuristic")
            else "pair" if isinstance(o["damping"], list)
            else "plain" if o["damping"] else "none"
        )
        ctx.probe("compared " + mode)
        at = 0
        for k, p in enumerate(w.params):
            rows = slice(at, at + p.numel())
            a, b = got[rows], R[rows]
            at += p.numel()
            # cancellation: errors scale with the matrix and the vectors
            size = float(M[rows].norm() * V.norm())
            tol = max(bound, 1e-9 if eps < 1e-10 else 1e-4)
            if not close(a, b, tol, floor=max(float(R.norm()) * 1e-3, size, 1e-9)):
                raise Violation(
                    "wrong-inverse",
                    f"{what} ({mode}), parameter {k}: {err(a, b)}, condition {cond:.1e}",
                )


def nontrivial(spec, ctx):
    return any(k.startswith("probe:compared") for k in ctx.counts)


def shrink(spec):
    yield from sh.drop_items(spec, "steps", keep=1)
    yield from sh.each_item(
        spec, "steps", lambda s: [{k: v for k, v in s.items() if k != "fault"}]
    )
    yield from history.shrink_universe(spec)
