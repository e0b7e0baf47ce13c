"""C11: iterative inverses are stateless solves and never return undetected NaNs."""

import warnings

import numpy
import torch

from dst import ops, problems, shrink as sh
from dst.core import Ctx, InvalidSpec, Violation, chain_injected, sub_rng, weighted
from dst.simop import SimOp, rand, spectrum_matrix
from dst.stream import gen_cuts

ID = "C11"
LEVEL = "fault_enumeration"
RUNS = {"quick": 6000, "thorough": 150000}
TECHNIQUE = (
    "seeded search over histories of solves, hyper-parameter changes and transient operator "
    "faults, compared with fresh operators, residual bounds and dense truncated series"
)
NOTE = (
    "Sampled, not exhaustive. Tolerances are checked on small operators (2-8 dimensions) "
    "with condition numbers up to 1e3 (CG) and 30 (LSMR)."
)
RULE = (
    "One run = one inverse (CG, LSMR, Neumann) of one operator (dense with chosen spectrum "
    "or a damped GGN of a small network) x a history of 3-10 steps. Non-trivial: a solve "
    "was compared."
)
COMPONENTS = {
    "real": [
        "CGInverseLinearOperator",
        "LSMRInverseLinearOperator",
        "NeumannInverseLinearOperator",
        "scipy cg and lsmr",
        "GGNLinearOperator (part of the runs)",
    ],
    "stub": ["underlying operator wrapped in SimOp (fault seam)"],
}
ASSUMPTIONS = ["dense linear algebra in double precision"]


def gen(rng, tier):
    kind = rng.choice(["cg", "cg", "lsmr", "neumann", "neumann"])
    n = rng.randint(1, 8) if rng.random() < 0.94 else rng.choice([17, 33, 40, 65])
    spec = {"kind": kind, "n": n, "s": rng.randrange(10**6)}
    r = rng.random()
    if r < 0.12:
        spec["problem"] = problems.gen_problem(
            rng, n_max=5, big=0, f32=0, max_D=25, tiny=True
        )
        spec["plan"] = [{"cuts": gen_cuts(rng, 5), "order": None}]
        spec["delta"] = rng.choice([0.3, 1.0])
    else:
        top = rng.choice([1.0, 1.0, 10.0, 0.1])
        ratio = rng.choice([2, 10, 30] + ([300, 1000] if kind == "cg" else []))
        lam = [top, top / ratio] + [top * (1 / ratio) ** rng.random() for _ in range(n)]
        lam = lam[:n]
        if kind == "lsmr" and rng.random() < 0.5:
            spec["general"] = True
        if kind == "neumann" and rng.random() < 0.15:
            lam[0] *= 40  # divergent for most scales
        spec["lam"] = lam
        if rng.random() < 0.1:
            spec["f32"] = True
    if rng.random() < 0.3:
        spec["two"] = True  # inverses of the same kind side by side
    steps = []
    for _ in range(rng.randint(3, 9 if tier == "quick" else 16)):
        do = weighted(rng, {"solve": 7, "fault": 3.5, "set": 4, "new": 0.4, "info": 0.7})
        s = {"do": do, "s": rng.randrange(1000)}
        if spec.get("two"):
            s["i"] = rng.randrange(2)
        if do in ("solve", "fault", "info"):
            s["k"] = rng.choice([0, 0, 0, -1, 1, 2, 3] * 6 + [9, 17])
            s["layout"] = rng.choice(["C", "C", "F", "strided", "readonly"])
            s["scale"] = rng.choice([1.0, 1.0, 1e-6, 1e4])
            s["zero"] = rng.random() < 0.05
            s["int"] = rng.random() < 0.05
        if do == "info":
            s["k"] = 0
        if do == "fault":
            s["fault"] = {
                "n": rng.choice([0, 1, 2, rng.randrange(12), rng.randrange(40)]),
                "times": rng.choice([1, 1, 2]),
                "k": rng.choice(["raise", "nan", "nan", "inf"]),
                "exc": rng.choice(["runtime", "memory", "interrupt", "value", "os"]),
                "at": rng.randrange(100),
            }
        if do == "set":
            s["hyper"] = gen_hyper(rng, kind)
        steps.append(s)
    for i in range(2 if spec.get("two") else 1):
        k = rng.choice([0, 2])
        last = {"do": "solve", "i": i, "s": 1, "k": k, "layout": "C", "scale": 1.0}
        steps.append(last)
    spec["steps"] = steps
    return spec


def gen_hyper(rng, kind):
    h = {}
    if kind == "cg":
        if rng.random() < 0.5:
            h["tol"] = rng.choice([1e-3, 1e-5, 1e-8, 1e-10])
        if rng.random() < 0.3:
            h["atol"] = rng.choice([0.0, 1e-6, 1e-3])
        if rng.random() < 0.3:
            h["maxiter"] = rng.choice([1, 2, 3, 100, 1000])
        if rng.random() < 0.3:
            h["x0"] = rng.randrange(100)
        if rng.random() < 0.25:
            h["M"] = rng.choice(["array", "operator"])
        if rng.random() < 0.2:
            h["callback"] = True
    elif kind == "lsmr":
        if rng.random() < 0.3:
            h["damp"] = rng.choice([0.1, 1.0])
        for key in ("atol", "btol"):
            if rng.random() < 0.4:
                h[key] = rng.choice([1e-3, 1e-6, 1e-9, 1e-12])
        if rng.random() < 0.2:
            h["conlim"] = rng.choice([0, 1e8, 1e10])
        if rng.random() < 0.3:
            h["maxiter"] = rng.choice([1, 2, 50, 100])
        if rng.random() < 0.3:
            h["x0"] = rng.randrange(100)
    else:
        if rng.random() < 0.7:
            h["num_terms"] = rng.choice([1, 2, 3, 5, 17, 60])
        if rng.random() < 0.8:
            h["scale"] = rng.choice([0.1, 0.5, 1.0, 1.5])
        if rng.random() < 0.3:
            h["check_nan"] = rng.random() < 0.4
    return h


class Sim:
    def __init__(self, spec, ctx):
        self.spec, self.ctx, self.kind = spec, ctx, spec["kind"]
        if "problem" in spec:
            self.w = problems.World(spec["problem"], ctx, spec["plan"])
            G = ops.build(self.w, {"kind": "ggn"})
            eye = torch.eye(self.w.D, dtype=torch.float64)
            with ctx.lib("ggn"):
                M = ops.apply(self.w, G, "ggn", eye, "mat").numpy()
                sci = G.to_scipy()
            self.delta = spec["delta"] * max(float(numpy.abs(M).max()), 1e-3)
            self.dense = (M + M.T) / 2 + self.delta * numpy.eye(self.w.D)
            outer = self

            class Damped:
                def __matmul__(self, x):
                    return sci @ x + outer.delta * x

            self.inner = Damped()
        else:
            lam = spec["lam"]
            self.dense = spectrum_matrix(lam, spec["s"])
            if spec.get("general"):
                n = len(lam)
                Q, _ = numpy.linalg.qr(rand((n, n), spec["s"] + 1))
                self.dense = self.dense @ Q
            if spec.get("f32"):
                self.dense = self.dense.astype(numpy.float32)
            self.inner = None
        self.n = len(self.dense)
        self.A = SimOp(self.dense, ctx, self.inner)
        self.hypers = [None, None]
        self.i = 0  # the inverse in use
        sv = numpy.linalg.svd(self.dense.astype(float), compute_uv=False)
        self.smax, self.smin = float(sv[0]), float(sv[-1])

    @property
    def hyper(self):
        return self.hypers[self.i]

    @hyper.setter
    def hyper(self, h):
        self.hypers[self.i] = h

    def make(self, A):
        import curvlinops as C

        cls = {
            "cg": C.CGInverseLinearOperator,
            "lsmr": C.LSMRInverseLinearOperator,
            "neumann": C.NeumannInverseLinearOperator,
        }[self.kind]
        return cls(A)

    def arguments(self, h):
        a = dict(h)
        if "x0" in a:
            a["x0"] = rand(self.n, a["x0"])
        if "M" in a:
            d = 1.0 / numpy.abs(numpy.diag(self.dense).astype(float))
            M = numpy.diag(d)
            if a["M"] == "operator":
                M = SimOp(M)
            a["M"] = M
        if a.pop("callback", False):
            a["callback"] = lambda xk: None
        return a

    def set(self, inv, h, args=None):
        args = self.arguments(h) if args is None else args
        getattr(inv, f"set_{self.kind}_hyperparameters")(**args)
        return args

    def rhs(self, s):
        k = s["k"]
        shape = (self.n,) if k == 0 else (self.n, 1) if k == -1 else (self.n, k)
        b = rand(shape, s["s"]) * s.get("scale", 1.0)
        if s.get("zero"):
            b = b.reshape(self.n, -1)
            b[:, -1] = 0
            b = b.reshape(shape)
        if s.get("int"):
            b = numpy.round(b * 3).astype(int)
        layout = s["layout"]
        if layout == "F":
            b = numpy.asfortranarray(b)
        elif layout == "strided":
            big = numpy.zeros((2 * self.n,) + shape[1:], dtype=b.dtype)
            big[::2] = b
            b = big[::2]
        elif layout == "readonly":
            b.flags.writeable = False
        return b

    def fresh_solution(self, b, nudge=None):
        """Column by column, each by its own, never used operator."""
        B = b.reshape(self.n, -1)
        cols = []
        for j in range(B.shape[1]):
            inv = self.make(SimOp(self.dense, None, self.inner))
            h = self.hyper
            if nudge is not None:
                # slightly different tolerances: an iteration more or less at a tie
                keys = ("atol", "btol") if self.kind == "lsmr" else ("tol", "atol")
                default = {"atol": 0.0 if self.kind == "cg" else 1e-6, "btol": 1e-6}
                h = {**(h or {})}
                for key in keys:
                    h[key] = h.get(key, default.get(key, 1e-5)) * nudge
            if h is not None:
                self.set(inv, h)
            cols.append(inv @ numpy.array(B[:, j], copy=True))
        return numpy.stack(cols, 1)


def check_tolerance(sim, b, x, h, ctx):
    """The stated tolerance (CG, LSMR) or the truncated series (Neumann)."""
    A = sim.dense.astype(float)
    B, X = b.reshape(sim.n, -1).astype(float), x.reshape(sim.n, -1)
    low = bool(sim.spec.get("f32"))
    eps = 1e-7 if low else 1e-15
    cond = sim.smax / sim.smin
    h = h or {}
    for j in range(B.shape[1]):
        bj, xj = B[:, j], X[:, j]
        nb = float(numpy.linalg.norm(bj))
        if sim.kind == "cg":
            if h.get("maxiter", 10**6) < 10 * sim.n or cond > 2e3:
                continue
            tol = h.get("tol", 1e-5)
            x0 = numpy.linalg.norm(sim.arguments(h)["x0"]) if "x0" in h else 0.0
            floor = 50 * eps * cond * (nb + sim.smax * x0)
            if nb == 0:
                bound = floor
            else:
                bound = max(tol * nb, h.get("atol", 0.0)) * 1.001 + floor
            if low and tol * nb < floor:
                continue
            r = float(numpy.linalg.norm(bj - A @ xj))
            ctx.checked()
            ctx.probe("tolerance cg")
            if not r <= bound:
                raise Violation("tolerance", f"residual {r:.3e} > {bound:.3e}, column {j}")
        elif sim.kind == "lsmr":
            damp = h.get("damp", 0.0)
            if "maxiter" in h and h["maxiter"] < 4 * sim.n:
                continue
            if "maxiter" not in h:
                # SciPy's default limits the iterations to the dimension
                inv = sim.make(SimOp(sim.dense, None, sim.inner))
                sim.set(inv, h)
                if inv.matvec_with_info(b.reshape(sim.n, -1)[:, j].copy())[1] == 7:
                    continue
            if cond > 40 or (damp and "x0" in h) or low:
                continue
            want = numpy.linalg.solve(
                A.T @ A + damp**2 * numpy.eye(sim.n), A.T @ bj
            )
            x0 = numpy.linalg.norm(sim.arguments(h)["x0"]) if "x0" in h else 0.0
            size = (
                float(numpy.linalg.norm(want)) + nb / sim.smin + (1 + cond) * x0
            )
            bound = (
                5 * (h.get("atol", 1e-6) + h.get("btol", 1e-6)) * cond**2
                + 1e-9 * cond
            ) * size + 1e-30
            e = float(numpy.linalg.norm(xj - want))
            ctx.checked()
            ctx.probe("tolerance lsmr")
            if not e <= bound:
                raise Violation("tolerance", f"error {e:.3e} > {bound:.3e}, column {j}")
        else:
            scale, K = h.get("scale", 1.0), h.get("num_terms", 100)
            term, total, size = bj.copy(), bj.copy(), float(numpy.linalg.norm(bj))
            with numpy.errstate(all="ignore"):
                for _ in range(K):
                    term = term - scale * (A @ term)
                    total = total + term
                    size += float(numpy.linalg.norm(term))
            if not numpy.isfinite(size) or size > 1e30:
                continue
            ctx.checked()
            ctx.probe("series")
            e = float(numpy.linalg.norm(xj - scale * total))
            # rounding errors grow with the operator's norm
            bound = 100 * eps * (K + 1) * (1 + sim.smax * scale) * size * scale + 1e-30
            if low:
                bound *= 10
            if not e <= bound:
                raise Violation("series", f"error {e:.3e} > {bound:.3e}, column {j}")


def same(sim, b, x, ref, ctx):
    h = sim.hyper or {}
    X, R = x.reshape(sim.n, -1), ref.reshape(sim.n, -1)
    low = bool(sim.spec.get("f32"))
    for j in range(X.shape[1]):
        a, r = X[:, j].astype(float), R[:, j].astype(float)
        if not numpy.isfinite(r).all():
            if not numpy.array_equal(numpy.isfinite(a), numpy.isfinite(r)):
                raise Violation("stateful", f"column {j}: {a} instead of {r}")
            continue
        ctx.checked()
        e, size = numpy.linalg.norm(a - r), max(numpy.linalg.norm(r), 1e-300)
        if e <= (3e-3 if low else 1e-7) * size:
            continue
        # an iteration more or less by rounding: both must meet the tolerance
        bj = b.reshape(sim.n, -1)[:, j].astype(float)
        if sim.kind == "neumann":
            raise Violation("stateful", f"column {j}: |diff|={e:.3e} |want|={size:.3e}")
        near = False
        for nudge in (1 - 1e-5, 1 + 1e-5):
            other = sim.fresh_solution(b, nudge)[:, j].astype(float)
            near |= numpy.linalg.norm(a - other) <= (3e-3 if low else 1e-7) * size
        # rounding errors amplified by the loss of orthogonality
        spread = 0.0
        for i in range(3 if sim.kind != "neumann" else 0):
            noise = 1 + (1e-7 if low else 1e-15) * rand(b.shape, 99 + i)
            other = sim.fresh_solution(b * noise)[:, j].astype(float)
            spread = max(spread, numpy.linalg.norm(r - other))
        near |= e <= 100 * spread
        if near:
            ctx.probe("rounding-sensitive solve")
            continue
        tol = h.get("tol", 1e-5) if sim.kind == "cg" else 1e3 * max(
            h.get("atol", 1e-6), h.get("btol", 1e-6)
        )
        A = sim.dense.astype(float)
        ra = numpy.linalg.norm(bj - A @ a)
        rr = numpy.linalg.norm(bj - A @ r)
        limit = max(tol * numpy.linalg.norm(bj), h.get("atol", 0.0)) + 1e-12
        if sim.kind == "lsmr" and (h.get("damp") or "maxiter" in h):
            limit = -1
        if sim.kind == "cg" and low:
            continue
        if not (ra <= limit * 1.01 and rr <= limit * 1.01):
            raise Violation(
                "stateful",
                f"column {j}: |diff|={e:.3e} |want|={size:.3e} residuals {ra:.2e} {rr:.2e}",
            )


def run(spec, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with numpy.errstate(all="ignore"):
            simulate(spec, ctx)


def simulate(spec, ctx):
    sim = Sim(spec, ctx)
    with ctx.lib("construction"):
        invs = [sim.make(sim.A) for _ in range(2 if spec.get("two") else 1)]
    guesses = []  # (x0 passed by the caller, pristine copy)
    failures = 0
    for j, s in enumerate(spec["steps"]):
        what = f"step {j} {s}"
        ctx.ev("step", j, s["do"])
        sim.i = s.get("i", 0) % len(invs)
        inv = invs[sim.i]
        if s["do"] == "set":
            sim.hyper = s["hyper"]
            args = sim.arguments(s["hyper"])
            if "x0" in args:
                guesses.append((args["x0"], args["x0"].copy()))
            with ctx.lib(what):
                sim.set(inv, s["hyper"], args)
            continue
        if s["do"] == "new":
            sim.hyper = None
            with ctx.lib(what):
                invs[sim.i] = sim.make(sim.A)
            continue
        b = sim.rhs(s)
        keep = b.copy()
        sim.A.arm(s.get("fault") if s["do"] == "fault" else None)
        info = s["do"] == "info" and sim.kind == "lsmr"
        exc = x = None
        try:
            x = inv.matvec_with_info(b)[0] if info else inv @ b
        except BaseException as e:  # noqa: B036
            exc = e
        fired = sim.A.fired
        sim.A.arm(None)
        if not numpy.array_equal(b, keep):
            raise Violation("rhs-modified", what)
        for g, pristine in guesses:
            if not numpy.array_equal(g, pristine):
                raise Violation("guess-modified", what)
        ctx.checked()
        check_nan = (sim.hyper or {}).get("check_nan", True)
        if exc is not None:
            if fired:
                failures += 1
                ctx.probe("failed solve")
                injected = chain_injected(exc)
                if s["fault"]["k"] == "raise" and injected is None:
                    raise Violation("exception-replaced", f"{what}: {exc!r}")
                if s["fault"]["k"] != "raise" and sim.kind == "neumann":
                    if not (isinstance(exc, ValueError) and check_nan):
                        raise Violation("exception", f"{what}: {exc!r}")
                    ctx.probe("NaN detected")
                continue
            if sim.kind == "neumann" and check_nan and isinstance(exc, ValueError):
                # legal only if the series really produces NaNs
                try:
                    sim.hyper = {**(sim.hyper or {}), "check_nan": False}
                    ref = sim.fresh_solution(b)
                finally:
                    sim.hyper["check_nan"] = check_nan
                if numpy.isnan(ref).any():
                    ctx.probe("divergence detected")
                    continue
            raise Violation("failed", f"{what}: {exc!r}")
        if not isinstance(x, numpy.ndarray) or x.shape != b.shape:
            raise Violation("format", f"{what}: {type(x)} {getattr(x, 'shape', None)}")
        if sim.kind == "neumann" and check_nan and numpy.isnan(x).any():
            raise Violation("nan-returned", f"{what}: {x}")
        if fired:
            failures += 1
            ctx.probe("corrupted solve")
            if s["fault"]["k"] == "raise":
                raise Violation("exception-swallowed", what)
            continue
        with ctx.lib("reference"):
            ref = sim.fresh_solution(b)
        same(sim, b, x, ref, ctx)
        check_tolerance(sim, b, x, sim.hyper, ctx)
        if failures:
            ctx.probe("compared after a failure")


def shrink(spec):
    if spec.get("two"):
        yield {**spec, "two": False}
    yield from sh.drop_items(spec, "steps", keep=1)
    if "problem" in spec:
        yield from sh.sub(spec, "problem", problems.shrink_problem)
        yield from sh.plan(spec)
    elif spec.get("general") or spec.get("f32"):
        yield {k: v for k, v in spec.items() if k not in ("general", "f32")}
    if len(spec.get("lam", [])) > 1:
        for i in range(len(spec["lam"])):
            yield {**spec, "lam": spec["lam"][:i] + spec["lam"][i + 1 :]}

    def step(s):
        if s.get("layout", "C") != "C":
            yield {**s, "layout": "C"}
        if s.get("k"):
            yield {**s, "k": 0}
        if s.get("k", 0) > 1:
            yield {**s, "k": 1}
        for key in ("zero", "int"):
            if s.get(key):
                yield {**s, key: False}
        if s.get("scale", 1.0) != 1.0:
            yield {**s, "scale": 1.0}
        for key in s.get("hyper", {}):
            yield {**s, "hyper": {k: v for k, v in s["hyper"].items() if k != key}}
        if s.get("fault") and s["fault"]["n"]:
            yield {**s, "fault": {**s["fault"], "n": s["fault"]["n"] // 2}}

    yield from sh.each_item(spec, "steps", step)
