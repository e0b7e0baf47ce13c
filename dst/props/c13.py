"""C13: spectral density estimates are valid and consistent for every start vector."""

import sys
import warnings

import numpy
import scipy.sparse.linalg  # noqa: F401
import torch
from scipy.special import ndtr

from dst import ops, problems, shrink as sh
from dst.core import InvalidSpec, Violation, chain_injected, weighted
from dst.props import c12
from dst.simop import SimOp, rand, spectrum_matrix
from dst.stream import gen_cuts

ID = "C13"
LEVEL = "fault_enumeration"
RUNS = {"quick": 8000, "thorough": 250000}
TECHNIQUE = (
    "seeded search over start vectors and request histories with failing or corrupted "
    "operator products; densities compared with closed-form mixtures from a "
    "reorthogonalised Lanczos run on the start vectors that the operator saw"
)
NOTE = (
    "Small operators (4-12 dimensions) so that ARPACK's boundary estimates are exact up to "
    "rounding; ARPACK's start vector is seeded through a seam."
)
RULE = (
    "One run = one function or class (Lanczos, (log-)spectrum, caches, boundaries) of one "
    "symmetric operator x a history of requests and faults. Non-trivial: a result was "
    "compared."
)
COMPONENTS = {
    "real": [
        "curvlinops.papyan2020traces.spectrum (all functions and classes)",
        "ARPACK, scipy.linalg.eigh",
        "NumPy's global generator (seeded)",
    ],
    "stub": [
        "the operator is wrapped in SimOp (records inputs, injects failures)",
        "start vectors of ARPACK drawn by the simulator",
    ],
}
ASSUMPTIONS = ["dense linear algebra in double precision"]


# -- seam: ARPACK's random start vector ----------------------------------------------
_V0 = {"seed": None, "n": 0}


def install_arpack_seam():
    m = sys.modules["scipy.sparse.linalg._eigen.arpack.arpack"]
    if getattr(m._ArpackParams, "_dst", False):
        return
    original = m._ArpackParams.__init__

    def init(self, n, k, tp, *args, **kwargs):
        args = list(args)
        # positions: mode, sigma, ncv, v0
        given = args[3] if len(args) > 3 else kwargs.get("v0")
        if given is None and _V0["seed"] is not None:
            v0 = rand(n, _V0["seed"] + _V0["n"]).astype(tp)
            _V0["n"] += 1
            if len(args) > 3:
                args[3] = v0
            else:
                kwargs["v0"] = v0
        original(self, n, k, tp, *args, **kwargs)

    m._ArpackParams.__init__ = init
    m._ArpackParams._dst = True


KINDS = ["lanczos", "plain", "log", "cached", "cached", "logcached", "logcached", "bounds"]


def gen(rng, tier):
    kind = rng.choice(KINDS)
    spec = {"kind": kind, "s": rng.randrange(10**6)}
    if rng.random() < 0.06:
        spec["problem"] = problems.gen_problem(
            rng, n_max=5, big=0, f32=0, max_D=25, tiny=True
        )
        spec["plan"] = [{"cuts": gen_cuts(rng, 5), "order": None}]
        spec["op"] = rng.choice(["ggn", "hess"])
        spec["ncv"] = rng.choice([2, 3])
    else:
        n = rng.randint(4, 12) if rng.random() < 0.95 else rng.choice([25, 40, 80])
        q = rng.randint(2, min(n, 6))
        grid = [x / 4 for x in range(-12, 13)]
        lam = rng.sample(grid, q)
        if rng.random() < 0.3:
            lam = [abs(x) for x in lam]
            lam = [x if lam.index(x) == i else x + 4 for i, x in enumerate(lam)]
        mult = [1] * q
        for _ in range(n - q):
            mult[rng.randrange(q)] += 1
        if rng.random() < 0.15:
            c = rng.choice([1e-4, 1e4])
            lam = [c * x for x in lam]
        spec["lam"], spec["mult"] = lam, mult
        spec["ncv"] = rng.choice([q, q, rng.randint(2, q)])
        spec["f32"] = rng.random() < 0.05
        if kind in ("plain", "log") and rng.random() < 0.04:
            spec["stat"] = True
            spec["ncv"] = 2
    spec["bounds"] = rng.choice(
        [
            "none", "none", "both", "both", "min", "max", "wide", "noneNone", "zero",
            "widemin", "widemax",
        ]
    )
    if spec.get("f32") and spec["bounds"] not in ("both", "wide"):
        # ARPACK in single precision misses eigenvalues when the spectrum is degenerate
        spec["bounds"] = "both"
    spec["tol"] = rng.choice([None, 1e-2, 0, 1e-6])
    steps = []
    for _ in range(rng.randint(1, 6 if tier == "quick" else 12)):
        s = gen_request(rng)
        if rng.random() < 0.4:
            s["fault"] = {
                "n": rng.choice([0, 1, 2, rng.randrange(8), rng.randrange(25)]),
                "times": 1,
                "k": rng.choice(["raise", "raise", "nan", "inf"]),
                "exc": rng.choice(["runtime", "memory", "interrupt", "value", "os"]),
                "at": rng.randrange(100),
            }
        steps.append(s)
    steps.append(gen_request(rng))
    if spec.get("stat"):
        steps = [{**gen_request(rng), "repeats": 700}]
    spec["steps"] = steps
    return spec


def gen_request(rng):
    s = {
        "repeats": rng.choice([1, 1, 2, 3, 5] * 5 + [12]),
        "points": rng.choice([2, 17, 200, 1024]),
        "kappa": rng.choice([1.04, 1.5, 3.0, 30.0]),
        "margin": rng.choice([0.0, 0.05, 0.5, 2.0]),
        "epsilon": rng.choice([1e-5, 1e-2, 1e-8]),
        "tridiagonal": rng.random() < 0.4,
    }
    if rng.random() < 0.15:
        s["defaults"] = True
    return s


class Sim:
    def __init__(self, spec, ctx):
        self.spec, self.ctx = spec, ctx
        inner = None
        if "problem" in spec:
            w = self.w = problems.World(spec["problem"], ctx, spec["plan"])
            op = ops.build(w, {"kind": spec["op"]})
            eye = torch.eye(w.D, dtype=torch.float64)
            with ctx.lib("product"):
                A = ops.apply(w, op, spec["op"], eye, "mat").numpy()
                inner = op.to_scipy()
            self.A = (A + A.T) / 2
        else:
            lam = [x for x, m in zip(spec["lam"], spec["mult"]) for _ in range(m)]
            self.A = spectrum_matrix(lam, spec["s"])
            if spec["f32"]:
                self.A = self.A.astype(numpy.float32)
        self.op = SimOp(self.A, ctx, inner, record=True)
        self.low = bool(spec.get("f32"))
        self.A = self.A.astype(float)
        self.n = len(self.A)
        if self.n < 4:
            raise InvalidSpec("ARPACK needs more dimensions")
        self.evals = numpy.linalg.eigvalsh(self.A)
        self.size = float(numpy.abs(self.evals).max())
        if self.size < 1e-8:
            raise InvalidSpec("zero operator")
        if "problem" in spec:
            d = numpy.diff(numpy.sort(self.evals)) > 1e-2 * self.size
            if int(d.sum()) + 1 < spec["ncv"]:
                raise InvalidSpec("too few distinct eigenvalues")
        self.ncv = spec["ncv"]
        self.eps = 1e-6 if self.low else 1e-9

    def log(self):
        return self.spec["kind"] in ("log", "logcached") or (
            self.spec["kind"] == "bounds" and self.spec["s"] % 2
        )

    def true_bounds(self):
        e = numpy.abs(self.evals) if self.log() else self.evals
        return float(e.min()), float(e.max())

    def given(self):
        lo, hi = self.true_bounds()
        pad = 0.3 * self.size
        how = self.spec["bounds"]
        wide = (lo * 0.5 if self.log() else lo - pad, hi + pad)
        if how == "zero":  # the usual knowledge about semi-definite operators
            how = "min" if lo < -self.eps < self.eps < hi else how
        return {
            "none": None,
            "zero": (0.0, None) if lo >= -self.eps else (None, 0.0),
            "widemin": (wide[0], None),
            "widemax": (None, wide[1]),
            "both": (lo, hi),
            "min": (lo, None),
            "max": (None, hi),
            "wide": wide,
            "noneNone": (None, None),
        }[how]

    def boundary_args(self):
        a = {}
        if self.spec["bounds"] != "none":
            a["boundaries"] = self.given()
        if self.spec["tol"] is not None:
            a["boundaries_tol"] = self.spec["tol"]
        return a


def lanczos(A, v, ncv, noise=None):
    """Reorthogonalised Lanczos: nodes and weights of the quadrature."""
    v = v / numpy.linalg.norm(v)
    if noise is not None:
        v = v * (1 + noise)
        v = v / numpy.linalg.norm(v)
    V, alpha, beta = [v], [], []
    for m in range(ncv):
        w = A @ V[-1]
        alpha.append(V[-1] @ w)
        Q = numpy.stack(V, 1)
        for _ in range(2):
            w = w - Q @ (Q.T @ w)
        if m < ncv - 1:
            beta.append(numpy.linalg.norm(w))
            V.append(w / beta[-1])
    T = numpy.diag(alpha) + numpy.diag(beta, 1) + numpy.diag(beta, -1)
    e, U = numpy.linalg.eigh(T)
    return e, U[0] ** 2, T


def plain_lanczos(A, v, ncv):
    """Three-term recurrence, to learn how much rounding matters for this vector."""
    v = v / numpy.linalg.norm(v)
    alpha, beta, prev = [], [], 0 * v
    for m in range(ncv):
        w = A @ v - (beta[-1] * prev if beta else 0)
        alpha.append(w @ v)
        w = w - alpha[-1] * v
        if m < ncv - 1:
            beta.append(numpy.linalg.norm(w))
            prev, v = v, w / beta[-1]
    return numpy.diag(alpha) + numpy.diag(beta, 1) + numpy.diag(beta, -1)


def reliable(sim, v):
    """Whether the recurrence on this start vector is insensitive to rounding."""
    _, _, T = lanczos(sim.A, v, sim.ncv)
    scale = numpy.abs(T).max()
    unit = 1e-7 if sim.low else 1e-15
    worst = numpy.abs(T - plain_lanczos(sim.A, v, sim.ncv)).max()
    for i in range(2):
        _, _, T2 = lanczos(sim.A, v, sim.ncv, unit * rand(len(v), 7 + i))
        worst = max(worst, numpy.abs(T - T2).max())
    return worst <= (1e-5 if sim.low else 1e-10) * scale


def density(nodes, weights, grid, sigma):
    x = (grid[None, :] - nodes[:, None]) / sigma
    bumps = numpy.exp(-0.5 * x**2) / (sigma * (2 * numpy.pi) ** 0.5)
    return (weights[:, None] * bumps).sum(0)


def run(spec, ctx):
    install_arpack_seam()
    _V0.update(seed=spec["s"] + 17, n=0)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with numpy.errstate(all="ignore"):
                simulate(spec, ctx)
    finally:
        _V0.update(seed=None)


def spectrum_module():
    import curvlinops.papyan2020traces.spectrum as m

    return m


def attempt(sim, s, call, what):
    """Run a request. Returns its result or ``None`` when a fault made it fail."""
    f = s.get("fault")
    sim.op.calls.clear()
    sim.op.arm(f)
    try:
        out = call()
    except BaseException as e:
        fired = sim.op.fired
        sim.op.arm(None)
        if not fired and type(e).__name__ == "ArpackNoConvergence":
            # too few basis vectors; ARPACK draws from a process-wide stream on restarts
            raise InvalidSpec("ARPACK did not converge") from e
        if not fired:
            raise Violation("failed", f"{what}: {e!r}") from e
        if f["k"] == "raise" and chain_injected(e) is None:
            raise Violation("exception-replaced", f"{what}: {e!r}") from e
        sim.ctx.probe("failed request")
        return None
    fired = sim.op.fired
    sim.op.arm(None)
    if fired and f["k"] == "raise":
        raise Violation("exception-swallowed", what)
    if fired:
        sim.ctx.probe("corrupted request returned")
        return "corrupted"
    return out


def starts_of(sim, what):
    """Start vectors of the Lanczos runs among the recorded products."""
    cols = c12.columns(sim.op.calls)
    if len(cols) % sim.ncv:
        raise Violation("products", f"{what}: {len(cols)} products, ncv={sim.ncv}")
    return cols[:: sim.ncv]


def check_starts(sim, starts, what):
    for v in starts:
        if abs(numpy.linalg.norm(v) - 1) > 1e-6:
            raise Violation("start-vector", f"{what}: norm {numpy.linalg.norm(v)}")
    for i, v in enumerate(starts[:8]):
        for u in starts[:i]:
            if numpy.abs(u - v).max() < 1e-12:
                raise Violation("start-vector", f"{what}: repeated")


def request_args(s, log):
    if s.get("defaults"):
        return {"num_repeats": s["repeats"]}
    a = {
        "num_repeats": s["repeats"],
        "num_points": s["points"],
        "kappa": s["kappa"],
        "margin": s["margin"],
    }
    if log:
        a["epsilon"] = s["epsilon"]
    return a


def resolved(s, log, cached):
    """Hyper-parameters with the documented defaults."""
    if not s.get("defaults"):
        return s["points"], s["kappa"], s["margin"], s["epsilon"]
    return 1024, 1.04 if log and not cached else 3.0, 0.05, 1e-5


def check_bounds(sim, lo, hi, what, exact_rel=1e-12, floor=0.0):
    """Known boundaries are kept, others are the extreme eigenvalues up to the tolerance."""
    given = sim.given() or (None, None)
    true = sim.true_bounds()
    tol = 1e-2 if sim.spec["tol"] is None else sim.spec["tol"]
    for name, got, g, t in zip(("min", "max"), (lo, hi), given, true):
        sim.ctx.checked()
        if g is not None:
            limit = exact_rel * max(abs(g), 1e-3 * sim.size)
            want = g
        else:
            limit = tol * abs(t) + (1e-4 if sim.low else 1e-8) * sim.size
            want = t
        if not abs(got - want) <= limit + floor:
            raise Violation("boundary", f"{what}: {name} {got} instead of {want}")


def check_spectrum(sim, s, out, runs, what, cached):
    ctx, log = sim.ctx, sim.log()
    points, kappa, margin, eps = resolved(s, log, cached)
    try:
        grid, dens = out
    except Exception as e:
        raise Violation("format", f"{what}: {out}") from e
    if grid.shape != (points,) or dens.shape != (points,):
        raise Violation("format", f"{what}: {grid.shape} {dens.shape}")
    if not numpy.isfinite(grid).all() or not (numpy.diff(grid) > 0).all():
        raise Violation("grid", f"{what}: {grid}")
    # boundaries from the grid
    x = numpy.log(grid) if log else grid
    a, b = float(x[0]), float(x[-1])
    if not numpy.allclose(x, numpy.linspace(a, b, points), rtol=1e-9, atol=1e-9 * (b - a)):
        raise Violation("grid", f"{what}: not evenly spaced")
    width = (b - a) / (1 + 2 * margin)
    lo, hi = a + margin * width, b - margin * width
    if log:
        lo, hi = numpy.exp(lo) - eps, numpy.exp(hi) - eps
        # cancellation in exp(log(x + eps)) - eps
        floor = 1e-11 * (1 + margin) ** 2 * (hi + eps)
        check_bounds(sim, lo, hi, what, 1e-9 * (1 + margin), floor)
    else:
        check_bounds(sim, lo, hi, what, 1e-9 * (1 + margin))
    if not (dens >= 0).all():
        raise Violation("density", f"{what}: negative or NaN")
    if not all(reliable(sim, v) for v in runs):
        ctx.probe("rounding-sensitive start vector")
        return False
    d = (b - a) / 2
    sigma = 2 / (sim.ncv - 1) / (8 * numpy.log(kappa)) ** 0.5 * d
    want = numpy.zeros(points)
    mass = spread = 0.0
    for v in runs:
        nodes, weights, _ = lanczos(sim.A, v, sim.ncv)
        if log:
            nodes = numpy.log(numpy.abs(nodes) + eps)
        want += density(nodes, weights, x, sigma) / len(runs)
        inside = ndtr((b - nodes) / sigma) - ndtr((a - nodes) / sigma)
        mass += float((weights * inside).sum()) / len(runs)
        # nodes near zero are ill-conditioned on the logarithmic scale
        unit = (1e-4 if sim.low else 1e-9) * sim.size
        if log:
            e = numpy.abs(lanczos(sim.A, v, sim.ncv)[0])
            spread = max(spread, float((unit / (e + eps)).max()) / sigma)
        else:
            spread = max(spread, unit / sigma)
    if log:
        want = want / grid
    ctx.checked()
    scale = numpy.maximum(want, (want * grid).max() / grid if log else want.max())
    limit = (1e-3 if sim.low else 1e-6) + 3 * spread
    if spread > 0.1:
        ctx.probe("ill-conditioned node")
        return False
    e = float((numpy.abs(dens - want) / scale).max())
    if not e <= limit:
        raise Violation("density", f"{what}: relative error {e:.3e}, limit {limit:.1e}")
    if points >= 200 and sigma > 3 * (b - a) / points:
        # mass in the grid's own variable
        y = dens * grid if log else dens
        got = float(((y[1:] + y[:-1]) / 2 * numpy.diff(x)).sum())
        ctx.checked()
        if abs(got - mass) > 5e-3 + limit:
            raise Violation("mass", f"{what}: {got} instead of {mass}")
        if mass > 0.999:
            ctx.probe("unit mass")
    return True


def simulate(spec, ctx):
    sim = Sim(spec, ctx)
    kind = spec["kind"]
    if kind == "lanczos":
        return run_lanczos(sim)
    if kind == "bounds":
        return run_bounds(sim)
    if sim.log() and spec["bounds"] != "none":
        lo, hi = sim.true_bounds()
    lo, hi = sim.true_bounds()
    if hi - lo < 1e-3 * sim.size or (sim.log() and hi < 2 * lo):
        raise InvalidSpec("degenerate boundaries")
    if kind in ("plain", "log"):
        return run_plain(sim)
    return run_cached(sim)


def run_lanczos(sim):
    m = spectrum_module()
    for j, s in enumerate(sim.spec["steps"]):
        what = f"step {j} {s}"
        sim.ctx.ev("step", j)
        args = {"use_eigh_tridiagonal": True} if s["tridiagonal"] else {}
        out = attempt(sim, s, lambda: m.fast_lanczos(sim.op, sim.ncv, **args), what)
        if out is None or isinstance(out, str):
            continue
        starts = starts_of(sim, what)
        check_starts(sim, starts, what)
        if len(starts) != 1:
            raise Violation("products", f"{what}: {len(starts)} runs")
        evals, evecs = out
        if evals.shape != (sim.ncv,) or evecs.shape != (sim.ncv, sim.ncv):
            raise Violation("format", f"{what}: {evals.shape} {evecs.shape}")
        if not reliable(sim, starts[0]):
            sim.ctx.probe("rounding-sensitive start vector")
            continue
        nodes, weights, T = lanczos(sim.A, starts[0], sim.ncv)
        tol = 1e-4 if sim.low else 1e-7
        sim.ctx.checked()
        scale = numpy.abs(T).max()
        got = (evecs * evals) @ evecs.T
        if not numpy.abs(got - T).max() <= tol * scale:
            raise Violation("lanczos", f"{what}: {got} instead of {T}")
        if not numpy.abs(evecs.T @ evecs - numpy.eye(sim.ncv)).max() <= 1e-9:
            raise Violation("lanczos", f"{what}: eigenvectors not orthonormal")
        if "lam" in sim.spec and sim.ncv == len(sim.spec["lam"]):
            want = numpy.sort(sim.spec["lam"])
            sim.ctx.probe("all eigenvalues")
            if not numpy.abs(numpy.sort(evals) - want).max() <= 10 * tol * scale:
                raise Violation("eigenvalues", f"{what}: {evals} instead of {want}")


def run_bounds(sim):
    m = spectrum_module()
    f = m.approximate_boundaries_abs if sim.log() else m.approximate_boundaries
    args = sim.boundary_args()
    if "boundaries_tol" in args:
        args["tol"] = args.pop("boundaries_tol")
    for j, s in enumerate(sim.spec["steps"]):
        what = f"step {j} {s}"
        sim.ctx.ev("step", j)
        out = attempt(sim, s, lambda: f(sim.op, **args), what)
        if out is None or isinstance(out, str):
            continue
        lo, hi = out
        check_bounds(sim, float(lo), float(hi), what)
        known = sum(g is not None for g in sim.given() or (None, None))
        if known == 2 and sim.op.calls:
            raise Violation("products", f"{what}: products for known boundaries")


def run_plain(sim):
    m = spectrum_module()
    log = sim.log()
    f = m.lanczos_approximate_log_spectrum if log else m.lanczos_approximate_spectrum
    for j, s in enumerate(sim.spec["steps"]):
        what = f"step {j} {s}"
        sim.ctx.ev("step", j)
        args = {**request_args(s, log), **sim.boundary_args()}
        out = attempt(sim, s, lambda: f(sim.op, sim.ncv, **args), what)
        if out is None or isinstance(out, str):
            continue
        # the products of the boundary estimation come first
        cols = c12.columns(sim.op.calls)
        need = s["repeats"] * sim.ncv
        if len(cols) < need:
            raise Violation("products", f"{what}: {len(cols)} products")
        starts = cols[len(cols) - need :: sim.ncv]
        check_starts(sim, starts, what)
        if sim.spec.get("stat"):
            V = numpy.stack(starts) * sim.n**0.5
            c12.moments("start vectors", V, None, sim.ctx)
        check_spectrum(sim, s, out, starts, what, False)


def run_cached(sim):
    m = spectrum_module()
    log = sim.log()
    cls = m.LanczosApproximateLogSpectrumCached if log else (
        m.LanczosApproximateSpectrumCached
    )
    obj = None
    states = [()]  # possible contents of the cache (start vectors)
    for j, s in enumerate(sim.spec["steps"]):
        what = f"step {j} {s}"
        sim.ctx.ev("step", j)
        if obj is None:
            # the first fault may hit the construction
            f = dict(s)
            obj = attempt(
                sim, f, lambda: cls(sim.op, sim.ncv, **sim.boundary_args()), what
            )
            if obj is None:
                continue
            if isinstance(obj, str):
                return
            if sim.spec["s"] % 3:
                s = {**s, "fault": None}
        method = obj.approximate_log_spectrum if log else obj.approximate_spectrum
        args = request_args(s, log)
        out = attempt(sim, s, lambda: method(**args), what)
        if isinstance(out, str):
            return  # garbage in the cache is the operator's fault
        if out is None:
            cols = c12.columns(sim.op.calls)
            complete = (len(cols) - 1) // sim.ncv
            if s["fault"]["k"] != "raise":
                # the run with the corrupted product is useless
                complete = min(complete, s["fault"]["n"] // sim.ncv)
            done = cols[:: sim.ncv][:complete]
            states = [
                st + tuple(done[:i]) for st in states for i in range(len(done) + 1)
            ]
            continue
        new = tuple(starts_of(sim, what))
        check_starts(sim, list(new), what)
        left, error = [], None
        for st in states:
            if max(0, s["repeats"] - len(st)) != len(new):
                continue
            runs = (st + new)[: s["repeats"]]
            try:
                check_spectrum(sim, s, out, runs, what, True)
                left.append(st + new)
            except Violation as v:
                error = v
        if not left:
            if error is not None:
                raise error
            raise Violation(
                "cache",
                f"{what}: {len(new)} new runs, cached {[len(st) for st in states]}",
            )
        states = left
        if not new:
            sim.ctx.probe("served from the cache")


def shrink(spec):
    yield from sh.drop_items(spec, "steps", keep=1)
    if "problem" in spec:
        yield from sh.sub(spec, "problem", problems.shrink_problem)
        yield from sh.plan(spec)
    else:
        for i, m in enumerate(spec["mult"]):
            if m > 1 and sum(spec["mult"]) > 4:
                mult = list(spec["mult"])
                mult[i] -= 1
                yield {**spec, "mult": mult}
        if spec["f32"]:
            yield {**spec, "f32": False}
    if spec["ncv"] > 2:
        yield {**spec, "ncv": spec["ncv"] - 1}
    if spec["bounds"] != "both":
        yield {**spec, "bounds": "both"}

    def step(s):
        if s.get("fault"):
            yield {k: v for k, v in s.items() if k != "fault"}
            if s["fault"]["n"]:
                yield {**s, "fault": {**s["fault"], "n": s["fault"]["n"] - 1}}
        if s["repeats"] > 1:
            yield {**s, "repeats": s["repeats"] - 1}
        simple = {"points": 200, "kappa": 3.0, "margin": 0.05, "epsilon": 1e-5}
        for k, v in simple.items():
            if s[k] != v:
                yield {**s, k: v}

    yield from sh.each_item(spec, "steps", step)
