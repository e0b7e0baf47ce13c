"""C12: randomised trace, diagonal and norm estimates are unbiased and crash-safe."""

import numpy
import torch

from dst import ops, problems, shrink as sh
from dst.core import InvalidSpec, Violation, chain_injected, weighted
from dst.simop import SimOp, rand
from dst.stream import gen_cuts

ID = "C12"
LEVEL = "fault_enumeration"
RUNS = {"quick": 20000, "thorough": 600000}
TECHNIQUE = (
    "seeded search over histories of samples, distributions and failing operator products; "
    "every sample compared with the quadratic form of the vectors that the operator saw, "
    "and moment tests over long sampling histories"
)
NOTE = (
    "The vectors are observed at the operator. Moment tests use thresholds of more than 7 "
    "standard errors over several thousand samples per run, so biases below about 0.05 standard "
    "deviations of one entry are only found when they also break the quadratic form."
)
RULE = (
    "One run = one estimator (trace, Hutch++, diagonal, squared Frobenius norm) of one "
    "operator (dense of chosen rank, or GGN/Hessian of a small network) x a history of "
    "samples, invalid requests, reseedings and failing products. Non-trivial: a sample was "
    "compared."
)
COMPONENTS = {
    "real": [
        "HutchinsonTraceEstimator",
        "HutchPPTraceEstimator",
        "HutchinsonDiagonalEstimator",
        "HutchinsonSquaredFrobeniusNormEstimator",
        "curvlinops.sampling",
        "NumPy's global generator (seeded)",
    ],
    "stub": ["the operator is wrapped in SimOp (records inputs, injects failures)"],
}
ASSUMPTIONS = ["dense linear algebra in double precision"]
DISTS = ["rademacher", "normal"]


def gen(rng, tier):
    est = rng.choice(["trace", "hutchpp", "hutchpp", "diag", "norm"])
    n = rng.randint(1, 8)
    spec = {"est": est, "n": n, "s": rng.randrange(10**6)}
    r = rng.random()
    if r < 0.08:
        spec["problem"] = problems.gen_problem(
            rng, n_max=5, big=0, f32=0, max_D=25, tiny=True
        )
        spec["plan"] = [{"cuts": gen_cuts(rng, 5), "order": None}]
        spec["op"] = rng.choice(["ggn", "hess"])
    else:
        if est == "norm" and rng.random() < 0.7:
            spec["m"] = rng.randint(1, 8)
        spec["rank"] = rng.randint(0 if rng.random() < 0.05 else 1, n)
        spec["symmetric"] = rng.random() < 0.5
        spec["scale"] = rng.choice([1.0, 1.0, 1e-6, 1e5])
        spec["f32"] = rng.random() < 0.08
        spec["ndarray"] = rng.random() < 0.05
    if est == "hutchpp":
        k = rng.choice([None, 1, spec.get("rank", 1) or 1, n, rng.randint(1, n)])
        spec["basis_dim"] = k
        spec["basis_dist"] = rng.choice(DISTS)
    spec["stat"] = rng.random() < 0.04 and "problem" not in spec
    if est != "hutchpp" and "problem" not in spec and rng.random() < 0.012:
        # high-dimensional, few directions
        n = spec["n"] = rng.randint(30, 300)
        spec["stat"] = True
        spec.pop("m", None)
    steps = []
    for _ in range(rng.randint(2, 8 if tier == "quick" else 14)):
        do = weighted(
            rng, {"sample": 6, "fault": 4, "bad": 0.7, "seed": 0.7, "prepare": 0.5}
        )
        if do == "seed" and spec["stat"]:
            continue
        s = {"do": do}
        if do in ("sample", "fault"):
            s["dist"] = rng.choice(DISTS + [None])
            s["count"] = rng.choice([1, 1, 2, 5])
            if spec["stat"] and do == "sample":
                s["count"] = rng.choice([500, 2500]) if n < 30 else 400
        if do == "seed":
            s["seed"] = rng.randrange(3)
        if do == "fault":
            s["fault"] = {
                "n": rng.choice([0, 0, 1, 2, rng.randrange(2 * n + 1)]),
                "times": 1,
                "k": "raise",
                "exc": rng.choice(["runtime", "memory", "interrupt", "value", "os"]),
            }
        steps.append(s)
    steps.append({"do": "sample", "dist": rng.choice(DISTS), "count": min(n, 8) + 3})
    spec["steps"] = steps
    return spec


def dense(spec):
    n, m = spec["n"], spec.get("m", spec["n"])
    r = min(spec["rank"], n, m)
    B, C = rand((m, r), spec["s"]), rand((r, n), spec["s"] + 1)
    A = B @ B.T if spec["symmetric"] and m == n else B @ C
    A = A * spec["scale"]
    return (A.astype(numpy.float32) if spec["f32"] else A), r


class Sim:
    def __init__(self, spec, ctx):
        self.spec, self.ctx = spec, ctx
        self.tol = 1e-9
        if "problem" in spec:
            w = self.w = problems.World(spec["problem"], ctx, spec["plan"])
            op = ops.build(w, {"kind": spec["op"]})
            eye = torch.eye(w.D, dtype=torch.float64)
            with ctx.lib("product"):
                self.A = ops.apply(w, op, spec["op"], eye, "mat").numpy()
                inner = op.to_scipy()
            self.rank = None
        else:
            self.A, self.rank = dense(spec)
            inner = None
            if spec["f32"]:
                self.tol = 1e-4
        self.op = SimOp(self.A, ctx, inner, record=True)
        self.A = self.A.astype(float)
        self.norm = max(float(numpy.abs(self.A).max(initial=0.0)), 1e-300)
        self.m, self.n = self.A.shape
        if spec.get("ndarray"):
            self.target = self.op.A
        else:
            self.target = self.op
        self.drawn = []  # (distribution, vector, value)

    def build(self):
        import curvlinops as C
        from curvlinops.norm.hutchinson import (
            HutchinsonSquaredFrobeniusNormEstimator as Norm,
        )

        est = self.spec["est"]
        if est == "trace":
            return C.HutchinsonTraceEstimator(self.target)
        if est == "diag":
            return C.HutchinsonDiagonalEstimator(self.target)
        if est == "norm":
            return Norm(self.target)
        kwargs = {"basis_distribution": self.spec["basis_dist"]}
        k = self.spec["basis_dim"]
        if k is not None:
            kwargs["basis_dim"] = min(k, self.n)
        self.k = kwargs.get("basis_dim", 1)
        return C.HutchPPTraceEstimator(self.target, **kwargs)

    def form(self, v):
        Av = self.A @ v
        est = self.spec["est"]
        if est == "diag":
            return v * Av
        if est == "norm":
            return Av @ Av
        return v @ Av

    def magnitude(self, v):
        """Size of the terms that make up the form (rounding errors scale with it)."""
        a = numpy.abs(self.A) @ numpy.abs(v)
        if self.spec["est"] == "norm":
            return float((a * a).sum())
        return float(numpy.abs(v) @ a)


def columns(calls):
    out = []
    for x, adjoint in calls:
        x = numpy.asarray(x, dtype=float)
        x = x.reshape(x.shape[0], -1)
        out += [x[:, j] for j in range(x.shape[1])]
    return out


def run(spec, ctx):
    with numpy.errstate(all="ignore"):
        simulate(spec, ctx)


def simulate(spec, ctx):
    sim = Sim(spec, ctx)
    with ctx.lib("construction"):
        est = sim.build()
    failures = 0
    for j, s in enumerate(spec["steps"]):
        what = f"step {j} {s}"
        ctx.ev("step", j, s["do"])
        if s["do"] == "seed":
            numpy.random.seed(s["seed"])
            continue
        if s["do"] == "bad":
            n_calls = len(sim.op.calls)
            try:
                est.sample(distribution="cauchy")
            except ValueError:
                pass
            except BaseException as e:
                raise Violation("bad-distribution", f"{what}: {e!r}") from e
            else:
                raise Violation("bad-distribution", f"{what}: accepted")
            del sim.op.calls[n_calls:]
            continue
        if s["do"] == "prepare":
            if spec["est"] == "hutchpp":
                with ctx.lib(what):
                    est.maybe_compute_and_cache_subspace()
            continue
        for i in range(s["count"]):
            sim.op.calls.clear()
            sim.op.arm(s.get("fault") if i == 0 else None)
            args = {} if s["dist"] is None else {"distribution": s["dist"]}
            try:
                value = est.sample(**args)
            except BaseException as e:
                fired = sim.op.fired
                sim.op.arm(None)
                if not fired:
                    raise Violation("failed", f"{what}: {e!r}") from e
                if chain_injected(e) is None:
                    raise Violation("exception-replaced", f"{what}: {e!r}") from e
                failures += 1
                ctx.probe("failed sample")
                continue
            fired = sim.op.fired
            sim.op.arm(None)
            if fired:
                raise Violation("exception-swallowed", what)
            if failures:
                ctx.probe("sample after a failure")
            check(sim, s, value, what, ctx)
    finish(sim, ctx)


def check(sim, s, value, what, ctx):
    spec = sim.spec
    dist = s["dist"] or "rademacher"
    shape = (sim.n,) if spec["est"] == "diag" else ()
    if numpy.shape(value) != shape:
        raise Violation("format", f"{what}: shape {numpy.shape(value)}")
    ctx.checked()
    if spec.get("ndarray"):
        sim.drawn.append((dist, None, value))
        return
    cols = columns(sim.op.calls)
    if not cols:
        raise Violation("no-product", what)
    v = cols[-1]
    sim.drawn.append((dist, v, value))
    if spec["est"] == "hutchpp":
        return
    if dist == "rademacher" and not numpy.array_equal(numpy.abs(v), numpy.ones(sim.n)):
        raise Violation("distribution", f"{what}: {v} is not Rademacher")
    if dist == "normal" and (numpy.abs(v) == 1).any():
        raise Violation("distribution", f"{what}: {v} is not normal")
    want = sim.form(v)
    e = numpy.linalg.norm(numpy.atleast_1d(value - want))
    limit = sim.tol * (sim.magnitude(v) + 1e-300)
    if not e <= limit:
        raise Violation("quadratic-form", f"{what}: got {value}, want {want}")


def moments(name, V, exact_unit, ctx):
    """First, second, fourth moments and serial correlation of ``[samples, dim]``."""
    M, d = V.shape
    if M < 300 or d == 0:
        return
    ctx.probe("moment test")
    ctx.checked()
    root = M**0.5
    mean = V.mean(0)
    if (numpy.abs(mean) > 7.5 / root).any():
        raise Violation("biased-mean", f"{name}: {mean} over {M}")
    pooled = V.mean()
    if abs(pooled) > 7.5 / (root * d**0.5):
        raise Violation("biased-mean", f"{name}: {pooled} over {M}x{d}")
    C = V.T @ V / M - numpy.eye(d)
    # products of normals have heavier tails
    if (numpy.abs(C) > 12 / root).any():
        raise Violation("biased-covariance", f"{name}: {C} over {M}")
    var = numpy.trace(C) / d
    if abs(var) > 8 * (2 / (M * d)) ** 0.5:
        raise Violation("biased-covariance", f"{name}: variance 1{var:+} over {M}x{d}")
    if d > 1:
        off = (C.sum() - numpy.trace(C)) / (d * (d - 1))
        if abs(off) > 10 * (2 / (M * d * (d - 1))) ** 0.5:
            raise Violation("biased-covariance", f"{name}: {off} off diagonal")
    lag = (V[1:] * V[:-1]).mean(0)
    if (numpy.abs(lag) > 11 / root).any():
        raise Violation("serial-correlation", f"{name}: {lag} over {M}")
    if exact_unit is False:
        k = (V**4).mean()
        if abs(k - 3) > 150 / root:
            raise Violation("kurtosis", f"{name}: {k} over {M}x{d}")


def finish(sim, ctx):
    spec = sim.spec
    if spec.get("ndarray"):
        return
    for dist in DISTS:
        V = [v for d, v, _ in sim.drawn if d == dist]
        if spec["stat"] and spec["est"] != "hutchpp" and V:
            moments(dist, numpy.stack(V), dist == "rademacher", ctx)
    if spec["stat"] and spec["est"] != "hutchpp" and sim.drawn:
        # across distributions, in the order of sampling
        moments("all", numpy.stack([v for _, v, _ in sim.drawn]), None, ctx)
    if spec["est"] == "hutchpp":
        finish_hutchpp(sim, ctx)


def finish_hutchpp(sim, ctx):
    """The sub-space follows from the vectors: it is what they are orthogonal to."""
    spec = sim.spec
    U = numpy.stack([v for _, v, _ in sim.drawn], 1)
    values = numpy.array([float(x) for _, _, x in sim.drawn])
    scale = sim.norm * sim.n
    consts = numpy.array(
        [x - sim.form(v) for _, v, x in sim.drawn], dtype=float
    )
    size = scale * (1 + (U * U).sum(0).max())
    ctx.checked()
    if not numpy.abs(consts - consts[0]).max() <= sim.tol * size * 10:
        raise Violation("quadratic-form", f"exact part varies: {consts}")
    trace = float(numpy.trace(sim.A))
    full = sim.k == sim.n or (
        sim.rank is not None
        and sim.k >= sim.rank
        and spec["basis_dist"] == "normal"
        and not spec["f32"]
    )
    if full:
        ctx.probe("basis spans the range")
        if not numpy.abs(values - trace).max() <= 1e-6 * scale:
            raise Violation("not-exact", f"{values} instead of {trace}")
    Q, sv, _ = numpy.linalg.svd(U, full_matrices=False)
    if sim.k < sim.n:
        W = Q[:, sv > 1e-7 * max(sv[0], 1e-300)]
        rank = W.shape[1]
        if rank > sim.n - sim.k:
            raise Violation("sub-space", f"{rank} random directions, {sim.n}-{sim.k}")
        if rank < sim.n - sim.k:
            return  # too few distinct directions (Rademacher) to know the sub-space
        if sv[sim.n - sim.k - 1] < 1e-3 * sv[0]:
            return
    else:
        W = numpy.zeros((sim.n, 0))
        if numpy.abs(U).max() > 1e-9:
            raise Violation("sub-space", f"random part {U} next to a complete basis")
    ctx.probe("sub-space identified")
    P = numpy.eye(sim.n) - W @ W.T
    want = float((P * sim.A.T).sum())
    if not abs(consts[0] - want) <= max(sim.tol, 1e-9) * size * 100:
        raise Violation("exact-part", f"{consts[0]} instead of {want} (trace {trace})")
    if spec["stat"]:
        for dist in DISTS + [None]:
            V = [v for d, v, _ in sim.drawn if dist in (None, d)]
            if V and W.shape[1]:
                moments(f"Hutch++ {dist}", numpy.stack(V) @ W, None, ctx)


def shrink(spec):
    yield from sh.drop_items(spec, "steps", keep=1)
    if "problem" in spec:
        yield from sh.sub(spec, "problem", problems.shrink_problem)
        yield from sh.plan(spec)
    else:
        if spec["n"] > 1:
            n = spec["n"] - 1
            yield {**spec, "n": n, "rank": min(spec["rank"], n)}
        if spec["rank"] > 1:
            yield {**spec, "rank": spec["rank"] - 1}
        for key in ("f32", "symmetric"):
            if spec[key]:
                yield {**spec, key: False}
        if spec["scale"] != 1.0:
            yield {**spec, "scale": 1.0}
    if (spec.get("basis_dim") or 1) > 1:
        yield {**spec, "basis_dim": spec["basis_dim"] - 1}

    def step(s):
        if s.get("count", 1) > 1:
            yield {**s, "count": 1}
            yield {**s, "count": s["count"] // 2}
        if s.get("fault") and s["fault"]["n"]:
            yield {**s, "fault": {**s["fault"], "n": s["fault"]["n"] - 1}}

    yield from sh.each_item(spec, "steps", step)
