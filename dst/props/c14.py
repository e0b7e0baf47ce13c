"""C14: a submatrix operator always shows the last accepted index sets."""

import warnings

import numpy
import torch

from dst import ops, problems, shrink as sh
from dst.core import Violation, chain_injected, weighted
from dst.simop import SimOp, rand
from dst.stream import gen_cuts

ID = "C14"
LEVEL = "fault_enumeration"
RUNS = {"quick": 25000, "thorough": 800000}
TECHNIQUE = (
    "seeded search over histories of accepted and rejected updates, products in all "
    "formats, adjoints and failing products on several views of one operator, compared "
    "with a dense reference model that holds the last accepted index sets"
)
NOTE = "Sampled, not exhaustive; operators of 1-8 rows and columns."
RULE = (
    "One run = 1-3 submatrix operators over one underlying operator (dense of several data "
    "types, a curvature matrix or another submatrix) x a history of 4-14 steps. "
    "Non-trivial: a product was compared."
)
COMPONENTS = {
    "real": [
        "SubmatrixLinearOperator",
        "scipy LinearOperator",
        "GGN, Hessian, Jacobian operators and their SciPy export (part of the runs)",
    ],
    "stub": ["the underlying operator is wrapped in SimOp (injects failures)"],
}
ASSUMPTIONS = ["dense linear algebra in double precision"]

BAD = ["dup", "high", "neg", "float", "str", "none", "list"]


def gen_idx(rng, n):
    k = rng.choice([1, n, rng.randint(1, n), rng.randint(1, n), 0])
    idx = rng.sample(range(n), min(k, n))
    if rng.random() < 0.2:
        idx.sort()
    return idx


def gen(rng, tier):
    spec = {"s": rng.randrange(10**6)}
    if rng.random() < 0.08:
        spec["problem"] = problems.gen_problem(
            rng, n_max=4, big=0, f32=0, max_D=20, tiny=True
        )
        spec["plan"] = [{"cuts": gen_cuts(rng, 4), "order": None}]
        spec["op"] = rng.choice(["ggn", "hess", "jac", "ef"])
        m = n = 20  # indices are taken modulo the dimensions
    else:
        top = 8 if rng.random() < 0.95 else rng.choice([20, 40, 150])
        m, n = rng.randint(1, top), rng.randint(1, top)
        spec["shape"] = [m, n]
        spec["dtype"] = rng.choice(["f64", "f64", "f64", "f32", "int", "complex"])
    spec["nested"] = rng.random() < 0.15
    if spec["nested"]:
        spec["outer"] = [gen_idx(rng, m) or [0], gen_idx(rng, n) or [0]]
    views = rng.choice([1, 1, 2, 3])
    spec["views"] = [[gen_idx(rng, m), gen_idx(rng, n)] for _ in range(views)]
    steps = []
    for _ in range(rng.randint(3, 11 if tier == "quick" else 20)):
        do = weighted(
            rng,
            {"set": 3, "bad": 3, "prod": 5, "fault": 3, "take": 1.5, "drop": 0.5, "new": 1},
        )
        s = {"do": do, "view": rng.randrange(views), "s": rng.randrange(1000)}
        if do in ("set", "bad"):
            s["rows"], s["cols"] = gen_idx(rng, m), gen_idx(rng, n)
            s["as"] = rng.choice(["list", "list", "tuple", "mutated"])
        if do == "set" and rng.random() < 0.25:
            s["same"] = rng.choice(["rows", "cols", "both"])
        if do in ("bad", "new"):
            s["bad"] = rng.choice(BAD)
            s["side"] = rng.choice(["rows", "cols", "both"])
            s["at"] = rng.randrange(20)
        if do in ("prod", "fault"):
            s["how"] = rng.choice(
                ["@", "@", "@", "matvec", "rmatvec", "H", "H", "T", "old", "HH", "dot"]
            )
            s["k"] = rng.choice([0, 0, -1, 1, 2, 3] * 6 + [9, 17, 40])
            s["layout"] = rng.choice(["C", "F", "strided", "readonly", "rev"])
            s["x"] = rng.choice(["f64", "f64", "f64", "f32", "int", "complex"])
        if do == "fault":
            s["fault"] = {
                "n": rng.choice([0, 0, 1, 2]),
                "times": 1,
                "k": rng.choice(["raise", "raise", "nan"]),
                "exc": rng.choice(["runtime", "memory", "interrupt", "value", "os"]),
                "at": rng.randrange(100),
            }
        steps.append(s)
    spec["steps"] = steps
    return spec


DT = {"f64": numpy.float64, "f32": numpy.float32, "int": int, "complex": complex}


def array(shape, seed, dtype):
    x = rand(shape, seed)
    if dtype == "int":
        return numpy.round(3 * x).astype(int)
    if dtype == "complex":
        return x + 1j * rand(shape, seed + 10**6)
    return x.astype(DT[dtype])


class View:
    """A submatrix operator and what it has to represent."""

    def __init__(self, op, rows, cols):
        self.op, self.rows, self.cols = op, rows, cols


class Sim:
    def __init__(self, spec, ctx):
        self.spec, self.ctx = spec, ctx
        inner = None
        self.tol = 1e-10
        self.real = "problem" in spec
        if self.real:
            w = problems.World(spec["problem"], ctx, spec["plan"])
            op = ops.build(w, {"kind": spec["op"]})
            K = numpy.prod(op.shape[1:])
            with ctx.lib("product"):
                A = ops.apply(
                    w, op, spec["op"], torch.eye(int(K), dtype=torch.float64), "mat"
                ).numpy()
                inner = op.to_scipy()
            self.tol = 1e-8
        else:
            A = array(spec["shape"], spec["s"], spec["dtype"])
            if spec["dtype"] == "f32":
                self.tol = 1e-4
        from curvlinops import SubmatrixLinearOperator

        self.cls = SubmatrixLinearOperator
        self.base = self.top = SimOp(A, ctx, inner)
        self.A = A
        if spec["nested"]:
            rows, cols = [self.mod(i, ax) for ax, i in enumerate(spec["outer"])]
            with ctx.lib("outer"):
                self.top = self.cls(self.base, rows, cols)
            self.A = A[rows][:, cols]
        with ctx.lib("construction"):
            self.views = []
            for r, c in spec["views"]:
                r, c = self.mod(r, 0), self.mod(c, 1)
                self.views.append(View(self.cls(self.top, r, c), list(r), list(c)))
        self.old = []  # adjoints taken earlier with the matrix they represent

    def mod(self, idx, ax):
        out = []
        for i in idx:
            i %= self.A.shape[ax]
            if i not in out:
                out.append(i)
        return out

    def dense(self, v):
        return self.A[v.rows][:, v.cols]


def spoil(idx, n, s):
    """An invalid version of an index list."""
    bad = s["bad"]
    idx = list(idx)
    at = s["at"] % (len(idx) + 1)
    item = {
        "high": n + s["at"] % 3,
        "neg": -1 - s["at"] % 2,
        "float": 0.0 if s["at"] % 2 else 0.5,
        "str": "0",
        "none": None,
        "list": [0],
        "dup": None,
    }[bad]
    if bad == "dup":
        if not idx:
            return [0, 0]
        idx.insert(at, idx[s["at"] % len(idx)])
        return idx
    return idx[:at] + [item] + idx[at:]


def vector(sim, s, n):
    k = s["k"]
    shape = (n,) if k == 0 else (n, 1) if k == -1 else (n, k)
    x = s["x"]
    if x == "complex" and sim.real:
        x = "f64"
    b = array(shape, s["s"], x)
    layout = s["layout"]
    if layout == "F":
        b = numpy.asfortranarray(b)
    elif layout == "strided":
        big = numpy.zeros((2 * n,) + shape[1:], dtype=b.dtype)
        big[::2] = b
        b = big[::2]
    elif layout == "rev":
        b = numpy.array(b[::-1])[::-1]
    elif layout == "readonly":
        b.flags.writeable = False
    return b


def compare(sim, got, want, x, what, kind="product"):
    sim.ctx.checked()
    if not isinstance(got, numpy.ndarray) or got.shape != want.shape:
        raise Violation(
            "format", f"{what}: {type(got)} {getattr(got, 'shape', None)} {want.shape}"
        )
    tol = sim.tol
    if x is not None and x.dtype == numpy.float32:
        tol = max(tol, 1e-4)
    e = float(numpy.abs(got - want).max(initial=0.0))
    scale = 1.0 if x is None else max(float(numpy.abs(x).sum()), 1e-9)
    # a matrix of the library may be zero up to rounding errors
    size = scale * max(float(numpy.abs(sim.A).max()), 1e-3 if sim.real else 0.0)
    if not e <= tol * max(size, 1e-9):
        raise Violation(kind, f"{what}: got {got}, want {want}")


def target(sim, s):
    """``(function, matrix)`` of a product step."""
    v = sim.views[s["view"]]
    M = sim.dense(v)
    how = s["how"]
    if how == "old":
        if sim.old:
            op, M = sim.old[s["s"] % len(sim.old)]
            return (lambda x: op @ x), M
        how = "@"
    if how in ("matvec", "dot") and how == "matvec":
        return (
            lambda x: v.op.matvec(x)
            if x.ndim == 1 or x.shape[1] == 1
            else v.op.matmat(x)
        ), M
    if how == "dot":
        return (lambda x: v.op.dot(x)), M
    if how == "rmatvec":
        return (
            lambda x: v.op.rmatvec(x)
            if x.ndim == 1 or x.shape[1] == 1
            else v.op.rmatmat(x)
        ), M.conj().T
    if how == "H":
        return (lambda x: v.op.H @ x), M.conj().T
    if how == "HH":
        return (lambda x: v.op.adjoint().adjoint() @ x), M
    if how == "T":
        return (lambda x: v.op.T @ x), M.T
    return (lambda x: v.op @ x), M


def run(spec, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with numpy.errstate(all="ignore"):
            simulate(spec, ctx)


def simulate(spec, ctx):
    sim = Sim(spec, ctx)
    for j, s in enumerate(spec["steps"]):
        what = f"step {j} {s}"
        ctx.ev("step", j, s["do"], s["view"])
        step(sim, s, what)
        for i, v in enumerate(sim.views):
            if tuple(v.op.shape) != (len(v.rows), len(v.cols)):
                raise Violation("shape", f"after {what}: view {i} has {v.op.shape}")
    for i, v in enumerate(sim.views):
        eye = numpy.eye(len(v.cols))
        if len(v.cols) == 0:
            continue
        with ctx.lib("final product"):
            got = v.op @ eye
        compare(sim, got, sim.dense(v) @ eye, None, f"final view {i}")
    for i, (op, M) in enumerate(sim.old):
        if M.shape[1] == 0:
            continue
        with ctx.lib("final product"):
            got = op @ numpy.eye(M.shape[1])
        compare(sim, got, M, None, f"final adjoint {i}", "stale-adjoint")


def step(sim, s, what):
    ctx = sim.ctx
    v = sim.views[s["view"]]
    do = s["do"]
    if do == "take":
        with ctx.lib(what):
            sim.old.append((v.op.adjoint(), sim.dense(v).conj().T))
        return
    if do == "drop":
        if sim.old:
            del sim.old[s["s"] % len(sim.old)]
        return
    if do in ("set", "bad"):
        rows, cols = sim.mod(s["rows"], 0), sim.mod(s["cols"], 1)
        if s.get("same") in ("rows", "both"):
            rows = list(v.rows)
        if s.get("same") in ("cols", "both"):
            cols = list(v.cols)
        if do == "bad":
            if s["side"] in ("rows", "both"):
                rows = spoil(rows, sim.A.shape[0], s)
            if s["side"] in ("cols", "both"):
                cols = spoil(cols, sim.A.shape[1], s)
        r, c = (tuple(rows), tuple(cols)) if s["as"] == "tuple" else (rows, cols)
        if do == "bad":
            rejects(lambda: v.op.set_submatrix(r, c), what)
            ctx.probe("rejected update")
        else:
            with ctx.lib(what):
                v.op.set_submatrix(r, c)
            v.rows, v.cols = list(rows), list(cols)
        if s["as"] == "mutated":
            # the caller's lists change after the call
            for x in (r, c):
                if isinstance(x, list) and len(x) > 1:
                    x.reverse()
                    x.pop()
            ctx.probe("caller mutated its lists")
        return
    if do == "new":
        rows, cols = list(v.rows), list(v.cols)
        if s["side"] in ("rows", "both"):
            rows = spoil(rows, sim.A.shape[0], s)
        if s["side"] in ("cols", "both"):
            cols = spoil(cols, sim.A.shape[1], s)
        rejects(lambda: sim.cls(sim.top, rows, cols), what)
        return
    f, M = target(sim, s)
    x = vector(sim, s, M.shape[1])
    keep = x.copy()
    sim.base.arm(s.get("fault"))
    exc = got = None
    try:
        got = f(x)
    except BaseException as e:
        exc = e
    fired = sim.base.fired
    sim.base.arm(None)
    if not numpy.array_equal(x, keep):
        raise Violation("input-modified", what)
    if exc is not None:
        if not fired or s["fault"]["k"] != "raise":
            raise Violation("failed", f"{what}: {exc!r}") from exc
        if chain_injected(exc) is None:
            raise Violation("exception-replaced", f"{what}: {exc!r}") from exc
        ctx.probe("failed product")
        return
    if fired:
        if s["fault"]["k"] == "raise":
            raise Violation("exception-swallowed", what)
        ctx.probe("corrupted product")
        return
    compare(sim, got, M @ x, x, what)


def rejects(f, what):
    try:
        f()
    except ValueError:
        return
    except BaseException as e:
        raise Violation("rejection", f"{what}: {e!r}") from e
    raise Violation("rejection", f"{what}: accepted")


def shrink(spec):
    yield from sh.drop_items(spec, "steps", keep=0)
    if len(spec["views"]) > 1:
        for i in range(len(spec["views"])):
            yield {
                **spec,
                "views": [spec["views"][i]],
                "steps": [
                    {**s, "view": 0} for s in spec["steps"] if s["view"] == i
                ],
            }
    if spec["nested"]:
        yield {**{k: v for k, v in spec.items() if k != "outer"}, "nested": False}
    if "problem" in spec:
        yield from sh.sub(spec, "problem", problems.shrink_problem)
        yield from sh.plan(spec)
    else:
        m, n = spec["shape"]
        if m > 1:
            yield {**spec, "shape": [m - 1, n]}
        if n > 1:
            yield {**spec, "shape": [m, n - 1]}
        if spec["dtype"] != "f64":
            yield {**spec, "dtype": "f64"}

    def one(s):
        for key, v in {
            "k": 0, "layout": "C", "x": "f64", "how": "@", "as": "list", "side": "rows"
        }.items():
            if key in s and s[key] != v:
                yield {**s, key: v}
        for key in ("rows", "cols"):
            if len(s.get(key, [])) > 1:
                yield {**s, key: s[key][1:]}
                yield {**s, key: s[key][:-1]}

    yield from sh.each_item(spec, "steps", one)
