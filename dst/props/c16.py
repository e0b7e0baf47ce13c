"""C16: an operator is one fixed linear map in every format, for its whole life."""

import copy

import numpy
import torch

from dst import faults, ops, problems, shrink as sh
from dst.core import Ctx, InvalidSpec, Violation, chain_injected, sub_seed, weighted
from dst.history import (
    Missing,
    Universe,
    clone,
    gen_kinds,
    gen_step,
    gen_universe,
    invalid_input,
    shrink_ops,
    shrink_universe,
)

ID = "C16"
LEVEL = "fault_enumeration"
RUNS = {"quick": 5000, "thorough": 150000}
TECHNIQUE = (
    "seeded search over histories of products in all formats, adjoints, exports taken "
    "earlier, gradients, rejected inputs and failures injected at loader, model and loss, "
    "each product compared with the dense matrix the operator showed before"
)
NOTE = (
    "Sampled, not exhaustive. Data are delivered the same way in every traversal (the "
    "delivery-independence of the maps is decided by C01-C04)."
)
RULE = (
    "One run = 1-2 operators (Hessian, block Hessian, GGN, empirical/MC Fisher, Jacobian "
    "and transpose, KFAC and inverse, activation Hessian) on one world x a history of "
    "4-14 uses. Non-trivial: a later product was compared with the operator's matrix."
)
COMPONENTS = {
    "real": ["all curvature linear operators", "PyTorchLinearOperator", "scipy export"],
    "stub": ["data loader: SimStream", "networks: generated torch modules"],
}
ASSUMPTIONS = ["dense linear algebra in double precision"]

SELF_ADJOINT = ("hess", "hessb", "ggn", "ef", "fmc", "kfac", "kfacinv", "acth")
PSD = ("ggn", "ef", "fmc", "kfac", "kfacinv")
HOW = (
    "long", "short", "rank0", "rank3", "list-len", "list-shape", "list-cols", "type",
    "ndarray", "tuple", "none", "empty", "mixed", "flat-in-list", "transposed", "nested",
    "list-turned", "list-turned", "list-flat",
)
INPUTS = {"rand": 6, "scaled": 2, "zero": 1, "hot": 2, "tiny": 1, "repeat": 1, "eye": 0.5}
ARRAYS = ("f64", "f64", "f32", "int", "complex", "c64", "f16")
DT = {
    "f64": numpy.float64,
    "f32": numpy.float32,
    "f16": numpy.float16,
    "int": numpy.int64,
    "complex": numpy.complex128,
    "c64": numpy.complex64,
}


def bad_input(w, ins, how):
    dim = sum(ops.numel(s) for s in ins)
    z = lambda *s: torch.zeros(torch.Size(s), dtype=w.dtype)  # noqa: E731
    good = [z(*s) for s in ins]
    if how == "ndarray":
        return numpy.zeros(dim)
    if how == "tuple":
        return tuple(good)
    if how == "none":
        return None
    if how == "empty":
        return []
    if how == "mixed":
        if len(ins) < 2:
            return [good[0], z(*ins[0], 1)]
        return [z(*ins[0], 1)] + good[1:]
    if how == "flat-in-list":
        return [z(dim + 1)] if len(ins) == 1 else [z(dim)]
    if how == "transposed":
        return z(dim + 1, dim)
    if how == "nested":
        return [good]
    return invalid_input(w, ins, how)


def gen(rng, tier):
    spec = gen_universe(rng, max_steps=2, checks=0.1)
    kinds = [o["kind"] for o in spec["ops"]]
    steps = [s for s in spec["steps"] if s["do"] == "new"][: len(kinds)]
    for _ in range(rng.randint(3, 10 if tier == "quick" else 20)):
        i = rng.randrange(len(kinds))
        k = kinds[i]
        table = {
            "mul": 6, "smul": 4, "export": 1.5, "grad": 1, "prop": 0, "invalid": 1.5,
            "new": 0.4, "take": 1, "tmul": 1.5,
        }
        if k.startswith("kfac"):
            table["prop"] = 1
        if k in ("jac", "jact", "kfacinv"):
            table.pop("grad")
        do = weighted(rng, table)
        s = {"do": do, "op": i, "s": rng.randrange(1000)}
        if do == "new":
            s["check"] = rng.random() < 0.1
        elif do in ("mul", "tmul"):
            s["fmt"], s["k"] = ops.gen_format(rng, scipy=False)
            s["x"] = weighted(rng, INPUTS)
            s["layout"] = rng.choice([0, 0, 1, 2])
            if do == "mul":
                s["adj"] = rng.random() < 0.3
                if rng.random() < 0.05:
                    s["grad"] = True
        elif do == "smul":
            s["how"] = rng.choice(
                ["@", "@", "matvec", "matmat", "dot", "rmatvec", "rmatmat", "H", "T", "HH"]
            )
            s["k"] = rng.choice([0, 0, 1, 2, 3])
            s["x"] = weighted(rng, INPUTS)
            s["arr"] = rng.choice(ARRAYS)
            s["layout"] = rng.choice(["C", "F", "strided", "rev", "readonly"])
            s["which"] = rng.randrange(4)
        elif do == "export":
            s["dtype"] = rng.choice([None, None, "f64", "f32"])
            s["adj"] = rng.random() < 0.2
        elif do == "prop":
            s["name"] = rng.choice(["trace", "det", "logdet", "frobenius_norm"])
        elif do == "invalid":
            s["how"] = rng.choice(HOW)
            s["adj"] = rng.random() < 0.3
        if do in ("mul", "grad", "smul", "prop") and rng.random() < 0.12:
            s["fault"] = {
                "site": weighted(
                    rng, {"iter": 1, "batch": 4, "end": 2, "forward": 3, "loss": 2, "op": 4}
                ),
                "n": rng.choice([0, 0, 1, 1, 2, 3]),
                "exc": rng.choice(["runtime", "os", "memory", "value", "interrupt", "oom"]),
            }
            if s["fault"]["site"] == "op":
                s["fault"]["n"] = rng.randrange(200)
        steps.append(s)
    spec["steps"] = steps
    spec["scribble"] = rng.random() < 0.7
    return spec


class Sim:
    def __init__(self, spec, ctx):
        self.spec, self.ctx = spec, ctx
        self.u = Universe(spec, ctx)
        self.w = self.u.world
        n = len(spec["ops"])
        self.M = [None] * n  # the map of each operator, once known
        self.gradient = [None] * n
        self.exports = [[] for _ in range(n)]
        self.adjoints = [None] * n
        self.compared = 0
        f32 = self.w.dtype == torch.float32
        self.tol = 5e-3 if f32 else 1e-7
        self.raw = []

    def dims(self, i):
        ins, outs = self.u.spaces(i)
        return sum(map(ops.numel, outs)), sum(map(ops.numel, ins))

    def values(self, s, rows, k):
        """The float64 matrix to multiply with, and the scale of each column."""
        x = s.get("x", "rand")
        V = self.w.matrix(rows, k, s["s"])
        if x == "scaled":
            scale = torch.tensor([10.0 ** ((j + s["s"]) % 5 - 2) for j in range(k)])
            V = V * scale.to(torch.float64)
        elif x == "zero":
            V[:, s["s"] % k] = 0.0
        elif x == "hot":
            V = torch.zeros(rows, k, dtype=torch.float64)
            for j in range(k):
                V[(s["s"] + 3 * j) % rows, j] = 1.0
        elif x == "tiny":
            V = V * 1e-8
        elif x == "repeat":
            V = V[:, :1].expand(rows, k).clone()
        elif x == "eye" and k > 1:
            V = torch.eye(rows, k, dtype=torch.float64)
        return V.to(self.w.dtype).to(torch.float64)

    def establish(self, i):
        """The dense matrix of operator ``i`` from the products with the unit vectors."""
        u, w = self.u, self.w
        op = u.get(i)
        m, n = self.dims(i)
        ins, outs = u.spaces(i)
        if tuple(op.shape) != (m, n):
            raise Violation("shape", f"{u.kind(i)}: {tuple(op.shape)}, expected {(m, n)}")
        I = torch.eye(n, dtype=torch.float64)  # noqa: E741
        R = op @ ops.pack(w, I, ins, "mat")
        M = ops.unpack(w, R, outs, "mat", n, "matrix")
        if not bool(torch.isfinite(M).all()):
            raise InvalidSpec("non-finite matrix")
        if self.M[i] is not None:
            self.compare(M, self.M[i], self.M[i].norm(), f"{u.kind(i)} matrix, later")
            return
        self.M[i] = M
        kind, norm = u.kind(i), float(M.norm())
        tol = self.tol * max(norm, 1e-9)
        if kind in SELF_ADJOINT:
            self.ctx.checked()
            d = float((M - M.T).norm())
            if d > tol:
                raise Violation("asymmetric", f"{kind}: |M - M.T| = {d:.3e}, |M| {norm:.3e}")
        if kind in PSD and not (kind == "ggn" and w.spec.get("variant") == "cauchy"):
            self.ctx.checked()
            low = float(torch.linalg.eigvalsh((M + M.T) / 2)[0])
            if low < -tol:
                raise Violation("indefinite", f"{kind}: eigenvalue {low:.3e}, |M| {norm:.3e}")

    def compare(self, got, want, scale, what, tol=None):
        """Column-wise comparison relative to |M| |v|."""
        self.ctx.checked()
        tol = tol or self.tol
        if got.shape != want.shape:
            raise Violation("format", f"{what}: {tuple(got.shape)} vs {tuple(want.shape)}")
        d = (got - want).norm(dim=0)
        bound = tol * (scale if torch.is_tensor(scale) else torch.tensor(scale)) + 1e-12
        if not bool((d <= bound).all()):
            raise Violation(
                "wrong-product",
                f"{what}: |diff| per column {d.tolist()}, |want| {want.norm(dim=0).tolist()}"
                f" allowed {bound.tolist()}",
            )
        self.compared += 1

    def expect(self, i, adj, V):
        M = self.M[i].T if adj else self.M[i]
        return M @ V, M.norm() * V.norm(dim=0)

    # -- steps -----------------------------------------------------------------
    def step(self, s):
        u, w, i, do = self.u, self.w, s["op"], s["do"]
        if do == "new":
            u.do({"do": "new", "op": i, "check": s.get("check", False)})
            self.exports[i], self.adjoints[i] = [], None
            if u.kind(i) == "kfac":  # the inverse belongs to the replaced operator
                for j, o in enumerate(self.spec["ops"]):
                    if o.get("of") == i:
                        u.slots[j] = None
                        self.exports[j], self.adjoints[j] = [], None
            return
        op = u.get(i)
        kind = u.kind(i)
        if self.M[i] is None:
            self.establish(i)
        if do == "grad":
            v = u.do({"do": "grad", "op": i})
            old = self.gradient[i]
            if old is not None:
                for key, t in v.items():
                    self.compare(
                        t.reshape(-1, 1),
                        old[key].reshape(-1, 1),
                        old[key].norm() + 1e-3,
                        f"{kind} {key}, repeated",
                    )
            else:
                self.gradient[i] = clone_dict(v)
            self.raw = u.results
            return
        if do == "prop":
            u.do({"do": "prop", "op": i, "name": s["name"]})
            return
        if do == "export":
            target = op.adjoint() if s.get("adj") else op
            dt = s.get("dtype")
            e = target.to_scipy(dtype=None if dt is None else DT[dt])
            shape = self.dims(i)[::-1] if s.get("adj") else self.dims(i)
            if tuple(e.shape) != tuple(shape):
                raise Violation("shape", f"{kind} export: {tuple(e.shape)}, not {shape}")
            want = numpy.dtype(numpy.float64 if dt is None else DT[dt])
            if e.dtype != want:
                raise Violation("format", f"{kind} export: dtype {e.dtype}, not {want}")
            self.exports[i].append((e, bool(s.get("adj"))))
            return
        if do == "take":
            self.adjoints[i] = op.adjoint()
            return
        if do == "invalid":
            adj = s.get("adj")
            ins = u.spaces(i)[1 if adj else 0]
            X = bad_input(w, ins, s["how"])
            target = op.adjoint() if adj else op
            try:
                target @ X
            except ValueError:
                self.ctx.checked()
                return
            except Exception as e:
                raise Violation(
                    "invalid-error", f"{kind}: {s['how']} raised {type(e).__name__}: {e}"
                )
            raise Violation("invalid-accepted", f"{kind}: {s['how']} input accepted")
        if do in ("mul", "tmul"):
            adj = bool(s.get("adj"))
            target = op.adjoint() if adj else op
            if do == "tmul":
                if self.adjoints[i] is None:
                    raise Missing()
                target, adj = self.adjoints[i], True
            ins, outs = u.spaces(i)
            if adj:
                ins, outs = outs, ins
            V = self.values(s, sum(map(ops.numel, ins)), s["k"])
            X = ops.pack(w, V, ins, s["fmt"], s.get("layout", 0))
            if s.get("grad"):
                for x in X if isinstance(X, list) else [X]:
                    x.requires_grad_()
            before = clone(X)
            R = target @ X
            what = f"{kind}{' adjoint' if adj else ''} ({s['fmt']}, {s.get('x')})"
            if s.get("grad"):
                R = [r.detach() for r in R] if isinstance(R, list) else R.detach()
            got = ops.unpack(w, R, outs, s["fmt"], s["k"], what)
            self.same_input(X, before, what)
            self.compare(got, *self.expect(i, adj, V), what)
            self.raw = R if isinstance(R, list) else [R]
            return
        if do == "smul":
            self.smul(s, i, op, kind)
            return
        raise InvalidSpec(do)

    def smul(self, s, i, op, kind):
        taken = self.exports[i]
        if taken and s["which"] < 3:
            e, swapped = taken[s["which"] % len(taken)]
            self.ctx.probe("export-taken-earlier")
        else:
            e, swapped = op.to_scipy(), False
        how = s["how"]
        adj = (how in ("rmatvec", "rmatmat", "H", "T")) != swapped
        rows = self.dims(i)[0 if adj else 1]
        k = s["k"]
        if how in ("matmat", "rmatmat"):
            k = max(k, 1)
        if how in ("matvec", "rmatvec"):
            k = min(k, 1)
        V = self.values(s, rows, max(k, 1)).numpy()
        if s["arr"] == "int":
            V = numpy.round(3 * V)
        elif s["arr"] in ("complex", "c64"):
            V = V + 1j * self.values({**s, "s": s["s"] + 1000}, rows, max(k, 1)).numpy()
        if s["arr"] == "f16" and s.get("x") not in ("hot", "repeat", "rand"):
            raise Missing()
        X = V.astype(DT[s["arr"]])
        V = X.astype(numpy.complex128 if numpy.iscomplexobj(X) else numpy.float64)
        if k == 0:
            X = X[:, 0]
        X = layout(X, s["layout"])
        before = X.copy()
        if how in ("@", "dot"):
            R = e @ X if how == "@" else e.dot(X)
        elif how in ("matvec", "matmat", "rmatvec", "rmatmat"):
            R = getattr(e, how)(X)
        else:
            R = {"H": lambda: e.H, "T": lambda: e.T, "HH": lambda: e.H.H}[how]() @ X
        what = f"{kind} export {how} ({s['arr']}, k={k})"
        m = self.dims(i)[1 if adj else 0]
        shape = (m,) if k == 0 else (m, k)
        if not isinstance(R, numpy.ndarray) or R.shape != shape:
            raise Violation(
                "format", f"{what}: {type(R).__name__} {getattr(R, 'shape', '')}, not {shape}"
            )
        if s["arr"] != "int" and R.dtype != X.dtype:
            raise Violation("format", f"{what}: dtype {R.dtype}, not {X.dtype}")
        if s["arr"] == "int" and R.dtype.kind != "f":
            raise Violation("format", f"{what}: dtype {R.dtype} of a real product")
        if not numpy.array_equal(before, X):
            raise Violation("input-modified", what)
        tol = self.tol
        if s["arr"] == "f16":
            tol = 5e-3
            if not numpy.isfinite(R).all():
                raise Missing()
        elif s["arr"] in ("f32", "c64"):
            tol = max(tol, 1e-5)
        for part in ("real", "imag"):
            got, v = getattr(R, part), getattr(V, part)
            got = torch.from_numpy(numpy.array(got, dtype=numpy.float64)).reshape(m, -1)
            v = torch.from_numpy(numpy.array(v, dtype=numpy.float64))
            want, scale = self.expect(i, adj, v)
            if s["arr"] == "f16":  # subnormal numbers
                scale = scale + 1e-7 * m / tol
            self.compare(got, want, scale, f"{what} {part}", tol)
        self.raw = []

    def same_input(self, X, before, what):
        a = X if isinstance(X, list) else [X]
        b = before if isinstance(before, list) else [before]
        for x, y in zip(a, b):
            if x.shape != y.shape or not torch.equal(x.detach(), y):
                raise Violation("input-modified", what)


def clone_dict(d):
    return {k: v.clone() for k, v in d.items()}


def layout(X, how):
    if how == "F":
        return numpy.asfortranarray(X)
    if how == "strided":
        big = numpy.zeros((2 * X.shape[0],) + X.shape[1:], dtype=X.dtype)
        big[::2] = X
        return big[::2]
    if how == "rev":
        return X[::-1].copy()[::-1]
    X = X.copy()
    if how == "readonly":
        X.setflags(write=False)
    return X


def run(spec, ctx):
    sim = Sim(spec, ctx)
    u, w = sim.u, sim.w
    for s in spec["steps"]:
        ctx.ev("step", s["do"], s["op"])
        sim.raw = []
        f = s.get("fault")
        try:
            with ctx.lib(f"{s['do']} ({u.kind(s['op'])})", allow=(Missing, NotImplementedError)):
                if f is None:
                    sim.step(s)
                else:
                    if sim.M[s["op"]] is None and u.slots[s["op"]] is not None:
                        sim.establish(s["op"])
                    f2 = {"site": f["site"], "frac": 0.9999, "exc": f["exc"]}
                    faults.inject(w, ctx, f2, {f["site"]: f["n"] + 1}, lambda: sim.step(s))
        except Missing:
            ctx.ev("missing")
            continue
        except NotImplementedError as e:
            raise InvalidSpec(str(e))
        if spec.get("scribble"):
            # results belong to the caller
            with torch.no_grad():
                for t in sim.raw:
                    if isinstance(t, torch.Tensor) and t.is_floating_point():
                        t.fill_(float("nan"))
    for i, op in enumerate(u.slots):
        if op is not None:
            with ctx.lib(f"final matrix of {u.kind(i)}"):
                sim.establish(i)
    for i in range(len(u.slots)):
        for j in range(len(u.slots)):
            if (
                u.kind(i) == "jac"
                and u.kind(j) == "jact"
                and sim.M[i] is not None
                and sim.M[j] is not None
                and len(u.params(i)) == len(u.params(j))
                and all(p is q for p, q in zip(u.params(i), u.params(j)))
            ):
                sim.compare(sim.M[i].T, sim.M[j], sim.M[j].norm(), "transposed Jacobian")
    if sim.compared:
        ctx.probe("compared")


def nontrivial(spec, ctx):
    return ctx.counts["probe:compared"] > 0


def shrink_step(s):
    for key in ("layout", "grad", "adj", "fault", "check"):
        if s.get(key):
            yield {k: v for k, v in s.items() if k != key} if key != "layout" else {
                **s,
                "layout": "C" if s["do"] == "smul" else 0,
            }
    if s["do"] == "mul" and s["fmt"] != "vec":
        yield {**s, "fmt": "vec", "k": 1}
    if s.get("x") not in (None, "rand"):
        yield {**s, "x": "rand"}
    if s.get("arr") not in (None, "f64"):
        yield {**s, "arr": "f64"}
    if s.get("how") not in (None, "@") and s["do"] == "smul":
        yield {**s, "how": "@"}


def shrink(spec):
    yield from sh.drop_items(spec, "steps", keep=1)
    if spec.get("scribble"):
        yield {**spec, "scribble": False}
    yield from sh.sub(spec, "problem", problems.shrink_problem)
    yield from sh.each_item(spec, "steps", shrink_step)
    yield from sh.plan(spec)
    yield from sh.each_item(spec, "ops", shrink_ops)
