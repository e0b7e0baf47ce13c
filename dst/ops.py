"""Operators under test: construction and use through the public interface only."""

import numpy
import torch

from dst.core import InvalidSpec, Violation

KINDS = ("hess", "hessb", "ggn", "ef", "fmc", "jac", "jact", "kfac", "kfacinv")
FORMATS = ("vec", "mat", "lvec", "lmat", "svec", "smat")


def blocks_of(spec, n):
    """Normalise a list of positive numbers to block sizes that sum to ``n``."""
    raw = spec.get("blocks")
    if not raw:
        return None
    out, left = [], n
    for b in raw:
        if left == 0:
            break
        b = max(1, min(b, left))
        out.append(b)
        left -= b
    if left:
        out.append(left)
    return out


def params_of(world, ospec):
    """The operator's own parameter list: a sub-list of the world's if it says so."""
    sel = ospec.get("pick")
    if sel is None:
        return world.params
    n = len(world.params)
    picked = list(dict.fromkeys(i % n for i in sel)) or list(range(n))
    return [world.params[i] for i in picked]


def build(world, ospec, stream=None, check=False, params=None, num_data="spec"):
    """Construct the operator described by ``ospec`` on the world."""
    import curvlinops as C

    kind = ospec["kind"]
    data = world.stream if stream is None else stream
    params = params_of(world, ospec) if params is None else params
    kw = {"progressbar": bool(ospec.get("progressbar"))}
    if check is not None:  # None: the default of the operator
        kw["check_deterministic"] = check
    if ospec.get("num_data"):
        kw["num_data"] = world.N
    bsfn = world.batch_size_fn
    if bsfn is not None:
        kw["batch_size_fn"] = bsfn
    model, loss = world.model_func, world.loss
    if kind in ("hess", "hessb"):
        blocks = blocks_of(ospec, len(params)) if kind == "hessb" else None
        return C.HessianLinearOperator(
            model, loss, params, data, block_sizes=blocks, **kw
        )
    if kind == "ggn":
        return C.GGNLinearOperator(model, loss, params, data, **kw)
    if kind == "ef":
        return C.EFLinearOperator(model, loss, params, data, **kw)
    if kind == "fmc":
        return C.FisherMCLinearOperator(
            model,
            loss,
            params,
            data,
            seed=ospec.get("seed", 1),
            mc_samples=ospec.get("mc", 1),
            **kw,
        )
    if kind == "jac":
        return C.JacobianLinearOperator(model, params, data, **kw)
    if kind == "jact":
        return C.TransposedJacobianLinearOperator(model, params, data, **kw)
    if kind in ("kfac", "kfacinv"):
        if ospec.get("terms"):
            kw["num_per_example_loss_terms"] = loss_terms(world)
        ft = ospec.get("fisher", "type-2")
        K = C.KFACLinearOperator(
            world.model,
            loss,
            params,
            data,
            seed=ospec.get("seed", 1),
            fisher_type=ft,
            mc_samples=ospec.get("mc", 1) if ft == "mc" else 1,
            kfac_approx=ospec.get("approx", "expand"),
            separate_weight_and_bias=ospec.get("separate", True),
            **kw,
        )
        if kind == "kfac":
            return K
        return build_inverse(K, ospec)
    raise InvalidSpec(kind)


def build_inverse(K, ospec):
    import curvlinops as C

    d = ospec.get("damping", 0.1)
    kw = {}
    for key in ("cache", "retry_double_precision"):
        if key in ospec:
            kw[key] = ospec[key]
    if "min_damping" in ospec:
        kw["min_damping"] = ospec["min_damping"]
    return C.KFACInverseLinearOperator(
        K,
        damping=tuple(d) if isinstance(d, list) else d,
        use_heuristic_damping=bool(ospec.get("heuristic")),
        use_exact_damping=bool(ospec.get("exact")),
        **kw,
    )


def loss_terms(world):
    """Loss terms per datum, from their definition."""
    if world.spec["loss"] == "ce":
        return int(world.y[0].numel())
    return int(world.y.shape[1:-1].numel())


def out_space(world, kind, params=None):
    if kind == "jac":
        return [world.out_shape]
    return [tuple(p.shape) for p in (world.params if params is None else params)]


def in_space(world, kind, params=None):
    if kind == "jact":
        return [world.out_shape]
    return [tuple(p.shape) for p in (world.params if params is None else params)]


def numel(shape):
    n = 1
    for s in shape:
        n *= s
    return n


def pack(world, V, shapes, fmt, layout=0):
    """Write the float64 matrix ``V`` in the requested format.

    ``layout`` 1: non-contiguous memory; 2: a view into a larger buffer.
    """
    K = V.shape[1]
    if fmt in ("vec", "lvec", "svec") and K != 1:
        raise InvalidSpec("vector format")

    def mem(t):
        if layout == 1 and t.ndim > 1:
            return t.transpose(0, -1).contiguous().transpose(0, -1)
        if layout == 1:
            return torch.stack([t, t], -1)[..., 0]
        if layout == 2:
            big = torch.zeros((2,) + tuple(t.shape), dtype=t.dtype)
            big[1] = t
            return big[1]
        return t

    V = V.to(world.dtype)
    if fmt == "vec":
        return mem(V[:, 0].clone())
    if fmt == "mat":
        return mem(V.clone())
    if fmt in ("svec", "smat"):
        a = V.numpy().copy()
        a = a[:, 0] if fmt == "svec" else a
        return numpy.asfortranarray(a) if layout == 1 and fmt == "smat" else a
    parts = V.split([numel(s) for s in shapes])
    if fmt == "lvec":
        return [mem(p[:, 0].reshape(s).clone()) for p, s in zip(parts, shapes)]
    if fmt == "lmat":
        return [mem(p.reshape(tuple(s) + (K,)).clone()) for p, s in zip(parts, shapes)]
    raise InvalidSpec(fmt)


def unpack(world, R, shapes, fmt, K, what="product", dtype=None):
    """Read a result back as float64 matrix, insisting on the documented format."""
    dim = sum(numel(s) for s in shapes)
    dtype = dtype or world.dtype

    def bad(msg):
        raise Violation("format", f"{what} ({fmt}): {msg}")

    def tensor(t, shape):
        if not isinstance(t, torch.Tensor):
            bad(f"expected a tensor, got {type(t).__name__}")
        if tuple(t.shape) != tuple(shape):
            bad(f"expected shape {tuple(shape)}, got {tuple(t.shape)}")
        if t.dtype != dtype:
            bad(f"expected {dtype}, got {t.dtype}")
        if t.requires_grad:
            bad("result requires gradients")
        return t.detach().to(torch.float64)

    if fmt in ("svec", "smat"):
        shape = (dim,) if fmt == "svec" else (dim, K)
        if not isinstance(R, numpy.ndarray) or R.shape != shape:
            bad(f"expected array {shape}, got {type(R).__name__} {getattr(R, 'shape', None)}")
        return torch.from_numpy(numpy.array(R, dtype=numpy.float64)).reshape(dim, -1)
    if fmt == "vec":
        return tensor(R, (dim,)).reshape(dim, 1)
    if fmt == "mat":
        return tensor(R, (dim, K))
    if not isinstance(R, list):
        bad(f"expected a list, got {type(R).__name__}")
    if len(R) != len(shapes):
        bad(f"expected {len(shapes)} tensors, got {len(R)}")
    if fmt == "lvec":
        return torch.cat([tensor(r, s).reshape(-1) for r, s in zip(R, shapes)])[:, None]
    return torch.cat(
        [tensor(r, tuple(s) + (K,)).reshape(-1, K) for r, s in zip(R, shapes)]
    )


def apply(world, op, kind, V, fmt, layout=0, keep=None, what="product"):
    """Multiply, check the format, return the result as float64 matrix.

    ``keep``: list that receives the packed input (to examine it afterwards).
    """
    ins, outs = in_space(world, kind), out_space(world, kind)
    X = pack(world, V, ins, fmt, layout)
    if keep is not None:
        keep.append(X)
    if fmt in ("svec", "smat"):
        R = op.to_scipy() @ X
    else:
        R = op @ X
    return unpack(world, R, outs, fmt, V.shape[1], what)


def gen_format(rng, scipy=True):
    f = rng.choice(["vec", "mat", "mat", "lvec", "lmat"] + (["svec", "smat"] * scipy))
    k = 1 if f in ("vec", "lvec", "svec") else rng.choice([1, 2, 2, 3, 4])
    if k > 1 and rng.random() < 0.06:  # wide matrices
        k = rng.choice([9, 17, 33, 40, 65, 9, 17, 33, 40, 65, 129])
    return f, k
