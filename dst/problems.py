"""Swarm of small learning problems: networks, losses, data, parameter selections.

A problem specification is plain JSON; `World` builds it deterministically.
"""

import copy

import torch
from torch import nn

from dst.core import InvalidSpec, sub_rng, sub_seed, weighted
from dst.stream import SimLoader, SimStream

DTYPES = {"f64": torch.float64, "f32": torch.float32}
ACTS = {
    "tanh": lambda: nn.Tanh(),
    "sigmoid": lambda: nn.Sigmoid(),
    "relu": lambda: nn.ReLU(),
    "relu_": lambda: nn.ReLU(inplace=True),
    "softplus": lambda: nn.Softplus(),
    "id": lambda: nn.Identity(),
}


class MeanTokens(nn.Module):
    """Average over all dimensions between the batch and the feature dimension."""

    def forward(self, x):
        return x.flatten(1, -2).mean(1) if x.ndim > 2 else x


class MeanSpatial(nn.Module):
    def forward(self, x):
        return x.flatten(2).mean(-1)


class ClassSecond(nn.Module):
    """``batch ... c`` to ``batch c ...`` (the convention of the cross entropy)."""

    def forward(self, x):
        return x.movedim(-1, 1)


class ClassLast(nn.Module):
    def forward(self, x):
        return x.movedim(1, -1)


class SimModel(nn.Module):
    """The model seam: announces each forward pass, then runs the real network."""

    def __init__(self, net, from_dict):
        super().__init__()
        self.net = net
        self.from_dict = from_dict
        self.sim = None  # callback, set by the world

    def forward(self, x):
        if self.sim is not None:
            self.sim("forward")
        if self.from_dict:
            x = x["x"]
        out = self.net(x)
        if self.sim is not None:
            out = self.sim("output", out)
        return out

    def __deepcopy__(self, memo):
        new = SimModel(copy.deepcopy(self.net, memo), self.from_dict)
        new.training = self.training  # sub-modules keep their own modes
        return new


class Residual(nn.Module):
    """Skip connection around a block."""

    def __init__(self, *block):
        super().__init__()
        self.block = nn.Sequential(*block)

    def forward(self, x):
        return x + self.block(x)


class Fork(nn.Module):
    """A layer with several outputs, one of them a value per datum."""

    def forward(self, x):
        return torch.sin(x), x.flatten(start_dim=1).mean(1), 2.0 * x


class Join(nn.Module):
    """A layer with several inputs."""

    def forward(self, a, b, c):
        return (0.3 * a) * c + b.reshape((-1,) + (1,) * (c.ndim - 1)) * a


class Two(nn.Module):
    """Layers that pass on several tensors."""

    def __init__(self):
        super().__init__()
        self.fork, self.join = Fork(), Join()

    def forward(self, x):
        return self.join(*self.fork(x))


class Scale(nn.Module):
    """A parameter without dimensions, and one with three."""

    def __init__(self, dim, three):
        super().__init__()
        self.scale = nn.Parameter(torch.tensor(0.8))
        if three:
            self.gain = nn.Parameter(1 + 0.3 * torch.randn(1, dim, 2))

    def forward(self, x):
        if hasattr(self, "gain"):
            x = (x.unsqueeze(-1) * self.gain[0]).sum(-1)
        return self.scale * x


class PerDatum(nn.Module):
    """One output per datum, without a dimension of its own."""

    def forward(self, x):
        if x[0].numel() != 1:
            raise InvalidSpec("several outputs per datum")
        return x.flatten()


class Twice(nn.Module):
    """A layer that is applied twice: its parameters are shared."""

    def __init__(self, layer):
        super().__init__()
        self.layer = layer

    def forward(self, x):
        return self.layer(torch.tanh(self.layer(x)))


def fixed_mode(net):
    """Put layers whose training mode is random or has state into evaluation mode."""
    for m in net.modules():
        if isinstance(m, FIXED_MODE):
            m.eval()


FIXED_MODE = (nn.Dropout, nn.BatchNorm1d, nn.BatchNorm2d)


def batch_norm(cls, n):
    m = cls(n)
    with torch.no_grad():
        m.running_mean.normal_()
        m.running_var.uniform_(0.5, 2.0)
        m.weight.uniform_(0.5, 1.5)
        m.bias.normal_()
    return m


def _linear_stack(a, mods):
    """Layers of the fully-connected part."""
    dims, bias = a["dims"], a.get("bias", [])
    acts = a.get("acts", [])
    for i, (din, dout) in enumerate(zip(dims[:-1], dims[1:])):
        b = bias[i % len(bias)] if bias else True
        lin = nn.Linear(din, dout, bias=b)
        last = i == len(dims) - 2
        if a.get("tie") == i and din == dout:
            lin = Twice(lin)
        block = [lin]
        if not last:
            block.append(ACTS[acts[i % len(acts)] if acts else "tanh"]())
            if a.get("norm") == i and dout > 2:  # fewer normalised values are constant
                block.append(nn.LayerNorm(dout))
            if a.get("bn") == i and not a.get("tokens"):
                block.append(batch_norm(nn.BatchNorm1d, dout))
            if a.get("drop") == i:
                block.append(nn.Dropout(0.5))
            if a.get("two") == i:
                block.append(Two())
            if a.get("scale") == i:
                block.append(Scale(dout, i % 2 == 0))
            if a.get("res") == i and din == dout:
                block = [Residual(*block)]
            if a.get("pool_after") == i:
                block.append(MeanTokens())
        mods.append(nn.Sequential(*block) if a.get("nest") and not last else block)
    return mods


def build_net(a):
    """Network and input shape of an architecture specification."""
    mods = []
    if a["kind"] == "mlp":
        shape = tuple(a.get("tokens", [])) + (a["dims"][0],)
        _linear_stack(a, mods)
        if a.get("pool_end"):
            mods.append(MeanTokens())
        if a.get("squeeze"):
            mods.append(PerDatum())
    elif a["kind"] == "conv":
        shape = (a["chans"][0], a["hw"][0], a["hw"][1])
        bias = a.get("bias", [True])
        for i, (cin, cout) in enumerate(zip(a["chans"][:-1], a["chans"][1:])):
            c = a["convs"][i]
            pad = c["pad"]
            if isinstance(pad, list):
                pad = tuple(pad)
            conv = nn.Conv2d(
                cin,
                cout,
                tuple(c["k"]),
                stride=tuple(c["stride"]),
                padding=pad,
                dilation=tuple(c["dil"]),
                groups=c["groups"],
                bias=bias[i % len(bias)],
            )
            mods += [conv, ACTS[a.get("act", "tanh")]()]
            if a.get("bn") == i:
                mods[-1:-1] = [batch_norm(nn.BatchNorm2d, cout)]
            if a.get("drop") == i:
                mods[-1:-1] = [nn.Dropout(0.5)]
        if a["head"] == "spatial":
            mods.pop()  # no activation on the output
            mods.append(ClassLast())
        else:
            if a["head"] == "gap":
                mods.append(MeanSpatial())
            else:
                mods.append(nn.Flatten())
            mods.append(("linear_head", a["out"], bias[-1]))
    else:
        raise InvalidSpec(a["kind"])

    flat = []
    for m in mods:
        flat += m if isinstance(m, list) else [m]
    if flat and isinstance(flat[-1], tuple):
        _, out, b = flat.pop()
        try:
            probe = nn.Sequential(*flat).eval()
            feat = probe(torch.zeros((1,) + shape)).shape[-1]
            probe.train()
        except RuntimeError as e:
            raise InvalidSpec(str(e))
        flat.append(nn.Linear(feat, out, bias=b))
    return nn.Sequential(*flat), shape


VECTOR_MODES = {
    "dense": 12,
    "unit": 2,
    "head": 1,
    "tail": 1,
    "window": 1,
    "holes": 1,
    "column": 0.5,
    "repeat": 0.5,
    "signs": 0.5,
    "ones": 0.5,
    "dependent": 0.5,
}

LOSSES = {
    "mse": nn.MSELoss,
    "ce": nn.CrossEntropyLoss,
    "bce": nn.BCEWithLogitsLoss,
}


class Cauchy(nn.Module):
    """A caller's own loss: ``log(1 + ||f - y||^2)`` of each term, not convex."""

    def __init__(self, reduction="mean"):
        super().__init__()
        self.reduction = reduction

    def forward(self, f, y):
        terms = torch.log1p(((f - y) ** 2).sum(-1))
        return terms.mean() if self.reduction == "mean" else terms.sum()


# variants of the three losses: other criteria on the same kind of labels, or options of
# the criteria; those that depend on the whole batch are averaged wrongly by any loader
# and only used with sums
VARIANTS = {
    "mse": ["huber", "smooth_l1", "poisson", "cauchy"],
    "ce": ["smoothing", "soft", "weight", "ignore"],
    "bce": ["pos_weight", "soft", "weight"],
}
SUM_ONLY = ("ce-weight", "ce-ignore")
EF_TOO = ("ce-smoothing", "ce-weight", "ce-ignore", "bce-pos_weight", "bce-soft", "bce-weight")


def build_loss(spec, C, seed):
    """The loss of a problem and its number of averaged entries per term."""
    kind, variant, red = spec["loss"], spec.get("variant"), spec["reduction"]
    name = f"{kind}-{variant}"
    if variant is None:
        return LOSSES[kind](reduction=red)
    if variant not in VARIANTS[kind] or (name in SUM_ONLY and red != "sum"):
        raise InvalidSpec(name)
    g = torch.Generator().manual_seed(sub_seed("loss", seed))
    w = torch.rand(C, generator=g, dtype=torch.float64) + 0.5
    if variant == "ignore":
        return nn.CrossEntropyLoss(reduction=red, ignore_index=0)
    return {
        "mse-huber": lambda: nn.HuberLoss(reduction=red, delta=0.7),
        "mse-smooth_l1": lambda: nn.SmoothL1Loss(reduction=red, beta=0.8),
        "mse-poisson": lambda: nn.PoissonNLLLoss(reduction=red),
        "mse-cauchy": lambda: Cauchy(reduction=red),
        "ce-smoothing": lambda: nn.CrossEntropyLoss(reduction=red, label_smoothing=0.2),
        "ce-soft": lambda: nn.CrossEntropyLoss(reduction=red),
        "ce-weight": lambda: nn.CrossEntropyLoss(reduction=red, weight=w),
        "bce-pos_weight": lambda: nn.BCEWithLogitsLoss(reduction=red, pos_weight=w),
        "bce-soft": lambda: nn.BCEWithLogitsLoss(reduction=red),
        "bce-weight": lambda: nn.BCEWithLogitsLoss(reduction=red, weight=w),
    }[name]()


def vary_loss(rng, problem, kinds, p=0.25):
    """Sometimes give the problem another loss that all ``kinds`` support."""
    if rng.random() >= p or not set(kinds) <= {"hess", "hessb", "ggn", "ef", "jac", "jact", "acth"}:
        return
    v = rng.choice(VARIANTS[problem["loss"]])
    if v == "cauchy" and problem["arch"].get("squeeze"):
        return
    name = f"{problem['loss']}-{v}"
    if "ef" in kinds and name not in EF_TOO:
        return
    if name in SUM_ONLY:
        problem["reduction"] = "sum"
    problem["variant"] = v


class World:
    """Everything the caller owns: model, loss, parameters, data, streams."""

    def __init__(self, spec, ctx, plan=None, recycle=False):
        self.spec, self.ctx = spec, ctx
        self.dtype = DTYPES[spec.get("dtype", "f64")]
        seed = spec["seed"]
        state = torch.get_rng_state()
        torch.manual_seed(sub_seed("init", seed))
        net, in_shape = build_net(spec["arch"])
        torch.set_rng_state(state)
        if spec["loss"] == "ce":
            net = nn.Sequential(*net, ClassSecond())
        net = net.to(torch.float64)
        scale = spec.get("wscale", 1.0)
        if scale != 1.0:
            with torch.no_grad():
                for p in net.parameters():
                    p.mul_(scale)
        if spec.get("coarse"):
            # products and sums of few such numbers are exact, in any order
            with torch.no_grad():
                for p in net.parameters():
                    p.copy_((4 * p).round() / 4)
        # a ``dtype``-representable world that references can evaluate in float64
        net = net.to(self.dtype)
        kind = spec.get("input", "tensor")
        self.model = SimModel(net, kind != "tensor")
        fixed_mode(self.model)
        if spec.get("mode") == "eval":
            self.model.eval()

        n = spec["N"]
        g = torch.Generator().manual_seed(sub_seed("data", seed))
        X = torch.randn((n,) + in_shape, generator=g, dtype=torch.float64)
        if spec.get("coarse"):
            X = (4 * X).round() / 4
        X = X.to(self.dtype)
        try:
            with torch.no_grad():
                out = self.model.net(X)
        except RuntimeError as e:
            raise InvalidSpec(str(e))
        if out.numel() == 0:
            raise InvalidSpec("empty output")
        self.out_shape = tuple(out.shape)
        if spec["loss"] == "ce":
            C = out.shape[1]
            y = torch.randint(
                0, C, (n,) + tuple(out.shape[2:]), generator=g, dtype=torch.int64
            )
            if spec.get("variant") == "soft":
                y = torch.randn(tuple(out.shape), generator=g, dtype=torch.float64)
                y = y.softmax(1).to(self.dtype)
        elif spec["loss"] == "bce":
            y = torch.randint(0, 2, tuple(out.shape), generator=g).to(self.dtype)
            if spec.get("variant") == "soft":
                y = 0.7 * y + 0.1
        else:
            y = torch.randn(tuple(out.shape), generator=g, dtype=torch.float64)
            y = y.to(self.dtype)
        if spec.get("fit") is not None and spec["loss"] == "mse":
            # some or all data are fitted perfectly
            rows = torch.rand(n, generator=g) < 0.1 * spec["fit"]
            with torch.no_grad():
                y = torch.where(rows.reshape((n,) + (1,) * (y.ndim - 1)), out, y)
        self.X, self.y = X, y
        C = out.shape[1] if spec["loss"] == "ce" else out.shape[-1] if out.ndim > 1 else 1
        self.loss = build_loss(spec, C, seed).to(self.dtype)

        every = [p for p in self.model.net.parameters()]
        self.names = [n_ for n_, _ in self.model.net.named_parameters()]
        sel = spec.get("params")
        self.sel = normalize_params(sel, len(every))
        if spec.get("kfac"):
            # only parameters of linear and convolution layers are supported
            ok = {
                f"{m_name}.{p_name}" if m_name else p_name
                for m_name, m in self.model.net.named_modules()
                if isinstance(m, (nn.Linear, nn.Conv2d))
                for p_name, _ in m.named_parameters(recurse=False)
            }
            keep = [i for i in self.sel if self.names[i] in ok]
            self.sel = keep or [i for i, n_ in enumerate(self.names) if n_ in ok][:1]
        self.params = [every[i] for i in self.sel]
        self.D = sum(p.numel() for p in self.params)
        limit = spec.get("max_D", 130)
        if self.D > limit:
            raise InvalidSpec(f"{self.D} parameters")
        if out.numel() > spec.get("max_out", 260):
            raise InvalidSpec("too many outputs")
        self.N = n
        self.stream = self.new_stream(plan, recycle)
        self._hooked = False
        self.sim_forward = None
        self.sim_output = None

    # -- seams -----------------------------------------------------------------
    def new_stream(self, plan=None, recycle=False, name="data"):
        cls = SimLoader if self.spec.get("loader") else SimStream
        stream = cls(
            self.X,
            self.y,
            plan,
            self.ctx,
            kind=self.spec.get("input", "tensor"),
            recycle=recycle,
            name=name,
            **({"style": self.spec["loader"]} if self.spec.get("loader") else {}),
        )
        stream.same = bool(self.spec.get("same"))
        return stream

    def hook_model(self):
        """Route forward passes through ``sim_forward`` / ``sim_output``."""

        def sim(event, out=None):
            if event == "forward":
                if self.sim_forward is not None:
                    self.sim_forward()
                return None
            return out if self.sim_output is None else self.sim_output(out)

        self.model.sim = sim

    @property
    def model_func(self):
        if self.spec.get("model_as") == "function":
            model = self.model
            return lambda X: model(X)
        return self.model

    @property
    def batch_size_fn(self):
        if self.spec.get("input", "tensor") == "tensor":
            if self.spec.get("bsfn"):
                return lambda X: len(X)
            return None
        return lambda X: X["x"].shape[0]

    @property
    def tol(self):
        return 1e-8 if self.dtype == torch.float64 else 3e-3

    @property
    def tight(self):
        """Tolerance for two executions of the same computation."""
        return 1e-10 if self.dtype == torch.float64 else 2e-4

    def params_from(self, model):
        every = list(model.net.parameters())
        return [every[i] for i in self.sel]

    def update(self, seed, how):
        """The caller changes all parameters in place, as an optimizer would."""
        g = torch.Generator().manual_seed(sub_seed("update", seed))
        for p in self.model.parameters():
            d = 0.3 * torch.randn(p.shape, generator=g, dtype=torch.float64).to(p.dtype)
            if how == "data":
                p.data.add_(d)
            elif how == "rebind":
                p.data = p.data + d
            elif how == "load":
                with torch.no_grad():
                    p.copy_(p + d)
            else:
                with torch.no_grad():
                    p.add_(d)

    def matrix(self, rows, cols, seed):
        """A deterministic float64 matrix, exact in the world's precision.

        Mostly dense; some are unit vectors, have zero rows, blocks or columns, repeat
        a column, or have small integer entries.
        """
        g = torch.Generator().manual_seed(sub_seed("vec", seed))
        M = torch.randn(rows, cols, generator=g, dtype=torch.float64)
        rng = sub_rng("vec-mode", seed, rows, cols)
        mode = weighted(rng, VECTOR_MODES)
        if mode == "unit":
            M.zero_()
            for c in range(cols):
                M[rng.randrange(rows), c] = rng.choice([1.0, 1.0, -1.0, 3.0])
        elif mode == "head":
            M[rng.randint(0, rows) :] = 0.0
        elif mode == "tail":
            M[: rng.randint(0, rows)] = 0.0
        elif mode == "window":
            lo, hi = sorted(rng.randint(0, rows) for _ in range(2))
            M[:lo] = 0.0
            M[hi:] = 0.0
        elif mode == "holes":
            M[torch.rand(rows, generator=g) < 0.6] = 0.0
        elif mode == "column":
            M[:, rng.randrange(cols)] = 0.0
        elif mode == "repeat":
            M[:] = M[:, :1].clone()
        elif mode == "signs":
            M = torch.where(M > 0, 1.0, -1.0).to(torch.float64)
        elif mode == "ones":
            M.fill_(1.0)
        elif mode == "dependent" and cols > 1:
            M[:, -1] = M[:, :-1].sum(1)
        return M.to(self.dtype).to(torch.float64)


def normalize_params(sel, n):
    """Distinct in-range indices in the given order; all parameters if empty."""
    if sel is None:
        return list(range(n))
    out = []
    for i in sel:
        if i % n not in out:
            out.append(i % n)
    return out or list(range(n))


# ---------------------------------------------------------------------- generation
def gen_arch(rng, kfac=False, conv=None, tiny=False):
    conv = (rng.random() < (0.4 if kfac else 0.2)) if conv is None else conv
    if conv:
        nconv = 1 if rng.random() < 0.7 else 2
        groups = rng.choice([1, 1, 1, 1, 1, 1, 2, 2, 3, 4])
        chans = [groups * rng.choice([1, 1, 2]) for _ in range(nconv)]
        chans.append(groups * rng.choice([1, 2]))
        roomy = rng.random() < 0.12  # larger images, kernels and steps
        hw = [rng.randint(2, 11 if roomy else 5), rng.randint(2, 11 if roomy else 5)]
        convs = []
        h, w = hw
        for _ in range(nconv):
            k = [rng.choice([1, 2, 2, 3]), rng.choice([1, 2, 2, 3])]
            stride = [rng.choice([1, 1, 2]), rng.choice([1, 1, 2])]
            dil = [rng.choice([1, 1, 2]), rng.choice([1, 1, 2])]
            pad = rng.choice(["valid", [0, 0], [1, 1], [0, 1], [1, 0], "same", [2, 1]])
            if pad == "same":
                stride = [1, 1]
            if roomy:
                k = [rng.randint(1, 5), rng.randint(1, 5)]
                dil = [rng.randint(1, 3), rng.randint(1, 3)]
                if pad != "same":
                    stride = [rng.randint(1, 4), rng.randint(1, 4)]
                    pad = rng.choice([pad, [rng.randint(0, 4), rng.randint(0, 4)]])
            convs.append(
                {"k": k, "stride": stride, "pad": pad, "dil": dil, "groups": groups}
            )
        a = {
            "kind": "conv",
            "chans": chans,
            "hw": hw,
            "convs": convs,
            "act": rng.choice(["tanh", "relu", "relu_", "sigmoid"]),
            "head": rng.choice(["flatten", "flatten", "gap", "spatial"]),
            "out": rng.choice([1, 2, 3]),
            "bias": [rng.random() < 0.7 for _ in range(nconv + 1)],
        }
        if rng.random() < 0.12:
            a[rng.choice(["bn", "drop"])] = rng.randrange(nconv)
        return a
    depth = rng.choice([1, 2, 2, 3] if not tiny else [1, 1, 2])
    dims = [rng.choice([1, 2, 3, 4])] + [
        rng.choice([1, 2, 3, 4] if not tiny else [1, 2, 3]) for _ in range(depth)
    ]
    a = {
        "kind": "mlp",
        "dims": dims,
        "acts": [
            rng.choice(["tanh", "sigmoid", "relu", "relu_", "softplus", "id"])
            for _ in range(max(1, depth - 1))
        ],
        "bias": [rng.random() < 0.75 for _ in range(depth)],
        "nest": rng.random() < 0.3,
    }
    if rng.random() < 0.4:
        a["tokens"] = rng.choice([[2], [3], [2, 2], [1], [1, 3]])
        r = rng.random()
        if r < 0.35 and depth > 1:
            a["pool_after"] = rng.randrange(depth - 1)
        elif r < 0.6:
            a["pool_end"] = True
    if rng.random() < 0.15 and depth > 1:
        a["norm"] = rng.randrange(depth - 1)
    if rng.random() < 0.12 and depth > 1:
        a[rng.choice(["bn", "drop"])] = rng.randrange(depth - 1)
    if rng.random() < 0.1 and depth > 1 and (key := rng.choice(["res", "tie"])):
        if key == "res" or not kfac:
            i = a[key] = rng.randrange(depth - 1)
            dims[i + 1] = dims[i]
    return a


def gen_large_arch(rng):
    """Networks that are wide or deep, or tiny ones for many data."""
    kind = rng.choice(["wide", "deep", "data", "data"])
    if kind == "deep":
        dims = [rng.choice([1, 2]) for _ in range(rng.randint(6, 12))]
    elif kind == "wide":
        dims = [rng.choice([1, 2, 3]) for _ in range(rng.choice([2, 2, 3]))]
        dims[rng.randrange(len(dims))] = rng.choice([17, 31, 33, 64, 65, 100, 129])
    else:
        dims = [rng.choice([1, 2, 3]) for _ in range(rng.choice([2, 2, 3]))]
    n = rng.choice([33, 37, 64, 65, 100, 128, 129, 150, 257]) if kind == "data" else None
    depth = len(dims) - 1
    return n, {
        "kind": "mlp",
        "dims": dims,
        "acts": [rng.choice(["tanh", "relu", "softplus", "id"]) for _ in range(depth)],
        "bias": [rng.random() < 0.75 for _ in range(depth)],
        "nest": rng.random() < 0.3,
    }


def gen_problem(
    rng,
    kfac=False,
    losses=("mse", "ce", "bce"),
    n_max=10,
    big=0.08,
    f32=0.15,
    tiny=False,
    inputs=True,
    max_D=130,
    large=0.0,
    squeeze=0.0,
):
    """Draw a problem specification that `World` accepts."""
    large = rng.random() < large
    if rng.random() < squeeze:
        losses = [x for x in losses if x != "ce"]
    else:
        squeeze = 0
    for _ in range(200):
        spec = {
            "seed": rng.randrange(10**6),
            "arch": gen_arch(rng, kfac=kfac, tiny=tiny),
            "loss": rng.choice(losses),
            "reduction": rng.choice(["mean", "mean", "sum"]),
            "N": rng.randint(1, n_max) if rng.random() > big else rng.randint(11, 30),
            "dtype": "f32" if rng.random() < f32 else "f64",
            "max_D": max_D,
        }
        if not kfac and spec["arch"]["kind"] == "mlp":
            depth = len(spec["arch"]["dims"]) - 1
            if depth > 1 and rng.random() < 0.08:
                spec["arch"]["scale"] = rng.randrange(depth - 1)
            if squeeze:
                spec["arch"]["dims"][-1] = 1
                spec["arch"]["squeeze"] = True
        if large and not squeeze:
            n, spec["arch"] = gen_large_arch(rng)
            spec.update({"N": n or spec["N"], "max_D": 600, "max_out": 800, "dtype": "f64"})
        if spec["dtype"] == "f32":
            spec["arch"].pop("norm", None)  # normalised values amplify rounding errors
        if rng.random() < 0.2:
            spec["wscale"] = rng.choice([0.3, 2.0])
        if kfac:
            spec["kfac"] = True
        if inputs:
            spec["input"] = weighted(rng, {"tensor": 8, "dict": 1, "userdict": 1})
            if not kfac and rng.random() < 0.25:
                spec["model_as"] = "function"
            if rng.random() < 0.15:
                spec["bsfn"] = True
            if rng.random() < 0.3:
                spec["loader"] = rng.choice(["exact", "subset", "batch_size"])
        if rng.random() < 0.2:
            spec["mode"] = "eval"
        if rng.random() < 0.3:
            spec["same"] = True
        if spec["loss"] == "mse" and rng.random() < 0.12:
            spec["fit"] = rng.choice([3, 5, 8, 10])
        if rng.random() < 0.08:
            spec["coarse"] = True
            if spec["arch"]["kind"] == "mlp" and rng.random() < 0.7:
                spec["arch"]["acts"] = [rng.choice(["relu", "id"])]
            if spec["loss"] == "mse" and rng.random() < 0.6:
                spec["fit"] = rng.choice([5, 8, 10])
        if rng.random() < 0.6:
            k = rng.randint(1, 6)
            spec["params"] = [rng.randrange(6) for _ in range(k)]
        try:
            from dst.core import Ctx

            World(spec, Ctx())
        except InvalidSpec:
            continue
        return spec
    raise RuntimeError("could not draw a problem")


def shrink_problem(p):
    """Simpler problem specifications, simplest first."""
    a = p["arch"]
    simple = {
        "kind": "mlp",
        "dims": [2, 2],
        "acts": ["tanh"],
        "bias": [True],
    }
    if a != simple:
        yield {**p, "arch": simple}
    for key in (
        "loader", "input", "model_as", "bsfn", "mode", "same", "fit", "coarse", "wscale",
        "variant", "params",
    ):
        if key in p:
            q = dict(p)
            del q[key]
            yield q
    if p.get("dtype") == "f32":
        yield {**p, "dtype": "f64"}
    for n in (1, 2, 3, p["N"] // 2, p["N"] - 1):
        if 0 < n < p["N"]:
            yield {**p, "N": n}
    if p["reduction"] != "sum":
        yield {**p, "reduction": "sum"}
    if p["loss"] != "mse":
        yield {**{k: v for k, v in p.items() if k != "variant"}, "loss": "mse"}
    if a["kind"] == "mlp":
        for key in (
            "tokens", "pool_after", "pool_end", "norm", "nest", "bn", "drop", "res", "tie", "two",
            "scale", "squeeze",
        ):
            if a.get(key):
                b = dict(a)
                del b[key]
                yield {**p, "arch": b}
        d = a["dims"]
        if len(d) > 2:
            for i in range(1, len(d) - 1):
                yield {**p, "arch": {**a, "dims": d[:i] + d[i + 1 :]}}
        for i, v in enumerate(d):
            if v > 1:
                yield {**p, "arch": {**a, "dims": d[:i] + [v - 1] + d[i + 1 :]}}
        if a.get("acts") and any(x != "id" for x in a["acts"]):
            yield {**p, "arch": {**a, "acts": ["id"]}}
    else:
        for key in ("bn", "drop"):
            if key in a:
                b = dict(a)
                del b[key]
                yield {**p, "arch": b}
        if len(a["convs"]) > 1:
            yield {
                **p,
                "arch": {
                    **a,
                    "chans": [a["chans"][0], a["chans"][-1]],
                    "convs": a["convs"][:1],
                },
            }
        for i, c in enumerate(a["convs"]):
            for key, value in (
                ("stride", [1, 1]),
                ("dil", [1, 1]),
                ("pad", [0, 0]),
                ("groups", 1),
                ("k", [1, 1]),
                ("k", [2, 2]),
            ):
                if c[key] != value:
                    convs = list(a["convs"])
                    convs[i] = {**c, key: value}
                    yield {**p, "arch": {**a, "convs": convs}}
        if a["head"] != "flatten":
            yield {**p, "arch": {**a, "head": "flatten"}}
        if a["out"] > 1:
            yield {**p, "arch": {**a, "out": 1}}
    if len(p.get("params") or []) > 1:
        for i in range(len(p["params"])):
            yield {**p, "params": p["params"][:i] + p["params"][i + 1 :]}
