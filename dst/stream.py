"""Data-loader seam: what is delivered, in which cut, order and state of health.

A delivery plan is a list with one entry per traversal (cycled when it runs out):

    {"cuts": [c1, c2, ...], "order": null | seed, "faults": [fault, ...]}

``cuts`` are cut points taken modulo the data-set size, ``order`` a shuffle seed. Faults
that change what is delivered:

    {"k": "drop", "b": i}           batch i is lost
    {"k": "dup", "b": i}            batch i is delivered twice
    {"k": "truncate", "b": i}       the traversal ends before batch i
    {"k": "augment", "b": i, "s": seed, "mag": m}   inputs of batch i are perturbed
    {"k": "relabel", "b": i, "s": seed}             labels of batch i are changed
    {"k": "extra", "b": i, "s": seed}   entries of a dictionary that the model ignores
                                        change
    {"k": "swap", "b": i}           batches i and i+1 arrive in exchanged order
    {"k": "permute_rows", "b": i, "s": seed}        rows inside batch i are permuted

Faults that interrupt (``fail``: set by the checks, not part of a plan):

    stream.fail = {"site": "iter" | "batch" | "end", "n": occurrence since ``arm``}

``recycle``: a streaming loader that re-uses its buffers, i.e. destroys the previous batch
when the next one is requested (``True``), or overwrites it with the next one of the same
shape (``"buffer"``): the batches are the same objects with different contents.

``same``: the loader holds its batches, i.e. delivers the same objects whenever a
traversal is repeated.
"""

import random
from collections import UserDict

import torch


def gen_recycle(rng, p=0.15):
    return rng.choice([True, "buffer"]) if rng.random() < p else False


def normalize_cuts(cuts, n):
    """Map arbitrary cut points to a sorted list of batch boundaries."""
    points = sorted({c % n for c in cuts if n > 1 and c % n != 0})
    return [0] + points + [n]


class Streamed(UserDict):
    pass


class SimStream:
    def __init__(self, X, y, plan, ctx, kind="tensor", recycle=False, name="data"):
        self.X, self.y = X, y
        self.plan = plan or [{"cuts": [], "order": None}]
        self.ctx = ctx
        self.kind = kind
        self.recycle = recycle
        self.name = name
        self.traversals = 0  # number of iterators handed out
        self.history = []  # one record per traversal
        self.fail = None
        self.reached = {}
        self.exc = None
        self.live = 0  # iterators that are neither exhausted nor closed
        self.on_event = None
        self.same = False
        self.held = {}  # batches of each plan entry, for ``same``
        self.keep = None  # list that receives what was delivered, with copies

    # -- plans -----------------------------------------------------------------
    def batches(self, t):
        """Index lists and content faults of traversal ``t``, before faults."""
        entry = self.plan[t % len(self.plan)]
        n = self.X.shape[0]
        order = list(range(n))
        if entry.get("order") is not None:
            random.Random(f"order-{entry['order']}").shuffle(order)
        b = normalize_cuts(entry.get("cuts", []), n)
        return [order[lo:hi] for lo, hi in zip(b[:-1], b[1:])]

    def delivered(self, t):
        """The sequence ``[(X, y, index list), ...]`` that traversal ``t`` delivers."""
        entry = self.plan[t % len(self.plan)]
        chunks = self.batches(t)
        out = [[self.X[c].clone(), self.y[c].clone(), c, ()] for c in chunks]
        for f in entry.get("faults", []):
            if not out:
                break
            i = f["b"] % len(out)
            k = f["k"]
            if k == "drop":
                if len(out) > 1:
                    del out[i]
            elif k == "dup":
                Xb, yb, c, tag = out[i]
                out.insert(i, [Xb.clone(), yb.clone(), c, tag])
            elif k == "truncate":
                if i > 0:
                    out = out[:i]
            elif k == "augment":
                g = torch.Generator().manual_seed(f["s"])
                Xb = out[i][0]
                noise = torch.randn(Xb.shape, generator=g, dtype=torch.float64)
                out[i][0] = Xb + (f.get("mag", 1.0) * noise).to(Xb.dtype)
            elif k == "relabel":
                out[i][1] = relabel(out[i][1], f["s"])
            elif k == "extra":
                out[i][3] = ("extra", 1 + f["s"] % 50)
            elif k == "swap":
                if len(out) > 1:
                    j = (i + 1) % len(out)
                    out[i], out[j] = out[j], out[i]
            elif k == "permute_rows":
                p = list(range(out[i][0].shape[0]))
                random.Random(f["s"]).shuffle(p)
                out[i] = [out[i][0][p], out[i][1][p], [out[i][2][q] for q in p], ()]
        return out

    # -- iteration -------------------------------------------------------------
    def __len__(self):
        return len(self.batches(self.traversals))

    def wrap(self, Xb, extra=0):
        """What the model receives; dictionaries contain entries that it ignores."""
        if self.kind == "tensor":
            return Xb
        mask = torch.arange(Xb.shape[0] + 1) % 3 + extra
        pos = torch.linspace(0.0, 1.0, 3, dtype=torch.float64) + 0.5 * extra
        if self.kind == "dict":
            return {"x": Xb, "note": "unused", "mask": mask, "pos": pos}
        return Streamed({"mask": mask, "x": Xb, "pos": pos, "note": "unused"})

    def _site(self, site):
        """An interruptible point was reached: count it, maybe fail here."""
        n = self.reached.get(site, 0)
        self.reached[site] = n + 1
        f = self.fail
        if f is not None and f["site"] == site and f["n"] == n:
            self.fail = None
            self.ctx.fired("loader-" + site)
            raise self.exc

    def arm(self, fail, exc):
        """Count sites from now on, fail at ``fail`` (``None``: only count)."""
        self.fail, self.exc, self.reached = fail, exc, {}

    def disarm(self):
        self.fail = None

    def __iter__(self):
        t = self.traversals
        self.traversals += 1
        rec = {"t": t, "asked": 0, "given": [], "done": False, "closed": False}
        self.history.append(rec)
        self.ctx.ev(self.name, "iter", t)
        if self.on_event:
            self.on_event("iter")
        self._site("iter")
        return self._run(t, rec)

    def _run(self, t, rec):
        previous = None
        try:
            buffers = {}
            for b, (Xb, yb, idx, tag, *held) in enumerate(self.objects(t)):
                rec["asked"] += 1
                if self.on_event:
                    self.on_event("batch")
                self._site("batch")
                if self.recycle and previous is not None:
                    self._destroy(previous)
                if self.recycle == "buffer":
                    Xb, yb, held = self._refill(buffers, Xb, yb, tag)
                rec["given"].append(tuple(idx))
                self.ctx.ev(self.name, "batch", t, b, len(idx))
                previous = (Xb, yb)
                box = held[0] if held else self.wrap(Xb, tag[1] if tag else 0)
                if self.keep is not None:
                    keys = list(box) if self.kind != "tensor" else None
                    self.keep.append((Xb, yb, Xb.clone(), yb.clone(), box, keys))
                yield box, yb
            rec["asked"] += 1
            self._site("end")
            if self.recycle and previous is not None:
                self._destroy(previous)
            rec["done"] = True
            self.ctx.ev(self.name, "end", t)
        finally:
            rec["closed"] = True

    def objects(self, t):
        """What is delivered, as the loader holds it."""
        if not self.same or self.recycle:
            return self.delivered(t)
        i = t % len(self.plan)
        if i not in self.held:
            self.held[i] = [
                (*batch, self.wrap(batch[0], batch[3][1] if batch[3] else 0))
                for batch in self.delivered(i)
            ]
        return self.held[i]

    def _refill(self, buffers, Xb, yb, tag):
        """Move a batch into the buffer of its shape, if there already is one."""
        key = (Xb.shape, yb.shape, tag)
        if key in buffers:
            X0, y0, box = buffers[key]
            with torch.no_grad():
                X0.copy_(Xb)
                y0.copy_(yb)
        else:
            buffers[key] = Xb, yb, self.wrap(Xb, tag[1] if tag else 0)
        Xb, yb, box = buffers[key]
        return Xb, yb, [box]

    @staticmethod
    def _destroy(previous):
        Xb, yb = previous
        with torch.no_grad():
            if Xb.is_floating_point():
                Xb.fill_(float("nan"))
            else:
                Xb.zero_()
            if yb.is_floating_point():
                yb.fill_(float("nan"))
            else:
                yb.zero_()


class _Items(torch.utils.data.Dataset):
    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        raise AssertionError("the data set is only read through the loader")


class SimLoader(SimStream, torch.utils.data.DataLoader):
    """A stream that also is a `DataLoader`, with the attributes of one.

    ``style``: "exact": the data set has as many items as are delivered, "subset": it is
    larger (a sampler selects), "batch_size": also a nominal batch size is announced.
    """

    def __init__(self, X, y, plan, ctx, style="exact", **kw):
        n = X.shape[0]
        items = _Items(n if style == "exact" else 2 * n + 3)
        torch.utils.data.DataLoader.__init__(
            self,
            items,
            batch_size=max(1, n // 2) if style == "batch_size" else 1,
            sampler=range(n),
        )
        SimStream.__init__(self, X, y, plan, ctx, **kw)


def relabel(y, seed):
    """Change labels, keeping them legal."""
    g = torch.Generator().manual_seed(seed)
    if not y.is_floating_point():
        # class labels: next class, the number of classes is unknown here -> 0/1 swap
        return torch.where(y == 0, torch.ones_like(y), torch.zeros_like(y))
    if bool(((y == 0) | (y == 1)).all()):
        return 1 - y
    return y + 0.5 + torch.rand(y.shape, generator=g, dtype=torch.float64).to(y.dtype)


def gen_cuts(rng, n_max=12, style=None):
    style = style or rng.choices(
        ["one", "two", "few", "many", "singles"], [1, 3, 4, 3, 1]
    )[0]
    if style == "one":
        return []
    if style == "two":
        return [rng.randrange(1, n_max)]
    if style == "few":
        return sorted(rng.randrange(1, n_max) for _ in range(rng.randint(2, 3)))
    if style == "many":
        return sorted(rng.randrange(1, n_max) for _ in range(rng.randint(4, 8)))
    return list(range(1, n_max))


def gen_plan(rng, shuffle=True, vary=True, n_max=12):
    """A healthy delivery plan."""
    k = rng.choice([1, 2, 3, 5]) if vary else 1
    plan = []
    for _ in range(k):
        order = rng.randrange(1000) if shuffle and rng.random() < 0.7 else None
        plan.append({"cuts": gen_cuts(rng, n_max), "order": order})
    return plan
