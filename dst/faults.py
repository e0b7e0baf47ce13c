"""Interruptions: exceptions thrown by code that the library calls.

A fault is ``{"site": s, "frac": f, "exc": name}``; the site is one of

    iter, batch, end   the data loader (iterator creation, next batch, exhaustion)
    forward            the model's forward pass
    loss               the loss function
    op                 any tensor operation, also inside backward passes (allocation
                       failures, numerical library errors, interrupts)
    linalg             only matrix factorisations

``frac`` selects the occurrence as a fraction of the number of occurrences in a clean
execution of the same operation, so a fault always lands inside the operation.
"""

from dst.core import EXCEPTIONS, OpSeam, Violation, chain_injected, weighted

SITES = ("iter", "batch", "end", "forward", "loss", "op", "linalg")
LINALG = ("linalg_", "cholesky", "eigh", "logdet", "lu_factor", "slogdet", "_linalg")


def gen_fault(rng, sites=None):
    sites = sites or {
        "op": 10, "batch": 4, "forward": 3, "iter": 1, "end": 1, "loss": 2, "linalg": 2,
    }
    return {
        "site": weighted(rng, sites),
        "frac": rng.choice([0.0, 0.999, rng.random(), rng.random(), rng.random()]),
        "exc": rng.choice(list(EXCEPTIONS)),
    }


class _Session:
    """Arms (or only counts) all seams of a world around one library call."""

    def __init__(self, world, ctx, fault=None, n=None):
        self.world, self.ctx, self.fault, self.n = world, ctx, fault, n
        self.counts = {}
        self.exc = None
        self.fired = None
        if fault is not None:
            self.exc = EXCEPTIONS[fault["exc"]](f"injected at {fault['site']} {n}")

    def _hit(self, site):
        i = self.counts.get(site, 0)
        self.counts[site] = i + 1
        if self.fault is not None and self.fault["site"] == site and i == self.n:
            self.fired = site
            self.ctx.fired(site)
            raise self.exc

    def __enter__(self):
        w, f = self.world, self.fault
        site = f["site"] if f else None
        loader = site in ("iter", "batch", "end")
        w.stream.arm({"site": site, "n": self.n} if loader else None, self.exc)
        w.hook_model()
        w.sim_forward = lambda: self._hit("forward")
        self.handle = w.loss.register_forward_pre_hook(
            lambda *_: self._hit("loss"), prepend=True
        )
        if site in ("op", "linalg"):
            self.seam = OpSeam(self.n, self.exc, only=LINALG if site == "linalg" else None)
        else:
            self.seam = OpSeam()
        self.seam2 = None
        self.seam.__enter__()
        return self

    def __exit__(self, *args):
        w = self.world
        self.seam.__exit__(None, None, None)
        self.handle.remove()
        w.sim_forward = None
        w.model.sim = None
        if self.seam.fired:
            self.fired = self.fault["site"]
            self.ctx.fired(self.fault["site"])
        if w.stream.fail is None and self.fault is not None:
            if self.fault["site"] in ("iter", "batch", "end"):
                self.fired = self.fault["site"]
        w.stream.disarm()
        self.counts.update(w.stream.reached)
        self.counts["op"] = self.seam.n
        return False


def count(world, ctx, fn, linalg=False):
    """Occurrences of every site in a clean execution of ``fn``."""
    s = _Session(world, ctx)
    if linalg:
        s.__enter__()
        s.seam.only = LINALG
        try:
            value = fn()
        finally:
            s.__exit__()
        return {"linalg": s.seam.n}, value
    with s:
        value = fn()
    return dict(s.counts), value


class Outcome:
    def __init__(self, value=None, exc=None, fired=None):
        self.value, self.exc, self.fired = value, exc, fired


def inject(world, ctx, fault, counts, fn):
    """Execute ``fn`` with the fault placed by the clean counts.

    Checks that an exception that leaves the library is the injected one.
    """
    total = counts.get(fault["site"], 0)
    if total == 0:
        ctx.ev("fault-not-applicable", fault["site"])
        return Outcome(fired=None, value=None)
    n = min(total - 1, int(fault["frac"] * total))
    s = _Session(world, ctx, fault, n)
    try:
        with s:
            value = fn()
    except (Violation,):
        raise
    except BaseException as e:  # noqa: B036
        if s.fired is None:
            raise
        if e is not s.exc and chain_injected(e) is not s.exc:
            raise Violation(
                "exception-replaced",
                f"injected {s.exc!r} at {fault['site']} but caller got {e!r}",
            )
        ctx.ev("raised", type(e).__name__)
        return Outcome(exc=e, fired=s.fired)
    ctx.ev("survived", s.fired)
    return Outcome(value=value, fired=s.fired)
