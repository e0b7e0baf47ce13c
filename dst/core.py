"""Core of the simulator: seeds, event log, violations, fault seams."""

import hashlib
import random
from collections import Counter
from contextlib import contextmanager

import torch
from torch.utils._python_dispatch import TorchDispatchMode


class Violation(Exception):
    """The property is broken. ``kind`` is the class that minimisation preserves."""

    def __init__(self, kind, msg=""):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg


class InvalidSpec(Exception):
    """The specification does not describe a legal run (shrinking artefact)."""


class Injected:
    """Marker mix-in of all exceptions thrown by the simulator."""


class InjectedRuntimeError(RuntimeError, Injected):
    pass


class InjectedOSError(OSError, Injected):
    pass


class InjectedMemoryError(MemoryError, Injected):
    pass


class InjectedOOM(torch.OutOfMemoryError, Injected):
    pass


class InjectedLinAlgError(torch.linalg.LinAlgError, Injected):
    pass


class InjectedValueError(ValueError, Injected):
    pass


class InjectedInterrupt(KeyboardInterrupt, Injected):
    pass


EXCEPTIONS = {
    "runtime": InjectedRuntimeError,
    "os": InjectedOSError,
    "memory": InjectedMemoryError,
    "oom": InjectedOOM,
    "linalg": InjectedLinAlgError,
    "value": InjectedValueError,
    "interrupt": InjectedInterrupt,
}


def run_seed(verif_seed, prop, index):
    """The one integer that decides run ``index`` of a property."""
    h = hashlib.sha256(f"{verif_seed}/{prop}/{index}".encode()).digest()
    return int.from_bytes(h[:8], "big")


def sub_rng(*parts):
    """Independent PRNG derived from a tuple of plain values."""
    h = hashlib.sha256("/".join(map(str, parts)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def sub_seed(*parts):
    return sub_rng(*parts).randrange(2**31)


def weighted(rng, table):
    """Draw a key of ``{key: weight}`` (insertion ordered)."""
    keys, weights = list(table), list(table.values())
    return rng.choices(keys, weights)[0]


class Ctx:
    """Everything one run records: events (no values), fault and probe counters."""

    def __init__(self):
        self.events = []
        self.counts = Counter()
        self.evals = 0

    def ev(self, *parts):
        self.events.append("|".join(map(str, parts)))

    def fired(self, kind):
        """A fault really happened."""
        self.counts["fault:" + kind] += 1
        self.events.append("FAULT|" + kind)

    def probe(self, name):
        """A rare condition was really reached."""
        self.counts["probe:" + name] += 1

    def checked(self, n=1):
        """An oracle comparison was made."""
        self.evals += n

    def digest(self):
        return hashlib.sha256("\n".join(self.events).encode()).hexdigest()[:16]

    @contextmanager
    def lib(self, what, allow=()):
        """A call into the library that must not fail on its own.

        Injected exceptions (and those in ``allow``) pass through.
        """
        try:
            yield
        except (Violation, InvalidSpec):
            raise
        except allow:
            raise
        except Exception as e:
            if chain_injected(e) is not None:
                raise
            raise Violation(
                f"exception:{type(e).__name__}",
                f"{what} raised {type(e).__name__}: {str(e)[:400]}",
            ) from e


def chain_injected(e):
    """The injected exception behind ``e`` (``e`` itself, cause or context)."""
    seen = set()
    while e is not None and id(e) not in seen:
        if isinstance(e, Injected):
            return e
        seen.add(id(e))
        e = e.__cause__ or e.__context__
    return None


def close(a, b, tol, floor=1e-3):
    """Norm-wise comparison that never accepts non-finite disagreement."""
    a = torch.as_tensor(a, dtype=torch.float64)
    b = torch.as_tensor(b, dtype=torch.float64)
    if a.shape != b.shape:
        return False
    if a.numel() == 0:
        return True
    if not bool(torch.isfinite(b).all()):
        # same non-finite pattern, and same finite entries
        fa, fb = torch.isfinite(a), torch.isfinite(b)
        if not bool((fa == fb).all()):
            return False
        a, b = a[fb], b[fb]
        if a.numel() == 0:
            return True
    if not bool(torch.isfinite(a).all()):
        return False
    return bool((a - b).norm() <= tol * max(float(b.norm()), floor))


def err(a, b):
    a = torch.as_tensor(a, dtype=torch.float64)
    b = torch.as_tensor(b, dtype=torch.float64)
    if a.shape != b.shape:
        return f"shapes {tuple(a.shape)} vs {tuple(b.shape)}"
    return (
        f"|diff|={float((a - b).norm()):.3e} |got|={float(a.norm()):.3e} "
        f"|want|={float(b.norm()):.3e}"
    )


class OpSeam(TorchDispatchMode):
    """Every tensor operation (including those of backward passes) is an event.

    ``fail_at``: index of the operation that raises ``exc`` instead of running.
    ``on_op``: callback used by the thread scheduler.
    ``corrupt_at``: index of the operation whose result is replaced by NaNs.
    ``only``: restrict events to operations whose name contains one of these strings.
    """

    def __init__(self, fail_at=None, exc=None, on_op=None, only=None, repeat=1):
        super().__init__()
        self.n = 0
        self.fail_at = fail_at
        self.exc = exc
        self.on_op = on_op
        self.only = only
        self.repeat = repeat
        self.fired = []

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        name = str(func)
        if self.only is None or any(o in name for o in self.only):
            i = self.n
            self.n += 1
            if self.on_op is not None:
                self.on_op(name)
            if self.fail_at is not None and self.fail_at <= i < (
                self.fail_at + self.repeat
            ):
                self.fired.append(name)
                raise self.exc
        return func(*args, **(kwargs or {}))


def rng_states():
    """Snapshot of the global random states."""
    import numpy

    np_state = numpy.random.get_state()
    return (
        bytes(torch.get_rng_state().numpy().tobytes()),
        (np_state[0], np_state[1].tobytes(), np_state[2:]),
        random.getstate(),
    )


def seed_globals(seed):
    """Set the ambient random state of all global generators."""
    import numpy

    torch.manual_seed(seed % (2**63))
    numpy.random.seed(seed % (2**32))
    random.seed(seed)


def global_rng_names(before, after):
    names = ["torch", "numpy", "python"]
    return [n for n, a, b in zip(names, before, after) if a != b]
