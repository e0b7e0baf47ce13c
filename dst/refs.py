"""Reference models: dense matrices of the whole data set, straight from definitions.

Everything is evaluated in float64 on a private copy of the network.
"""

import copy

import torch
from torch import nn

from dst.problems import Cauchy


class Dense:
    """Dense references of a world, computed lazily."""

    def __init__(self, world):
        self.w = world
        self.model = copy.deepcopy(world.model).to(torch.float64)
        self.model.from_dict = False
        self.loss = copy.deepcopy(world.loss).to(torch.float64)
        self.plain = world.spec.get("variant") is None
        self.params = world.params_from(self.model)
        self.X = world.X.to(torch.float64)
        y = world.y
        self.y = y.to(torch.float64) if y.is_floating_point() else y
        self.sizes = [p.numel() for p in self.params]
        self.D = sum(self.sizes)
        self._cache = {}

    def _get(self, key, fn):
        if key not in self._cache:
            self._cache[key] = fn()
        return self._cache[key]

    @staticmethod
    def flat(gs):
        return torch.cat([g.reshape(-1) for g in gs])

    def rows(self, f):
        """Jacobian of the flat tensor ``f`` w.r.t. the parameters."""
        out = []
        for i in range(f.numel()):
            gs = torch.autograd.grad(
                f[i], self.params, retain_graph=True, allow_unused=True
            )
            out.append(
                self.flat(
                    [
                        torch.zeros_like(p) if g is None else g
                        for g, p in zip(gs, self.params)
                    ]
                ).detach()
            )
        return torch.stack(out)

    # -- risk ------------------------------------------------------------------
    def gradient_and_loss(self):
        def fn():
            loss = self.loss(self.model(self.X), self.y)
            gs = torch.autograd.grad(loss, self.params)
            return self.flat(gs).detach(), loss.detach()

        return self._get("grad", fn)

    def gradient_scale(self):
        """Magnitude of the contributions that may cancel in the gradient."""

        def fn():
            g = self.term_gradients().abs() + 1e-2
            J = self.jacobian()[self._terms()].norm(dim=-1)
            return float(self.prefactor() * (g * J).sum())

        return self._get("gradscale", fn)

    def hessian(self):
        def fn():
            loss = self.loss(self.model(self.X), self.y)
            gs = torch.autograd.grad(loss, self.params, create_graph=True)
            return self.rows(self.flat(gs))

        return self._get("hess", fn)

    def hessian_blocks(self, block_sizes):
        H = self.hessian()
        return H * self.block_mask(block_sizes)

    def block_mask(self, block_sizes):
        ids, j = [], 0
        for b, size in enumerate(block_sizes):
            for s in self.sizes[j : j + size]:
                ids += [b] * s
            j += size
        ids = torch.tensor(ids)
        return (ids[:, None] == ids[None, :]).to(torch.float64)

    # -- Jacobian --------------------------------------------------------------
    def output(self):
        return self._get("out", lambda: self.model(self.X).detach())

    def jacobian(self):
        """Rows ordered as the flattened output of the data in order 0, 1, ..."""
        return self._get("jac", lambda: self.rows(self.model(self.X).flatten()))

    def _terms(self):
        """Index of each output entry as ``[term, component]`` in the flat output."""
        out = self.output()
        idx = torch.arange(out.numel()).reshape(out.shape)
        if isinstance(self.loss, nn.CrossEntropyLoss):
            return idx.movedim(1, -1).reshape(-1, out.shape[1])
        return idx.reshape(-1, out.shape[-1] if out.ndim > 1 else 1)

    def prefactor(self):
        """Factor of the un-averaged loss terms."""
        if self.loss.reduction == "sum":
            return 1.0
        T, C = self._terms().shape
        if isinstance(self.loss, Cauchy):
            return 1.0 / T
        return 1.0 / T if isinstance(self.loss, nn.CrossEntropyLoss) else 1.0 / (T * C)

    def term_outputs(self):
        out = self.output().flatten()
        return out[self._terms()]

    def term_labels(self):
        if isinstance(self.loss, nn.CrossEntropyLoss):
            if self.y.is_floating_point():
                return self.y.movedim(1, -1).reshape(-1, self.y.shape[1])
            return self.y.reshape(-1)
        return self.y.reshape(-1, self.y.shape[-1] if self.y.ndim > 1 else 1)

    def _per_term(self, derivative):
        """Apply ``derivative(loss, output)`` to each loss term, with autograd."""
        loss = copy.deepcopy(self.loss)
        loss.reduction = "sum"
        out = [
            derivative(lambda f_t, y_t=y_t: loss(f_t[None], y_t[None]), f_t)
            for f_t, y_t in zip(self.term_outputs(), self.term_labels())
        ]
        return torch.stack(out).detach()

    def term_hessians(self):
        """Hessian of each un-averaged loss term w.r.t. its output (analytic)."""
        if not self.plain:
            return self._per_term(torch.autograd.functional.hessian)
        f = self.term_outputs()
        T, C = f.shape
        if isinstance(self.loss, nn.MSELoss):
            return 2.0 * torch.eye(C, dtype=torch.float64).expand(T, C, C)
        if isinstance(self.loss, nn.CrossEntropyLoss):
            p = f.softmax(1)
            return torch.diag_embed(p) - p[:, :, None] * p[:, None, :]
        p = f.sigmoid()
        return torch.diag_embed(p * (1 - p))

    def term_gradients(self):
        """Gradient of each un-averaged loss term w.r.t. its output (analytic)."""
        if not self.plain:
            return self._per_term(torch.autograd.functional.jacobian)
        f, y = self.term_outputs(), self.term_labels()
        if isinstance(self.loss, nn.MSELoss):
            return 2.0 * (f - y)
        if isinstance(self.loss, nn.CrossEntropyLoss):
            return f.softmax(1) - nn.functional.one_hot(y, f.shape[1])
        return f.sigmoid() - y

    def _sandwich(self, blocks):
        """``prefactor * sum_terms J^T B J`` for per-term matrices ``B``."""
        J = self.jacobian()[self._terms()]  # [T, C, D]
        return self.prefactor() * torch.einsum("tca,tcd,tdb->ab", J, blocks, J)

    def ggn(self):
        return self._get("ggn", lambda: self._sandwich(self.term_hessians()))

    def ef(self):
        def fn():
            g = self.term_gradients()
            return self._sandwich(g[:, :, None] * g[:, None, :])

        return self._get("ef", fn)
