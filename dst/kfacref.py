"""Reference model of KFAC: computed datum by datum from its definition (float64)."""

import copy
from math import sqrt

import torch
from torch import nn
from torch.nn import functional as F


def conv_padding(conv):
    """(left, right, top, bottom) zero padding of a convolution."""
    if conv.padding == "valid":
        return (0, 0, 0, 0)
    if conv.padding == "same":
        out = []
        for k, d in zip(reversed(conv.kernel_size), reversed(conv.dilation)):
            total = d * (k - 1)
            out += [total // 2, total - total // 2]
        return tuple(out)
    ph, pw = conv.padding
    return (pw, pw, ph, ph)


def unequal_padding(conv):
    p = conv_padding(conv)
    return p[0] != p[1] or p[2] != p[3]


def conv_rows(conv, x):
    """Patches ``[positions, c_in/groups * k1 * k2]`` of one datum, group-averaged."""
    x = F.pad(x, conv_padding(conv))
    c = x.shape[1] // conv.groups
    x = x.reshape(conv.groups, c, *x.shape[2:]).mean(0)
    (k1, k2), (s1, s2), (d1, d2) = conv.kernel_size, conv.stride, conv.dilation
    o1 = (x.shape[1] - d1 * (k1 - 1) - 1) // s1 + 1
    o2 = (x.shape[2] - d2 * (k2 - 1) - 1) // s2 + 1
    rows = []
    for a in range(o1):
        for b in range(o2):
            patch = x[
                :,
                a * s1 : a * s1 + d1 * (k1 - 1) + 1 : d1,
                b * s2 : b * s2 + d2 * (k2 - 1) + 1 : d2,
            ]
            rows.append(patch.reshape(-1))
    return torch.stack(rows)


class KFACRef:
    """Kronecker factors and dense matrix of a world for the given options.

    ``labels``: optional ``[samples, N, ...]`` would-be gradients are not modelled here;
    Monte-Carlo KFAC is checked through its expectation and its determinism.
    """

    def __init__(self, world, fisher="type-2", approx="expand", separate=True):
        self.w = world
        self.fisher, self.approx, self.separate = fisher, approx, separate
        self.model = copy.deepcopy(world.model).to(torch.float64)
        self.model.from_dict = False
        for m in self.model.modules():
            if isinstance(m, nn.ReLU):
                m.inplace = False
        self.params = world.params_from(self.model)
        ids = {id(p): i for i, p in enumerate(self.params)}
        self.layers = {}
        for name, m in self.model.named_modules():
            if isinstance(m, (nn.Linear, nn.Conv2d)):
                pos = {
                    p_name: ids[id(p)]
                    for p_name, p in m.named_parameters(recurse=False)
                    if id(p) in ids
                }
                if pos:
                    self.layers[name] = (m, pos)
        self.A, self.B = {}, {}
        self._compute()

    def joint(self, pos):
        return not self.separate and "weight" in pos and "bias" in pos

    def sqrt_columns(self, f, y):
        """Backpropagated vectors ``[columns, terms, C]`` of one datum's terms."""
        loss = self.w.loss
        T, C = f.shape
        mean = loss.reduction == "mean"
        is_ce = isinstance(loss, nn.CrossEntropyLoss)
        if self.fisher == "type-2":
            if isinstance(loss, nn.MSELoss):
                S = sqrt(2.0) * torch.eye(C, dtype=torch.float64).expand(T, C, C)
            elif is_ce:
                p = f.softmax(1)
                S = torch.diag_embed(p.sqrt()) - p[:, :, None] * p.sqrt()[:, None, :]
            else:
                p = f.sigmoid()
                S = torch.diag_embed((p * (1 - p)).sqrt())
            cols = S.permute(2, 0, 1)
        elif self.fisher == "expect":
            # mean over independently sampled labels of all terms: one column per
            # term and component, the others being zero
            if isinstance(loss, nn.MSELoss):
                S = sqrt(2.0) * torch.eye(C, dtype=torch.float64).expand(T, C, C)
            elif is_ce:
                p = f.softmax(1)
                S = torch.diag_embed(p.sqrt()) - p[:, :, None] * p.sqrt()[:, None, :]
            else:
                p = f.sigmoid()
                S = torch.diag_embed((p * (1 - p)).sqrt())
            cols = torch.zeros(T, C, T, C, dtype=torch.float64)
            for t in range(T):
                cols[t, :, t, :] = S[t].T
            cols = cols.reshape(T * C, T, C)
        else:
            if isinstance(loss, nn.MSELoss):
                g = 2.0 * (f - y)
            elif is_ce:
                g = f.softmax(1) - F.one_hot(y, C)
            else:
                g = f.sigmoid() - y
            cols = g[None]
        if mean and not is_ce:
            cols = cols / sqrt(C)
        return cols

    def _compute(self):
        w = self.w
        X = w.X.to(torch.float64)
        y = w.y.to(torch.float64) if w.y.is_floating_point() else w.y
        is_ce = isinstance(w.loss, nn.CrossEntropyLoss)
        mean = w.loss.reduction == "mean"
        seen = {}
        handles = []
        for name, (m, _) in self.layers.items():

            def hook(module, args, out, name=name):
                seen[name] = (args[0].detach(), out)

            handles.append(m.register_forward_hook(hook))
        N = w.N
        for n in range(N):
            seen.clear()
            out = self.model(X[n : n + 1])
            if is_ce:
                f = out.movedim(1, -1).reshape(-1, out.shape[1])
                t = y[n : n + 1].reshape(-1)
            else:
                f = out.reshape(-1, out.shape[-1])
                t = y[n : n + 1].reshape(-1, out.shape[-1])
            T = f.shape[0]
            names = list(self.layers)
            for name in names:
                m, pos = self.layers[name]
                if "weight" not in pos:
                    continue
                a, _ = seen[name]
                if isinstance(m, nn.Conv2d):
                    rows = conv_rows(m, a)
                else:
                    rows = a.reshape(-1, a.shape[-1])
                if self.approx == "reduce":
                    rows = rows.mean(0, keepdim=True)
                if self.joint(pos):
                    rows = torch.cat([rows, rows.new_ones(rows.shape[0], 1)], 1)
                cov = rows.T @ rows / (N * rows.shape[0])
                self.A[name] = self.A.get(name, 0) + cov
            if self.fisher == "forward-only":
                continue
            cols = self.sqrt_columns(f.detach(), t)
            for col in cols:
                gs = torch.autograd.grad(
                    (f * col).sum(),
                    [seen[name][1] for name in names],
                    retain_graph=True,
                )
                for name, g in zip(names, gs):
                    m, _ = self.layers[name]
                    if isinstance(m, nn.Conv2d):
                        g = g.movedim(1, -1)
                    g = g.reshape(-1, g.shape[-1])
                    if self.approx == "reduce":
                        g = g.sum(0, keepdim=True)
                    cov = g.T @ g
                    if mean:
                        cov = cov / (N * T)
                    self.B[name] = self.B.get(name, 0) + cov
        for h in handles:
            h.remove()
        if self.fisher == "forward-only":
            for name, (m, pos) in self.layers.items():
                self.B[name] = torch.eye(m.weight.shape[0], dtype=torch.float64)

    def matrix(self, block=None):
        """Dense matrix. ``block(A, B)`` overrides the Kronecker product of a block.

        ``A`` is ``None`` for biases that are treated separately.
        """
        block = block or (lambda A, B: B if A is None else torch.kron(B, A))
        offs, sizes = [0], [p.numel() for p in self.params]
        for s in sizes:
            offs.append(offs[-1] + s)
        M = torch.zeros(offs[-1], offs[-1], dtype=torch.float64)

        def rng(i):
            return list(range(offs[i], offs[i + 1]))

        for name, (m, pos) in self.layers.items():
            A, B = self.A.get(name), self.B[name]
            if self.joint(pos):
                full = block(A, B)
                dout, din = B.shape[0], A.shape[0] - 1
                wi, bi = rng(pos["weight"]), rng(pos["bias"])
                idx = []
                for i in range(dout):
                    idx += wi[i * din : (i + 1) * din] + [bi[i]]
                M[torch.tensor(idx)[:, None], torch.tensor(idx)[None, :]] = full
            else:
                for p_name, i in pos.items():
                    idx = torch.tensor(rng(i))
                    full = block(A if p_name == "weight" else None, B)
                    M[idx[:, None], idx[None, :]] = full
        return M


def matrix_from_factors(ref, A, B):
    """Dense matrix of the same layer layout with other factors."""
    other = copy.copy(ref)
    other.A, other.B = A, B
    return other.matrix()


def blocks(M):
    """Index sets of the connected components of a symmetric matrix."""
    n = M.shape[0]
    A = ((M != 0) | (M.T != 0)).tolist()
    seen, out = set(), []
    for i in range(n):
        if i in seen:
            continue
        comp, todo = [], [i]
        seen.add(i)
        while todo:
            a = todo.pop()
            comp.append(a)
            for b in range(n):
                if A[a][b] and b not in seen:
                    seen.add(b)
                    todo.append(b)
        out.append(sorted(comp))
    return out
