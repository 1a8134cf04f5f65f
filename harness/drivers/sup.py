"""Supervised MPS models with integer parameters"""
import copy

import numpy as np
import torch

from drivers.lib import Skip, mod, obs, rint, signed_perm
from torchmps import MPS


def sup_keys(model):
    """Names of the parameters: (left core, right core, output core, left bias,
    right bias), None where there isn't any"""
    return [k for k in model.state_dict() if "extra_state" not in k]


class Params:
    """Integer parameters of a supervised model"""

    def __init__(self, cores, outcore, biasL, biasR, label):
        self.cores, self.outcore = cores, outcore  # cores: list of [D, D, d]
        self.biasL, self.biasR, self.label = biasL, biasR, label

    def spec(self):
        return dict(
            cores=[mod(c) for c in self.cores],
            outcore=mod(self.outcore),
            biasL=[] if self.biasL is None else mod(self.biasL),
            biasR=[] if self.biasR is None else mod(self.biasR),
        )

    def tensors(self):
        """One tensor per parameter, in the order of the chain"""
        out = []
        if self.label > 0:
            out.append(("L", torch.stack(self.cores[: self.label])))
        out.append(("O", self.outcore))
        if self.label < len(self.cores):
            out.append(("R", torch.stack(self.cores[self.label :])))
        return out

    def state(self, model):
        """State dictionary which gives model these parameters"""
        old = model.state_dict()
        new = {}
        for i, (which, t) in enumerate(self.tensors()):
            name = f"linear_region.module_list.{i}."
            new[name + "tensor"] = t.to(old[name + "tensor"].dtype)
            bias = {"L": self.biasL, "R": self.biasR, "O": None}[which]
            if bias is not None:
                new[name + "bias_mat"] = (
                    bias.to(old[name + "bias_mat"].dtype).reshape(old[name + "bias_mat"].shape)
                )
        for k in old:
            if old[k].numel() == 0:
                new[k] = old[k].clone()  # unused bias
        assert set(new) == set(old), (sorted(new), sorted(old))
        for k in new:
            assert new[k].shape == old[k].shape, k
        return new

    def install(self, model, how="load"):
        new = self.state(model)
        if how == "load":
            model.load_state_dict(new)
        elif how == "copy":
            with torch.no_grad():
                for k, p in model.named_parameters():
                    p.copy_(new[k])
        elif how == "data":
            for k, p in model.named_parameters():
                p.data = new[k].clone()
        elif how == "step":
            # One step of gradient descent with prescribed gradients
            opt = torch.optim.SGD(model.parameters(), lr=1.0)
            opt.zero_grad()
            for k, p in model.named_parameters():
                p.grad = (p.detach() - new[k]).clone() if p.numel() else None
            opt.step()


def abs_bound(mats, outcore, label, periodic):
    """Upper bound of all intermediate values of reasonable evaluations, for
    non-negative site matrices (numpy)"""
    D = outcore.shape[1]
    out = outcore.sum(0)
    big = max([out.max()] + [m.max() for m in mats]) if mats else out.max()

    def tree(ms):
        big = 1.0
        while len(ms) > 1:
            nxt = [ms[i] @ ms[i + 1] for i in range(0, len(ms) - 1, 2)]
            if len(ms) % 2:
                nxt.append(ms[-1])
            ms = nxt
            big = max([big] + [m.max() for m in ms])
        return (ms[0] if ms else np.eye(D)), big

    left, b1 = tree(list(mats[:label]))
    right, b2 = tree(list(mats[label:]))
    full = left @ out @ right
    vals = [big, b1, b2, full.max(), (left @ out).max(), (out @ right).max()]
    if not periodic:
        v = np.zeros(D)
        v[0] = 1
        for m in list(mats[:label]) + [out] + list(mats[label:]):
            v = v @ m
            vals.append(v.max())
        v = np.zeros(D)
        v[0] = 1
        for m in (list(mats[:label]) + [out] + list(mats[label:]))[::-1]:
            v = m @ v
            vals.append(v.max())
    else:
        vals.append(np.trace(full) * 1.0)
        vals.append((right @ left).max() * out.max() * D * D)
    return max(vals) * D


def gen_params(rng, N, D, d, O, label, bias, dtype=None, style="dense", amp=2):
    """Random integer parameters"""
    dtype = dtype or torch.get_default_dtype()
    cores = []
    for n in range(N):
        st = style
        if style == "mixed":
            st = "dense" if rng.random() < 0.25 else "mono"
        if st == "dense":
            cores.append(rint(rng, [D, D, d], -amp, amp, dtype))
        elif st == "sparse":
            cores.append(rint(rng, [D, D, d], -amp, amp, dtype, density=min(0.8, 1.6 / D)))
        elif st == "mono":
            cores.append(torch.stack([signed_perm(rng, D) for _ in range(d)], dim=2).to(dtype))
        elif st == "nil":
            c = torch.zeros(D, D, d, dtype=dtype)
            for l in range(D):
                for r in range(l + 1, D):
                    if rng.random() < 1.0 / D:
                        c[l, r, rng.randrange(d)] = rng.choice([-1, 1])
            cores.append(c)
    outcore = rint(rng, [O, D, D], -amp, amp, dtype, density=1.0 if D < 8 else 0.2)
    # At least some output has to depend on the chain
    biasL = biasR = None
    if bias:
        if style == "nil":
            mk = lambda: torch.eye(D, dtype=dtype)
        elif style == "mono" or style == "mixed":
            mk = lambda: torch.zeros(D, D, dtype=dtype)
        else:
            mk = lambda: rint(rng, [D, D], -amp, amp, dtype, density=min(1, 2.0 / D))
        if label > 0:
            biasL = mk()
        if label < N:
            biasR = mk()
    return Params(cores, outcore, biasL, biasR, label)


def bound_of(par, feats, periodic):
    """Bound for a list of rows of features, each [N, d] (torch)"""
    best = 0.0
    cores = [c.abs().double().numpy() for c in par.cores]
    out = par.outcore.abs().double().numpy()
    for f in feats:
        f = f.abs().double().numpy()
        mats = []
        for n, c in enumerate(cores):
            m = np.einsum("lri,i->lr", c, f[n])
            b = par.biasL if n < par.label else par.biasR
            if b is not None:
                m = m + b.abs().double().numpy()
            mats.append(m)
        best = max(best, abs_bound(mats, out, par.label, periodic))
    return best


class SupCase:
    """A supervised model with integer parameters, and batches of inputs"""

    def __init__(self, rng, N, D, d=2, O=2, label=None, periodic=False, parallel=False,
                 bias=False, path=None, raw=True, dtype=torch.float64, style="dense",
                 amp=2, rows=3, xamp=2, adaptive=False, total=None, path_tensor=False):
        self.rng = rng
        self.N, self.D, self.d, self.O = N, D, d, O
        self.label = N // 2 if label is None else label
        self.given_label = label
        self.periodic, self.parallel, self.bias = periodic, parallel, bias
        self.raw, self.dtype, self.style = raw, dtype, style
        self.path = path
        self.path_tensor = path_tensor
        self.L = N if path is None else (total or max(path) + 1)
        self.amp, self.xamp = amp, xamp
        self.nrows = rows
        self.rows = [self.new_row() for _ in range(rows)]
        self.par = self.new_params()

    def new_row(self):
        rng = self.rng
        if self.raw:
            lo, hi = (0, 1) if self.style in ("mono", "mixed", "nil") else (-self.xamp, self.xamp)
            return rint(rng, [self.L], lo, hi, self.dtype)
        if self.style in ("mono", "mixed", "nil"):
            x = torch.zeros(self.L, self.d, dtype=self.dtype)
            for n in range(self.L):
                x[n, rng.randrange(self.d)] = rng.choice([-1, 1])
            return x
        return rint(rng, [self.L, self.d], -self.xamp, self.xamp, self.dtype)

    def feats(self, row):
        if self.path is not None:
            row = row[self.path]
        if self.raw:
            return torch.stack([row, 1 - row], dim=1)
        return row

    def new_params(self):
        limit = 2.0 ** (21 if self.dtype == torch.float32 else 48)
        amp, style = self.amp, self.style
        for attempt in range(12):
            par = gen_params(self.rng, self.N, self.D, self.d, self.O, self.label, self.bias,
                             self.dtype, style, amp)
            if bound_of(par, [self.feats(r) for r in self.rows], self.periodic) < limit:
                return par
            if attempt >= 1:
                amp = 1
            if attempt >= 3 and style == "dense":
                style = "sparse"
            if attempt >= 6:
                style = "mono" if not self.bias else "nil"
                if attempt >= 7:
                    self.style = style
                    self.rows = [self.new_row() for _ in range(self.nrows)]
        raise Skip("no bounded parameters found")

    def build(self, cls=MPS, **kw):
        path = self.path
        if path is not None and self.path_tensor:
            path = torch.tensor(path)
        return cls(
            input_dim=self.N, output_dim=self.O, bond_dim=self.D, feature_dim=self.d,
            periodic_bc=self.periodic, parallel_eval=self.parallel,
            label_site=self.given_label, path=path, use_bias=self.bias, **kw,
        )

    def config(self):
        return dict(
            N=self.N, D=self.D, d=self.d, O=self.O, label=self.label,
            periodic=self.periodic, parallel=self.parallel,
            path=self.path or [], raw=self.raw, style=self.style,
            dtype=str(self.dtype), **self.par.spec(),
        )

    def batch(self, size):
        """A batch made of the distinct rows, and the row each item is"""
        idx = [self.rng.randrange(len(self.rows)) for _ in range(size)]
        if size >= len(self.rows):
            for i in range(len(self.rows)):
                idx[i] = i
            self.rng.shuffle(idx)
        shape = list(self.rows[0].shape)
        data = torch.stack([self.rows[i] for i in idx]) if size else torch.zeros([0] + shape, dtype=self.dtype)
        return data, idx


def rows_event(case, op, rows, idx, out, how, batch, shape=None):
    """Record the distinct (input row, output row) pairs of a batch"""
    o = obs(out)
    width = 1
    for n in o["shape"][1:]:
        width *= n
    pairs, seen = [], set()
    for b, i in enumerate(idx):
        y = o["data"][b * width : (b + 1) * width]
        key = (i, tuple(y))
        if key not in seen:
            seen.add(key)
            pairs.append(dict(x=mod(rows[i]), y=y))
    return case.ev(op, rows=pairs, shape=o["shape"], batch=batch, how=how)


def noncontiguous(t):
    """Same values, with other strides"""
    if t.ndim == 2:
        return t.t().contiguous().t()
    big = torch.zeros(t.shape[0], 2 * t.shape[1], t.shape[2], dtype=t.dtype)
    big[:, ::2] = t
    return big[:, ::2]
