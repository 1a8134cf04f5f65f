"""Supervised and sequence models with integer parameters, as instances for
the specification in J_Chain.tla"""
import numpy as np
import torch
from torch import nn

from drivers.lib import Skip, mod, obs, rint, signed_perm
from drivers.sup import SupCase, noncontiguous
from torchmps import MPS, TI_MPS


def poly_map(coefs):
    """Feature map by polynomials, as a function of one datum"""

    def f(x):
        x = torch.as_tensor(x, dtype=torch.get_default_dtype() if not x.is_floating_point() else x.dtype)
        return torch.stack([sum(c * x ** k for k, c in enumerate(row)) for row in coefs])

    return f


class PolyMap(nn.Module):
    """Feature map by polynomials with trainable coefficients"""

    def __init__(self, coefs):
        super().__init__()
        self.coefs = nn.Parameter(torch.tensor(coefs, dtype=torch.get_default_dtype()))

    def forward(self, x):
        x = x.to(self.coefs.dtype)
        powers = torch.stack([x ** k for k in range(self.coefs.shape[1])])
        return self.coefs @ powers


def features(row, raw, fmap, path=None):
    if path is not None:
        row = row[path]
    if not raw:
        return row
    if fmap is None:
        return torch.stack([row, 1 - row], dim=1)
    return torch.stack([sum(c * row ** k for k, c in enumerate(cs)) for cs in fmap], dim=1)


class Sup(SupCase):
    """A supervised model"""

    def __init__(self, rng, N, D, fmap=None, **kw):
        self.fmap = fmap
        self.rawlike = kw.get("raw", True)
        if fmap is not None:
            kw["d"] = len(fmap)
        super().__init__(rng, N, D, **kw)

    def feats(self, row):
        return features(row, row.ndim == 1, self.fmap, self.path)

    def spec(self):
        return dict(type="sup", label=self.label, periodic=self.periodic, path=self.path or [],
                    fmap=[] if self.fmap is None else [[int(c) % 46337 for c in r] for r in self.fmap],
                    init=[], term=[], **self.par.spec())

    def make(self, **kw):
        """The real model"""
        torch.set_default_dtype(self.dtype)
        model = self.build(**kw)
        torch.set_default_dtype(torch.float32)
        if self.fmap is not None and not kw.get("bare"):
            model.register_feature_map(poly_map(self.fmap))
        self.par.install(model, "load")
        return model

    def names(self, model):
        """Parameters of the model: (name in the specification, parameter)"""
        named = dict(model.named_parameters())
        out = []
        for i, (which, t) in enumerate(self.par.tensors()):
            p = f"linear_region.module_list.{i}."
            out.append(({"L": "coreL", "R": "coreR", "O": "out"}[which], named[p + "tensor"]))
            if self.bias and which in "LR":
                out.append(({"L": "biasL", "R": "biasR"}[which], named[p + "bias_mat"]))
        return out

    def entries(self, model):
        """Every entry of every parameter: (tuple of the specification, value
        of its gradient)"""
        out = []
        for name, p in self.names(model):
            if not p.requires_grad:
                continue
            for ix in np.ndindex(*p.shape):
                one = [int(i) + 1 for i in ix]
                if name == "coreL":
                    key = ["core"] + one
                elif name == "coreR":
                    key = ["core", one[0] + self.label] + one[1:]
                elif name == "out":
                    key = ["out"] + one
                else:
                    key = [name] + one[-2:]
                out.append((key, None if p.grad is None else p.grad[ix].item()))
        return out + fmap_entries(model)

    def width(self):
        return self.O


def fmap_entries(model):
    fm = model.feature_map
    if not isinstance(fm, PolyMap) or not fm.coefs.requires_grad:
        return []
    g = fm.coefs.grad
    return [(["fmap", int(i) + 1, int(j) + 1], None if g is None else g[i, j].item())
            for i, j in np.ndindex(*fm.coefs.shape)]


class TIParams:
    def __init__(self, core, bias, init, term):
        self.core, self.bias, self.init, self.term = core, bias, init, term

    def spec(self):
        return dict(cores=[mod(self.core)], biasL=[] if self.bias is None else mod(self.bias),
                    biasR=[], outcore=[], init=mod(self.init), term=mod(self.term))


class TI:
    """A sequence model. bias is none, fixed or trainable"""

    def __init__(self, rng, D, d=2, O=2, bias="fixed", fixed_ends=False, parallel=False,
                 dtype=torch.float64, style="dense", amp=1, fmap=None, raw=True, lengths=(1, 2, 3),
                 xamp=2, rows=3, buffers=False):
        self.rng, self.D, self.O, self.bias, self.fixed_ends = rng, D, O, bias, fixed_ends
        # Whether fixed tensors get other values than the initial ones
        self.buffers = buffers
        self.d = d if fmap is None else len(fmap)
        self.parallel, self.dtype, self.style, self.amp = parallel, dtype, style, amp
        self.fmap, self.raw, self.lengths, self.xamp = fmap, raw, lengths, xamp
        self.nrows = rows
        for attempt in range(40):
            self.rows = [self.new_row(rng.choice(lengths)) for _ in range(rows)]
            for n in lengths[: rows]:
                self.rows[lengths.index(n) % rows] = self.new_row(n)
            try:
                self.par = self.new_params()
                return
            except Skip:
                self.xamp = 1
                self.style = "sparse" if attempt < 5 else "nil"
        raise Skip("no bounded parameters")

    def new_row(self, n):
        rng = self.rng
        if self.raw:
            lo = 0 if self.style != "dense" else -self.xamp
            return rint(rng, [n], lo, self.xamp, self.dtype)
        if self.style != "dense":
            x = torch.zeros(n, self.d, dtype=self.dtype)
            for t in range(n):
                x[t, rng.randrange(self.d)] = rng.choice([-1, 1])
            return x
        return rint(rng, [n, self.d], -self.xamp, self.xamp, self.dtype)

    def feats(self, row):
        return features(row, row.ndim == 1, self.fmap)

    def new_params(self):
        rng, D, d, dt = self.rng, self.D, self.d, self.dtype
        limit = 2.0 ** (21 if dt == torch.float32 else 44)
        for attempt in range(12):
            if self.style == "mono":
                core = torch.stack([signed_perm(rng, D) for _ in range(d)], dim=2).to(dt)
            elif self.style == "nil":
                core = torch.zeros(D, D, d, dtype=dt)
                for l in range(D):
                    for r in range(l + 1, D):
                        if rng.random() < 1.5 / D:
                            core[l, r, rng.randrange(d)] = rng.choice([-1, 1])
            else:
                core = rint(rng, [D, D, d], -self.amp, self.amp, dt,
                            density=1 if self.style == "dense" and attempt < 4 else min(0.9, 1.2 / D))
            bias = None
            if self.bias == "fixed" and not self.buffers:
                bias = torch.eye(D, dtype=dt)
            elif self.bias != "none":
                bias = (torch.eye(D, dtype=dt) if self.style == "nil"
                        else torch.zeros(D, D, dtype=dt) if self.style == "mono"
                        else rint(rng, [D, D], -1, 1, dt, density=0.6))
            if self.fixed_ends and not self.buffers:
                init, term = torch.ones(D, dtype=dt), torch.eye(D, self.O, dtype=dt)
            else:
                init, term = rint(rng, [D], -2, 2, dt), rint(rng, [D, self.O], -2, 2, dt)
                if init.abs().sum() == 0:
                    init[0] = 1
            par = TIParams(core, bias, init, term)
            if max([self.bound(par, r) for r in self.rows] + [0]) < limit:
                return par
        raise Skip("no bounded parameters")

    def bound(self, par, row):
        f = self.feats(row).abs().double().numpy()
        c = par.core.abs().double().numpy()
        b = 0 if par.bias is None else par.bias.abs().double().numpy()
        ms = [np.einsum("lri,i->lr", c, f[t]) + b for t in range(len(f))]
        big = max([m.max() for m in ms] + [1])
        v = par.init.abs().double().numpy()
        left = np.eye(self.D)
        for m in ms:
            v, left = v @ m, left @ m
            big = max(big, v.max(), left.max())
        return big * self.D * 4

    def spec(self):
        return dict(type="ti", label=0, periodic=False, path=[],
                    fmap=[] if self.fmap is None else [[int(c) % 46337 for c in r] for r in self.fmap],
                    **self.par.spec())

    def build(self):
        return TI_MPS(self.O, self.D, feature_dim=self.d, parallel_eval=self.parallel,
                      fixed_ends=self.fixed_ends, use_bias=self.bias != "none",
                      fixed_bias=self.bias == "fixed")

    def values(self):
        out = {"core_tensor": self.par.core}
        if self.bias == "trainable" or self.buffers and self.bias == "fixed":
            out["bias_mat"] = self.par.bias
        if not self.fixed_ends or self.buffers:
            out["init_vector.vec"] = self.par.init
            out["terminal_mat.mat"] = self.par.term
        return out

    def install(self, model, how="load"):
        named = {k: p for k, p in model.named_parameters() if not k.startswith("feature_map")}
        new = self.values()
        for k, b in model.named_buffers():
            if self.buffers and k in new:
                b.copy_(new[k])
                new.pop(k)
        assert set(new) == set(named), (sorted(new), sorted(named))
        if how == "load":
            sd = dict(model.state_dict())
            for k in new:
                sd[k] = new[k].clone()
            model.load_state_dict(sd)
        elif how == "copy":
            with torch.no_grad():
                for k, p in named.items():
                    p.copy_(new[k])
        elif how == "data":
            for k, p in named.items():
                p.data = new[k].clone()
        elif how == "step":
            opt = torch.optim.SGD(list(named.values()), lr=1.0)
            for k, p in named.items():
                p.grad = torch.zeros_like(p)
            opt.step()
            with torch.no_grad():
                for k, p in named.items():
                    p += new[k] - p.detach()
                    p.copy_(p.round())

    def make(self, fm=True):
        torch.set_default_dtype(self.dtype)
        model = self.build()
        torch.set_default_dtype(torch.float32)
        if self.fmap is not None and fm:
            model.register_feature_map(poly_map(self.fmap))
        self.install(model)
        return model

    def entries(self, model):
        out = []
        for key, name in (("core_tensor", "core"), ("bias_mat", "biasL"), ("init_vector.vec", "init"),
                          ("terminal_mat.mat", "term")):
            p = dict(model.named_parameters()).get(key)
            if p is None or not p.requires_grad:
                continue
            for ix in np.ndindex(*p.shape):
                one = [int(i) + 1 for i in ix]
                out.append(([name] + ([1] if name == "core" else []) + one,
                            None if p.grad is None else p.grad[ix].item()))
        return out + fmap_entries(model)

    def width(self):
        return self.O

    def batch(self, size=None, same=None, as_list=None):
        """Rows for one call, the tensor or list, and the row of each item"""
        rng = self.rng
        idx = [rng.randrange(len(self.rows)) for _ in range(size or len(self.rows))]
        if (size or 0) >= len(self.rows) or not size:
            for i in range(len(self.rows)):
                idx[i] = i
            rng.shuffle(idx)
        if self.bias != "fixed" or self.buffers or same:
            n = len(self.rows[idx[0]])
            ok = [i for i in range(len(self.rows)) if len(self.rows[i]) == n]
            idx = [i if i in ok else rng.choice(ok) for i in idx]
        equal = len({len(self.rows[i]) for i in idx}) == 1
        items = [self.rows[i] for i in idx]
        if as_list is None:
            as_list = rng.random() < 0.5
        if equal and not as_list:
            return torch.stack(items), idx
        return [t.clone() for t in items], idx


# ---- events ------------------------------------------------------------------


def rows_event(c, m, rows, idx, out, how, scale=1.0, tol=0.02):
    """Distinct pairs of input row and output row of one batch"""
    o = obs(out, scale, tol)
    width = 1
    for n in o["shape"][1:]:
        width *= n
    groups = {}
    for b, i in enumerate(idx):
        y = o["data"][b * width : (b + 1) * width]
        raw = rows[i].ndim == 1
        groups.setdefault(raw, {}).setdefault((i, tuple(y)), dict(x=mod(rows[i]), y=y))
    for raw, pairs in groups.items():
        c.ev("rows", m=m, raw=raw, rows=list(pairs.values()), shape=o["shape"], batch=len(idx), how=how)


def back_event(c, m, model, x, rows, idx, width, rng, how="", amp=2, direct=None, record=True):
    """Backpropagate a combination of the outputs of one batch"""
    w = rint(rng, [len(idx), width], -amp, amp, torch.float64)
    out = model(x)
    (out * w.to(out.dtype)).sum().backward()
    if record:
        raw = rows[idx[0]].ndim == 1
        c.ev("back", m=m, raw=raw,
             rows=[dict(x=mod(rows[i]), w=mod(w[b])) for b, i in enumerate(idx)])
    return out, w


def genc(g, limit=2.0 ** 50):
    from drivers.lib import enc1
    return 0 if g is None else enc1(g)


def grads_event(c, m, entries, rng, how="", limit=24):
    if len(entries) > limit:
        entries = rng.sample(entries, limit)
    c.ev("grads", m=m, par=[k for k, _ in entries], g=[genc(g) for _, g in entries], how=how)


def xgrads_event(c, m, x, rows, idx, w, rng, how="", limit=24):
    """Gradients of the entries of an input"""
    raw = rows[idx[0]].ndim == 1
    for b in sorted(set([rng.randrange(len(idx)) for _ in range(2)])):
        g = x.grad[b]
        ent = [(["raw" if raw else "x"] + [int(i) + 1 for i in ix], g[ix].item())
               for ix in np.ndindex(*g.shape)]
        if len(ent) > limit:
            ent = rng.sample(ent, limit)
        c.ev("xgrads", m=m, raw=raw, row=dict(x=mod(rows[idx[b]]), w=mod(w[b])),
             par=[k for k, _ in ent], g=[genc(v) for _, v in ent], how=how)
