"""Probabilistic MPS models with Gaussian integer parameters, whose amplitudes
and norms are (multiples of) integers"""
import copy
import io
import math
import pickle

import numpy as np
import torch
from torch import nn

from drivers.lib import P, Skip, enc1, rint, signed_perm
from torchmps import ProbMPS, ProbUnifMPS
from torchmps.embeddings import DataDomain, FixedEmbedding, TrainableEmbedding, trig_embed


def cenc(t):
    """Nested lists of pairs (real part, imaginary part) modulo P"""
    t = t.detach()
    t = t if t.is_complex() else torch.complex(t.double(), torch.zeros_like(t.double()))
    ri = torch.stack([t.real, t.imag], dim=-1).double().round().to(torch.int64) % P
    return ri.tolist()


def gint(rng, shape, amp, cplx, dtype, density=1.0):
    """Random (Gaussian) integers"""
    a = rint(rng, shape, -amp, amp, dtype, density)
    return torch.complex(a, rint(rng, shape, -amp, amp, dtype, density)) if cplx else a


# ---- embeddings ------------------------------------------------------------


class Table(nn.Module):
    """Trainable embedding of a discrete domain"""

    def __init__(self, table):
        super().__init__()
        self.table = nn.Parameter(table.clone())
        # A buffer which scales the features
        self.register_buffer("gain", torch.ones(table.shape[1]))

    def forward(self, x):
        return (self.table * self.gain)[x[..., 0].long()]


class Poly(nn.Module):
    """Trainable embedding of an interval, by polynomials"""

    def __init__(self, coefs):
        super().__init__()
        self.coefs = nn.Parameter(coefs.clone())
        self.register_buffer("gain", torch.ones(coefs.shape[0]))

    def forward(self, x):
        return poly(x[..., 0], self.coefs * self.gain[:, None])


def poly(x, coefs):
    x = x.to(coefs.dtype)
    powers = torch.stack([x ** k for k in range(coefs.shape[1])], dim=-1)
    return powers @ coefs.T


class Domain:
    """The data domain of a model and its embedding. kind is one of none,
    table, poly, trig"""

    def __init__(self, kind, table=None, coefs=None, lo=0, hi=1, emb_dim=2, shift=0):
        # The real embedding is the integer one times 2^shift, the real cores
        # are the integer ones times 2^-shift
        self.shift = shift
        self.kind, self.table, self.coefs = kind, table, coefs
        self.lo, self.hi, self.emb_dim = lo, hi, emb_dim
        if kind == "table":
            self.emb_dim = table.shape[1]
        elif kind == "poly":
            self.emb_dim = coefs.shape[0]

    @property
    def scale(self):
        """The Gram matrix times scale is an integer matrix"""
        if self.kind == "poly":
            return {1: 1, 2: 6, 3: 60}[self.coefs.shape[1]]
        if self.kind == "trig":
            return {1: 1, 2: 1, 3: 4}[self.emb_dim]
        return 1

    def data_domain(self):
        if self.kind == "table":
            return DataDomain(continuous=False, max_val=len(self.table))
        return DataDomain(continuous=True, max_val=self.hi, min_val=self.lo)

    def function(self):
        if self.kind == "table":
            table = self.table * 2.0 ** self.shift
            return lambda x: table[x]
        if self.kind == "poly":
            coefs = self.coefs * 2.0 ** self.shift
            return lambda x: poly(x, coefs)
        d = self.emb_dim
        return lambda x: trig_embed(x, emb_dim=d)

    def module(self):
        f = 2.0 ** self.shift
        return Table(self.table * f) if self.kind == "table" else Poly(self.coefs * f)

    def raw(self, gain):
        """Parameter of the module which gives this domain"""
        if self.kind == "table":
            return self.table * 2.0 ** self.shift / gain
        return self.coefs * 2.0 ** self.shift / gain[:, None]

    def values(self):
        """Values of a datum which are used as inputs"""
        if self.kind == "table":
            return list(range(len(self.table)))
        return list(range(math.ceil(self.lo), math.floor(self.hi) + 1))

    def features(self, vals, d):
        """Feature vectors of some values, as a float tensor"""
        if self.kind == "none":
            return torch.eye(d, dtype=torch.float64)[torch.tensor(vals, dtype=torch.long)]
        if self.kind == "table":
            return self.table[torch.tensor(vals, dtype=torch.long)]
        if self.kind == "poly":
            return poly(torch.tensor(vals, dtype=torch.float64), self.coefs)
        return trig_embed(torch.tensor(vals, dtype=torch.float64), emb_dim=self.emb_dim).round()

    def gram_abs(self, bias):
        """Entrywise bound of the (scaled) Gram matrix"""
        if self.kind == "none":
            return None
        if self.kind == "table":
            e = self.table.abs().double().numpy()
            if bias:
                e = np.concatenate([e, np.ones((len(e), 1))], axis=1)
            return e.T @ e
        pts = torch.linspace(self.lo, self.hi, 101, dtype=torch.float64)
        e = (poly(pts, self.coefs) if self.kind == "poly" else trig_embed(pts, emb_dim=self.emb_dim))
        e = e.abs().numpy()
        if bias:
            e = np.concatenate([e, np.ones((len(e), 1))], axis=1)
        return e.T @ e / 101 * (self.hi - self.lo) * 1.1 * self.scale

    def spec(self):
        if self.kind == "table":
            return dict(kind="table", table=cenc(self.table))
        if self.kind == "poly":
            return dict(kind="poly", coefs=[[int(c) for c in r] for r in self.coefs.tolist()],
                        lo=self.lo, hi=self.hi)
        if self.kind == "trig":
            return dict(kind="trig", dim=self.emb_dim, lo=self.lo, hi=self.hi)
        return dict(kind="none")


NONE = Domain("none")


# ---- parameters ------------------------------------------------------------


class BornParams:
    """cores: [n, d, D, D] or [d, D, D]; edges: [2, D]; bias: [D, D] or None"""

    def __init__(self, cores, edges, bias, domain):
        self.cores, self.edges, self.bias, self.domain = cores, edges, bias, domain

    @property
    def uniform(self):
        return self.cores.ndim == 3

    def spec(self):
        cores = self.cores[None] if self.uniform else self.cores
        return dict(cores=cenc(cores), left=cenc(self.edges[0]), right=cenc(self.edges[1]),
                    bias=[] if self.bias is None else cenc(self.bias),
                    uniform=self.uniform, dom=self.domain.spec())

    def norm_bound(self, n):
        """Bound of (scaled) Z and of all that appears in its evaluation"""
        A = self.cores.abs().double().numpy()
        l, r = self.edges.abs().double().numpy()
        b = None if self.bias is None else self.bias.abs().double().numpy()
        G = self.domain.gram_abs(b is not None)
        dm = np.outer(l, l)
        for t in range(n):
            ct = A if self.uniform else A[t]
            if G is None:
                ct = ct if b is None else ct + b
                dm = np.einsum("ilr,lp,ipq->rq", ct, dm, ct)
            else:
                ct = ct if b is None else np.concatenate([ct, b[None]])
                dm = np.einsum("ij,ilr,lp,jpq->rq", G, ct, dm, ct)
        return r @ dm @ r

    def amp_bound(self, feats):
        """Bound of the squared amplitude of a sequence of feature vectors"""
        A = self.cores.abs().double().numpy()
        f = feats.abs().double().numpy()
        v, r = self.edges.abs().double().numpy()
        for t in range(len(f)):
            m = np.einsum("i,ilr->lr", f[t], A if self.uniform else A[t])
            if self.bias is not None:
                m = m + self.bias.abs().double().numpy()
            v = v @ m
        return (v @ r) ** 2

    def amplitude(self, feats):
        A = self.cores.numpy().astype(complex)
        f = feats.detach().numpy().astype(complex)
        v, r = self.edges.numpy().astype(complex)
        for t in range(len(f)):
            m = np.einsum("i,ilr->lr", f[t], A if self.uniform else A[t])
            if self.bias is not None:
                m = m + self.bias.numpy()
            v = v @ m
        return v @ r

    def is_null(self, n):
        """Whether Z vanishes (for embedded values: of a generic sequence)"""
        rng = np.random.RandomState(0)
        d = self.cores.shape[-3]
        for _ in range(8):
            if self.domain.kind in ("none", "table"):
                size = d if self.domain.kind == "none" else len(self.domain.table)
                f = [self.domain.features([rng.randint(size)], d)[0].numpy() for _ in range(n)]
                w = rng.randint(-50, 50, size=(n, 1)) if self.bias is None and self.domain.kind == "none" else 1
            else:
                f = [self.domain.features([rng.uniform(self.domain.lo, self.domain.hi)], d)[0].numpy()
                     for _ in range(n)]
            f = np.array(f).reshape(n, d)
            if self.bias is None and self.domain.kind == "none":
                f = rng.randint(-50, 50, size=(n, d)).astype(float)
            if abs(self.amplitude(torch.as_tensor(f))) > 1e-9:
                return False
        return True

    def state(self):
        out = dict(core_tensors=self.cores * 2.0 ** -self.domain.shift, edge_vecs=self.edges)
        if self.bias is not None:
            out["bias_mat"] = self.bias
        return out

    def install(self, model, how="load"):
        new = self.state()
        named = dict(model.named_parameters())
        gains = {k: b for k, b in model.named_buffers() if k.endswith(".gain")}
        for k in list(named):
            if k.endswith((".table", ".coefs")):
                new[k] = self.domain.raw(gains[k[:-5] + "gain"])
        assert set(new) == set(named), (sorted(new), sorted(named))
        if how == "load":
            new.update(gains)
        if how == "load":
            model.load_state_dict({k: v.clone() for k, v in new.items()})
        elif how == "copy":
            with torch.no_grad():
                for k, p in named.items():
                    p.copy_(new[k])
        elif how == "data":
            for k, p in named.items():
                p.data = new[k].to(p.dtype).clone()
        elif how == "step":
            opt = torch.optim.SGD(model.parameters(), lr=1.0)
            for k, p in named.items():
                p.grad = (p.detach() - new[k]).clone()
            opt.step()
            # x - (x - y) isn't exactly y
            with torch.no_grad():
                for k, p in named.items():
                    assert (p - new[k]).abs().max() < 1e-3
                    p.sub_((p - new[k]).to(p.dtype))
                    p.copy_(torch.where(p == new[k], p, new[k].to(p.dtype)))


class BornCase:
    def __init__(self, rng, n, d, D, uniform=False, cplx=False, bias=False, domain=NONE,
                 dtype=torch.float64, style="dense", amp=1, emb_as="function", lengths=None):
        self.rng, self.n, self.d, self.D = rng, n, d, D
        self.uniform, self.cplx, self.bias = uniform, cplx, bias
        self.domain, self.dtype, self.style, self.amp = domain, dtype, style, amp
        self.emb_as = emb_as
        self.lengths = lengths or [n]
        f32 = dtype == torch.float32
        cont = domain.kind in ("poly", "trig")
        self.limit = (800 if f32 else 2e4) if cont else (4e3 if f32 else 1e9)
        self.tol = 0.3 if f32 else 0.05
        self.gtol = 0.3 if f32 or cont else 0.05
        self.gden = (300 if f32 else 2e3) if cont else (1e3 if f32 else 1e9)
        self.par = self.new_params()

    def core(self, style):
        rng, d, D = self.rng, self.d, self.D
        if style == "dense":
            return gint(rng, [d, D, D], self.amp, self.cplx, self.dtype)
        if style == "sparse":
            return gint(rng, [d, D, D], 1, self.cplx, self.dtype, density=1.0 / D)
        core = torch.zeros(d, D, D, dtype=torch.complex128)
        which = [rng.randrange(d)] if style == "mono" else range(d) if style == "perms" else \
            rng.sample(range(d), min(d, 2))
        for i in which:
            core[i] = signed_perm(rng, D).to(core.dtype) * (1j ** rng.randrange(4) if self.cplx else 1)
        if self.cplx:
            return core.to(torch.complex128 if self.dtype == torch.float64 else torch.complex64)
        return core.real.to(self.dtype)

    def new_params(self, domain=None):
        rng = self.rng
        domain = domain or self.domain
        style = self.style
        for attempt in range(60):
            if attempt >= 10 and style == "dense":
                style = "sparse"
            if attempt >= 25 and style in ("dense", "sparse"):
                style = "mixed"
            if attempt >= 40:
                style = "mono"

            def one():
                st = style
                if st == "mixed":
                    st = rng.choice(["mono"] * 6 + ["two", "sparse"])
                return self.core(st)

            cores = one() if self.uniform else torch.stack([one() for _ in range(self.n)])
            edges = gint(rng, [2, self.D], 2 if attempt < 10 else 1, self.cplx, self.dtype)
            bias = None
            if self.bias:
                bias = gint(rng, [self.D, self.D], 1, self.cplx, self.dtype,
                            density=1.0 if attempt < 10 else 0.3 if attempt < 30 else 0.1)
            par = BornParams(cores, edges, bias, domain)
            if any(par.norm_bound(n) * domain.scale ** 0 > self.limit for n in self.lengths):
                continue
            if any(par.is_null(n) for n in self.lengths):
                continue
            return par
        raise Skip("no bounded parameters")

    def build(self, trainable=False):
        kw = dict(complex_params=self.cplx, use_bias=self.bias)
        if self.domain.kind != "none":
            dom = self.domain.data_domain()
            if trainable:
                kw.update(embed_fun=TrainableEmbedding(self.domain.module(), dom))
            elif self.emb_as == "function":
                kw.update(embed_fun=self.domain.function(), domain=dom)
            elif self.emb_as == "object":
                kw.update(embed_fun=FixedEmbedding(self.domain.function(), dom))
            else:  # an object built under other circumstances, and a domain given as well
                kw.update(embed_fun=FixedEmbedding(self.domain.function(), dom), domain=dom)
        if self.rng.random() < 0.3:
            kw["init_method"] = self.rng.choice(["near_eye", "normal"])
        if self.uniform:
            return ProbUnifMPS(self.d, self.D, **kw)
        return ProbMPS(self.n, self.d, self.D, **kw)

    # Inputs

    def index_rows(self, n, count):
        """Distinct sequences of values"""
        vals = list(range(self.d)) if self.domain.kind == "none" else self.domain.values()
        total = len(vals) ** n
        if total <= count:
            rows = [[]]
            for _ in range(n):
                rows = [r + [v] for r in rows for v in vals]
            return rows
        return [[self.rng.choice(vals) for _ in range(n)] for _ in range(count)]

    def good_rows(self, par, n, count):
        """Sequences of values with nonzero amplitude, if there are any"""
        rows = []
        for _ in range(60):
            r = self.index_rows(n, 1)[0] if n else []
            r = [self.rng.choice(list(range(self.d)) if self.domain.kind == "none" else self.domain.values())
                 for _ in range(n)]
            if abs(par.amplitude(par.domain.features(r, self.d))) > 1e-6:
                rows.append(r)
                if len(rows) == count:
                    break
        return rows

    def vec_rows(self, par, n, count, cplx=False):
        rng, out = self.rng, []
        for _ in range(count):
            for amp in (3, 2, 1, 1, 1, 0):
                if rng.random() < 0.25 or amp == 0:
                    x = torch.zeros(n, self.d, dtype=self.dtype)
                    for t in range(n):
                        x[t, rng.randrange(self.d)] = rng.choice([1, 1, -1]) if amp else 1
                    if cplx:
                        x = torch.complex(x, torch.zeros_like(x))
                else:
                    x = gint(rng, [n, self.d], amp, cplx, self.dtype)
                if par.amp_bound(x) <= self.limit:
                    out.append(x)
                    break
        return out

    def tensor(self, rows, vec=False):
        if vec:
            return torch.stack(rows)
        if self.domain.kind in ("none", "table"):
            return torch.tensor(rows, dtype=torch.long).reshape(len(rows), -1)
        return torch.tensor(rows, dtype=self.dtype).reshape(len(rows), -1)


def build(c, bc):
    """Model with the parameters of the case, under one of several dtypes"""
    rng = c.rng
    torch.set_default_dtype(bc.dtype if rng.random() < 0.6 else torch.float32)
    model = bc.build()
    torch.set_default_dtype(torch.float32)
    if bc.dtype == torch.float64:
        for k, p in list(model.named_parameters()):
            p.data = p.data.to(torch.complex128 if bc.cplx else torch.float64)
    return model


OPTIONS = {"default": {}, "parallel": dict(parallel_eval=True), "slim": dict(slim_eval=True),
           "both": dict(slim_eval=True, parallel_eval=True)}


def options(bias):
    return [k for k in OPTIONS if not (bias and k == "slim")]


def lognorm(model, n):
    return model.log_norm(n) if isinstance(model, ProbUnifMPS) else model.log_norm()


def norm_event(c, bc, model, n, m=1):
    ln = float(lognorm(model, n))
    z = enc1(math.exp(ln + n * math.log(bc.domain.scale)), tol=bc.tol) if ln < 60 else -1
    c.ev("norm", m=m, n=n, z=z)
    return ln


def enc_row(row, vec):
    if vec:
        return cenc(row)
    return [int(v) for v in row]


def weights_event(c, bc, model, n, rows, option, size=None, vec=False, m=1, how="", x=None):
    """Evaluate a batch made of the rows, record the distinct (row, weight)"""
    rng = bc.rng
    size = size or len(rows)
    idx = list(range(len(rows)))[:size] + [rng.randrange(len(rows)) for _ in range(size - len(rows))]
    if x is None:
        rng.shuffle(idx)
        x = bc.tensor([rows[i] for i in idx], vec)
    if bc.domain.kind == "none" and not vec and rng.random() < 0.35:
        # Symbols are the same in any type of integers
        fits = [d for d, top in ((torch.int32, 2 ** 31), (torch.int16, 2 ** 15), (torch.uint8, 256), (torch.bool, 2))
                if not x.numel() or int(x.max()) < top]
        dt = rng.choice(fits)
        x = x.to(dt)
        how = f"{how} {dt}".strip() if how == "" else how
    if how == "noncontiguous":
        x = x.transpose(0, 1).contiguous().transpose(0, 1)
    if how == "grad input" and vec:
        x.requires_grad_(True)
    if how == "no_grad":
        with torch.no_grad():
            lp = model(x, **OPTIONS[option])
    elif how == "inference":
        with torch.inference_mode():
            lp = model(x, **OPTIONS[option])
    else:
        lp = model(x, **OPTIONS[option])
    ln = float(lognorm(model, n))
    seen, pairs = set(), []
    lp = lp.detach()
    ok_shape = list(lp.shape) == [size] and not lp.is_complex()
    if ok_shape:
        for i, v in zip(idx, lp.double().tolist()):
            if v == -math.inf:
                w = 0
            elif not math.isfinite(v) or v + ln > 60:
                w = -1
            else:
                w = enc1(math.exp(v + ln), tol=bc.tol)
            if (i, w) not in seen:
                seen.add((i, w))
                pairs.append(dict(x=enc_row(rows[i], vec), w=w))
    c.ev("weights", m=m, n=n, vec=vec, rows=pairs, shape=ok_shape,
         how=f"{option} {how}".strip())


def loss_event(c, bc, model, n, rows, option, m=1, vec=False):
    """exp(-B * loss + B * log_norm) is the product of all weights"""
    x = bc.tensor(rows, vec)
    loss = model.loss(x, **OPTIONS[option])
    ln = float(lognorm(model, n))
    B = len(rows)
    total = B * ln - B * float(loss)
    w = enc1(math.exp(total), tol=bc.tol) if math.isfinite(total) and total < 60 else -1
    if loss.ndim != 0:
        w = -1
    c.ev("loss", m=m, n=n, vec=vec, rows=[enc_row(r, vec) for r in rows], w=w, how=option)


def small_rows(bc, par, n, count):
    """Rows of nonzero weight whose product is not too large"""
    rows, prod = [], 1.0
    for r in bc.good_rows(par, n, count * 2):
        w = abs(par.amplitude(par.domain.features(r, bc.d))) ** 2
        if prod * w <= bc.limit and len(rows) < count:
            prod *= w
            rows.append(r)
    return rows


def vec_grad_event(c, bc, model, par, n, option, cplx=False, m=1, limit=24):
    """Exact gradients of the log probabilities with respect to one of the
    vectors of the input"""
    rng = bc.rng
    ln = float(lognorm(model, n))
    rows = [r for r in bc.vec_rows(par, n, 4, cplx=cplx) if abs(par.amplitude(r)) > 1e-6]
    den = [math.exp(ln) * abs(par.amplitude(r)) ** 2 for r in rows]
    ok = [i for i in range(len(rows)) if den[i] <= bc.gden]
    if not ok:
        return False
    x = torch.stack(rows).requires_grad_(True)
    if rng.random() < 0.5:
        model(x, **OPTIONS[option]).sum().backward()
    else:
        (-len(rows) * model.loss(x, **OPTIONS[option])).backward()
    b = rng.choice(ok)
    names, vals, cpl = [], [], []
    ent = list(np.ndindex(*rows[b].shape))
    if len(ent) > limit:
        ent = rng.sample(ent, limit)
    for ix in ent:
        g = complex(x.grad[b][ix].item())
        if abs(g) * den[b] > 40 * bc.gden:
            return False
        names.append(["x"] + [int(i) + 1 for i in ix])
        vals.append([enc1(g.real * den[b], tol=bc.gtol), enc1(g.imag * den[b], tol=bc.gtol)])
        cpl.append(x.is_complex())
    c.ev("grad", m=m, n=n, vec=True, rows=[enc_row(rows[b], True)], par=names, g=vals, cplx=cpl,
         how=f"{option}, to the input")
    return True


def grad_event(c, bc, model, par, n, rows, option, m=1, limit=40, splits=1, loss=True):
    """Exact gradients of the sum of the log probabilities of the rows,
    accumulated over `splits` calls"""
    rng = bc.rng
    ln = float(lognorm(model, n))

    def denominator(rows):
        den = math.exp(ln) * float(bc.domain.scale) ** n
        for r in rows:
            den *= abs(par.amplitude(par.domain.features(r, bc.d))) ** 2
        return den

    # Gradients are multiples of 1 / den
    while rows and denominator(rows) > bc.gden:
        rows = rows[:-1]
    if not rows:
        return False
    den = denominator(rows)
    named = dict(model.named_parameters())
    for p in named.values():
        p.grad = None
    B = len(rows)
    for part in range(splits):
        sub = rows[part::splits]
        if not sub:
            continue
        x = bc.tensor(sub)
        if loss:
            (-len(sub) * model.loss(x, **OPTIONS[option])).backward()
        else:
            model(x, **OPTIONS[option]).sum().backward()
    names, vals, cpl = [], [], []

    def add(name, g, k):
        names.append(name)
        cpl.append(named[k].is_complex())
        g = complex(g) if g is not None else 0j
        vals.append([enc1(g.real * den, tol=bc.gtol), enc1(g.imag * den, tol=bc.gtol)])

    def entries(t):
        return [tuple(int(i) for i in ix) for ix in np.ndindex(*t.shape)]

    todo = []
    for k, p in named.items():
        if (bc.domain.kind in ("poly", "trig")) != k.endswith(".coefs"):
            # Norms over intervals are differentiated by coefficients only
            if bc.domain.kind in ("poly", "trig"):
                continue
        if not p.requires_grad:
            c.ev("fact", holds=p.grad is None, what="a frozen parameter got a gradient")
            continue
        if p.grad is None:
            # Has to be zero
            todo += [(k, ix, None) for ix in entries(p)]
        else:
            sh = bc.domain.shift
            f = 2.0 ** (-sh if k == "core_tensors" else sh if k.startswith("embedding") else 0)
            todo += [(k, ix, p.grad[ix].item() * f) for ix in entries(p)]
    if len(todo) > limit:
        todo = rng.sample(todo, limit)
    for k, ix, g in todo:
        one = [i + 1 for i in ix]
        if k == "core_tensors":
            if par.uniform:
                one = [1] + one
            add(["core"] + one, g, k)
        elif k == "edge_vecs":
            add([["left", "right"][ix[0]], one[1]], g, k)
        elif k == "bias_mat":
            add(["bias"] + one, g, k)
        elif k.endswith(".table"):
            add(["emb"] + one, g, k)
        elif k.endswith(".coefs"):
            add(["poly"] + one, g, k)
    # Rounding errors are relative to the largest gradient
    if max([abs(complex(g)) for _, _, g in todo if g is not None] + [0]) * den > 40 * bc.gden:
        return False
    c.ev("grad", m=m, n=n, vec=False, rows=[enc_row(r, False) for r in rows], par=names, g=vals, cplx=cpl,
         how=f"{option}, {splits} calls")
    return True
