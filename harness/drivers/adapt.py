"""Adaptive MPS with integer parameters, for the specification J_Adapt.tla"""
import copy
import io
import pickle

import numpy as np
import torch

from drivers.lib import BAD, Skip, enc1, mod, obs, rint
from drivers.life import must_raise
from torchmps import MPS

SENT_BOND, SENT_SV = -5, -3.0


def pattern(N, label, off):
    """Blocks of a pattern, only used to build parameters for it (the
    specification has its own)"""
    out, p = [], 0
    while p <= N:
        if p % 2 == off and p + 1 <= N:
            out.append(("ol" if p == label else "or" if p + 1 == label else "pair", p, 2))
            p += 2
        else:
            out.append(("out" if p == label else "in", p, 1))
            p += 1
    return out


def orth(rng, n, dense):
    """Integer n x n matrix with orthogonal columns of equal length (a square
    root of an integer), and the square of this length"""
    mats, norm, left = [], 1, n
    while dense and left % 2 == 0 and norm < 60:
        kind = rng.choice(["h", "p", "i"])
        if kind == "h":
            mats.append(np.array([[1, 1], [1, -1]]))
            norm *= 2
        elif kind == "p":
            mats.append(np.array([[3, 4], [-4, 3]]))
            norm *= 25
        else:
            mats.append(np.eye(2, dtype=int))
        left //= 2
    m = np.eye(left, dtype=int)
    for a in mats:
        m = np.kron(m, a)
    perm = list(range(n))
    rng.shuffle(perm)
    m = m[:, perm] * np.array([rng.choice([-1, 1]) for _ in range(n)])
    perm = list(range(n))
    rng.shuffle(perm)
    return m[perm], norm


class Adapt:
    def __init__(self, rng, N, D, d=2, O=2, label=None, periodic=False, parallel=False, T=3, cut2=0,
                 dtype=torch.float64, amp=1, raw=False, path=None, total=None, nrows=4, train=False):
        self.rng, self.N, self.D, self.d, self.O = rng, N, D, d, O
        self.label_arg = label
        self.label = N // 2 if label is None else label
        self.periodic, self.parallel, self.T, self.cut2, self.dtype, self.amp = \
            periodic, parallel, T, cut2, dtype, amp
        self.raw, self.path, self.L, self.train = raw and d == 2, path, total or N, train
        self.small = False
        self.limit = 1e8 if dtype == torch.float64 else 300
        self.rows = [self.new_row() for _ in range(nrows)]

    def new_row(self):
        rng = self.rng
        if self.raw:
            return rint(rng, [self.L], 0, 1 + (rng.random() < 0.3), self.dtype)
        if rng.random() < 0.6 and self.d > 1:
            x = torch.zeros(self.L, self.d, dtype=self.dtype)
            for n in range(self.L):
                x[n, rng.randrange(self.d)] = rng.choice([-1, 1])
            return x
        return rint(rng, [self.L, self.d], -1, 1 + (rng.random() < 0.3), self.dtype)

    def feats(self, row):
        if self.path is not None:
            row = row[self.path]
        return torch.stack([row, 1 - row], dim=1) if row.ndim == 1 else row

    @property
    def cutoff(self):
        if self.cut2 == 0:
            return 1e-10 if self.dtype == torch.float64 else 1e-3
        return self.cut2 / 2

    def config(self, n=1):
        return dict(judge="J_Adapt", n=n, N=self.N, D=self.D, d=self.d, O=self.O, label=self.label,
                    periodic=self.periodic, T=self.T, cut2=self.cut2, dtype=str(self.dtype))

    def build(self, **kw):
        torch.set_default_dtype(self.dtype)
        kw.setdefault("path", self.path)
        model = MPS(self.N, self.O, self.D, feature_dim=self.d, periodic_bc=self.periodic,
                    parallel_eval=self.parallel, label_site=self.label_arg, adaptive_mode=True,
                    cutoff=self.cutoff, merge_threshold=self.T,
                    init_std=self.rng.choice([1e-9, 0.1]), **kw)
        torch.set_default_dtype(torch.float32)
        return model

    # ---- integer parameters ----

    def shape(self, kind):
        D, d, O = self.D, self.d, self.O
        return {"in": [D, D, d], "pair": [D, D, d, d], "out": [O, D, D], "ol": [O, D, D, d],
                "or": [O, D, D, d]}[kind]

    def to_matrix(self, kind, t):
        """Row (l, i), (o, l) or (o, r); column (r, j), (r, i), (l, i)"""
        order = {"pair": (0, 2, 1, 3), "ol": (0, 1, 2, 3), "or": (0, 2, 1, 3)}[kind]
        t = np.transpose(t, order)
        return t.reshape(t.shape[0] * t.shape[1], -1)

    def from_matrix(self, kind, m):
        D, d, O = self.D, self.d, self.O
        if kind == "pair":
            return m.reshape(D, d, D, d).transpose(0, 2, 1, 3)
        if kind == "ol":
            return m.reshape(O, D, D, d)
        return m.reshape(O, D, D, d).transpose(0, 2, 1, 3)

    def merged_block(self, kind):
        """Integer tensor of a merged block and its decomposition"""
        rng, D, amp = self.rng, self.D, self.amp
        rows, cols = self.to_matrix(kind, np.zeros(self.shape(kind))).shape
        full = min(rows, cols)
        product = self.cut2 == 0 and not self.small and (self.train or rng.random() < 0.4) and self.dtype == torch.float64
        if product:
            k = max(1, D - (1 if self.train else rng.choice([0, 0, 1])))
            a = rint(rng, [rows, k], -amp, amp).numpy().astype(int)
            b = rint(rng, [k, cols], -amp, amp).numpy().astype(int)
            m = a @ b
            if not m.any():
                raise Skip("zero block")
            return self.from_matrix(kind, m), []
        dense = rng.random() < 0.5 and not self.small
        u, a = orth(rng, rows, dense)
        v, b = orth(rng, cols, dense)
        g = int(round((a * b) ** 0.5))
        if g * g != a * b:
            u, a = orth(rng, rows, False)
            v, b = orth(rng, cols, False)
            g = 1
        r = rng.choice([full, full, rng.randint(1, full)])
        hi = 2 * r + 2 if self.dtype == torch.float64 else r + 1
        if self.cut2:
            lo = [x for x in range(1, hi + self.cut2) if 2 * x * g < self.cut2]
            up = [x for x in range(1, 3 * hi + self.cut2) if 2 * x * g > self.cut2]
            n_up = rng.randint(1, r)
            n_lo = min(len(lo), r - n_up)
            svs = rng.sample(up[: n_up + 3], n_up) + rng.sample(lo if rng.random() < 0.5 else lo[-n_lo - 1 :], n_lo)
        else:
            svs = rng.sample(range(1, hi), r)
        svs = sorted(svs, reverse=True)
        dec = [dict(s=s, u=u[:, n].tolist(), v=v[:, n].tolist()) for n, s in enumerate(svs)]
        m = sum(x["s"] * np.outer(x["u"], x["v"]) for x in dec)
        return self.from_matrix(kind, m), dec

    def new_blocks(self, off):
        """Random blocks of a pattern, with bounded outputs"""
        rng = self.rng
        for attempt in range(60):
            ts, decs = [], []
            amp, self.amp = self.amp, self.amp if attempt < 30 else 1
            try:
                for kind, p, n in pattern(self.N, self.label, off):
                    if n == 1:
                        t = rint(rng, self.shape(kind), -self.amp, self.amp,
                                 density=min(1, 1.5 / self.D) if self.small else 1 if attempt < 20 else 0.5).numpy()
                        ts.append(t)
                        decs.append([])
                    else:
                        t, dec = self.merged_block(kind)
                        ts.append(t)
                        decs.append(dec)
            except Skip:
                continue
            finally:
                self.amp = amp
            if self.bound(off, ts) < self.limit:
                return [torch.tensor(np.ascontiguousarray(t), dtype=self.dtype) for t in ts], decs
        raise Skip("no bounded parameters")

    def bound(self, off, ts):
        big = 1
        for row in self.rows:
            f = self.feats(row).abs().double().numpy()
            at = lambda p: f[p] if p < self.label else f[p - 1]
            m = np.eye(self.D)
            for (kind, p, n), t in zip(pattern(self.N, self.label, off), ts):
                t = np.abs(t)
                if kind == "in":
                    b = t @ at(p)
                elif kind == "pair":
                    b = (t @ at(p + 1)) @ at(p)
                elif kind == "out":
                    b = t.sum(0)
                else:
                    b = (t @ at(p + 1 if kind == "ol" else p)).sum(0)
                m = m @ b
                big = max(big, b.max())
            big = max(big, m.max() * self.D)
        return big


def gauge_exponents(rng, ac, off):
    """Exponents of factors of the blocks, which have sum zero. Blocks which
    are split get ones for which the cutoff and rounding errors are far away
    from the singular values."""
    pat = pattern(ac.N, ac.label, off)
    big = 100 if ac.dtype == torch.float64 else 20
    for _ in range(200):
        lim = [(-rng.choice([20, big]), rng.choice([20, big])) if n == 1 else (0, 0) if ac.cut2
               else (-12, 5) if ac.dtype == torch.float64 else (-1, 1) for _, _, n in pat]
        out = [rng.randint(a, b) for a, b in lim]
        free = [i for i, (a, b) in enumerate(lim) if a < b]
        if not free:
            return out
        i = rng.choice(free)
        out[i] -= sum(out)
        if lim[i][0] <= out[i] <= lim[i][1]:
            return out
    return [0] * len(pat)


def params_of(model, off):
    """Parameters of a merge pattern, in the order of the chain"""
    mark = f"module_list_{off}."
    return [p for k, p in model.named_parameters(remove_duplicate=False) if mark in k]


class Inst:
    """One model with its (expected) schedule, which decides what the driver
    does next but not what is right"""

    def __init__(self, c, ac, model, m):
        self.c, self.ac, self.model, self.m = c, ac, model, m
        self.cnt, self.off, self.own, self.alive, self.decs = 0, 0, False, False, False
        self.exps = {}
        # Whether the reports of all bonds are left as they are between calls
        self.natural = c.rng.random() < 0.5
        self.opt = torch.optim.SGD(model.parameters(), lr=1.0)

    def due(self):
        return self.cnt >= self.ac.T

    def shapes(self):
        self.c.ev("shapes", m=self.m, shapes=[[list(p.shape) for p in params_of(self.model, o)] for o in (0, 1)],
                  cores=self.model.core_len(), len=len(self.model))

    def values(self, off, ts):
        """Blocks as the parameters of the pattern"""
        out, k = [], 0
        for p in params_of(self.model, off):
            if p.ndim == 5:
                out.append(torch.stack(ts[k : k + p.shape[0]]))
                k += p.shape[0]
            else:
                out.append(ts[k])
                k += 1
            assert out[-1].shape == p.shape
        return out

    def blocks(self, off, grad=False):
        out = []
        for p in params_of(self.model, off):
            t = p.detach() if not grad else p.grad
            if t is None:
                t = torch.zeros_like(p)
            out += list(t) if p.ndim == 5 else [t]
        return out

    def set(self, way="copy", ts=None, decs=None, gauge=False):
        """With a gauge the blocks get factors, powers of two with product one,
        which the specification doesn't need to know"""
        ac = self.ac
        if ts is None:
            ts, decs = ac.new_blocks(self.off)
        exps = gauge_exponents(self.c.rng, ac, self.off) if gauge else [0] * len(ts)
        self.exps = {p + 1: e for (kind, p, n), e in zip(pattern(ac.N, ac.label, self.off), exps) if n == 2}
        new = self.values(self.off, [t * 2.0 ** e for t, e in zip(ts, exps)])
        ps = params_of(self.model, self.off)
        if way == "load":
            sd = self.model.state_dict()
            names = {id(p): k for k, p in self.model.named_parameters(remove_duplicate=False)
                     if f"module_list_{self.off}." in k}
            every = {k: names.get(id(p)) for k, p in self.model.named_parameters(remove_duplicate=False)}
            vals = {names[id(p)]: v for p, v in zip(ps, new)}
            for k in sd:
                if every.get(k) in vals:
                    sd[k] = vals[every[k]].clone()
            self.model.load_state_dict(sd)
        elif way == "data":
            for p, v in zip(ps, new):
                p.data = v.clone()
        elif way == "step":
            self.model.zero_grad()
            for p, v in zip(ps, new):
                p.grad = p.detach() - v
            self.opt.step()
            self.model.zero_grad()
            with torch.no_grad():
                for p in ps:
                    p.copy_(p.round())
        else:
            with torch.no_grad():
                for p, v in zip(ps, new):
                    p.copy_(v)
        self.own, self.alive, self.decs = True, False, True
        self.c.ev("set", m=self.m, off=self.off, ts=[mod(t) for t in ts], decs=decs)

    def spoil(self):
        """The parameters of the other pattern don't matter"""
        with torch.no_grad():
            for p in params_of(self.model, 1 - self.off):
                p.copy_(torch.full_like(p, self.c.rng.choice([0.0, 7.0, -3.0])))

    def ready(self):
        """Make sure that the effect of a due switch is known"""
        ac = self.ac
        if not self.own:
            # A block of the new pattern can only be zero if the function is,
            # and can't be split then
            if ac.cut2 or not self.alive:
                self.set()
            return
        if self.decs:
            return
        if ac.cut2:
            self.set()
            return
        for (kind, p, n), t in zip(pattern(ac.N, ac.label, self.off), self.blocks(self.off)):
            if n == 2 and (not t.any() or np.linalg.matrix_rank(ac.to_matrix(kind, t.double().numpy())) > ac.D):
                self.set()
                return

    def follow(self, other):
        """Same state as another instance"""
        for k in ("cnt", "off", "own", "alive", "decs"):
            setattr(self, k, getattr(other, k))

    def call(self, size, how="plain", step=False, idx=None):
        c, ac, model, rng = self.c, self.ac, self.model, self.c.rng
        if self.due():
            self.ready()
        if idx is None:
            idx = [rng.randrange(len(ac.rows)) for _ in range(size)]
        x = torch.stack([ac.rows[i] for i in idx]) if size else torch.stack(ac.rows)[:0]
        if not self.natural:
            model.bond_list[:] = SENT_BOND
            model.sv_list[:] = SENT_SV
        flips = self.due()
        used = -1
        w = None
        # Parameters which aren't trained are parameters all the same
        frozen = []
        if not step and how != "backward" and rng.random() < 0.3:
            frozen = [p for p in model.parameters() if rng.random() < 0.6]
            for p in frozen:
                p.requires_grad_(False)
        if how == "backward" or step:
            model.zero_grad()
            for p in model.parameters():
                p.grad = None
            out = model(x)
            w = rint(rng, [size, ac.O], -1, 1, ac.dtype)
            (out * w).sum().backward()
            active = [all(p.grad is not None for p in params_of(model, o)) for o in (0, 1)]
            none = [all(p.grad is None for p in params_of(model, o)) for o in (0, 1)]
            used = 0 if active[0] and none[1] else 1 if active[1] and none[0] else -2
        elif how == "no_grad":
            with torch.no_grad():
                out = model(x)
        elif how == "inference":
            with torch.inference_mode():
                out = model(x)
        elif how == "eval":
            model.eval()
            out = model(x)
            model.train()
        else:
            out = model(x)
        if frozen:
            c.ev("fact", holds=all(p.requires_grad == all(p is not q for q in frozen) for p in model.parameters()),
                 what="a call changed which parameters are trained")
            for p in frozen:
                p.requires_grad_(True)
        self.record(out, idx, used)
        if flips:
            self.off, self.cnt, self.own, self.alive = 1 - self.off, self.cnt - ac.T, False, False
        self.cnt += size
        self.alive = self.alive or bool((out.abs() > 0.5).any())
        if step:
            if self.own:
                grads = self.blocks(self.off, grad=True)
                rows = [dict(x=mod(ac.feats(ac.rows[i])), w=mod(w[b])) for b, i in enumerate(idx)]
                ints = all(torch.equal(g, g.round()) for g in grads)
                self.opt.step()
                self.decs = False
                c.ev("train", m=self.m, rows=rows, grads=[mod(g) if ints else [] for g in grads])
            else:
                self.opt.step()
                self.set()
            model.zero_grad()
        return out

    def record(self, out, idx, used):
        c, ac, model = self.c, self.ac, self.model
        o = obs(out, tol=0.02)
        pairs = {}
        for b, i in enumerate(idx):
            y = o["data"][b * ac.O : (b + 1) * ac.O]
            pairs.setdefault((i, tuple(y)), dict(x=mod(ac.feats(ac.rows[i])), y=y))
        bonds = []
        for q, dim in enumerate(model.bond_list.tolist()):
            sv = model.sv_list[q].double()
            if not self.natural and dim == SENT_BOND and bool((sv == SENT_SV).all()):
                continue
            count = int((sv >= ac.cutoff).sum())
            raw = repr((dim, sv.tolist()))
            sv = sv * 2.0 ** -self.exps.get(q, 0)
            scale = float(sv.abs().max()) or 1.0
            ints = [enc1(v, tol=1e-4 * scale) if scale < 1e5 else BAD for v in sv.tolist()]
            bonds.append(dict(
                q=q, dim=dim, raw=raw, desc=bool((sv[:-1] >= sv[1:]).all() and (sv >= 0).all()),
                count=count, sv=ints,
                s2=enc1(float((sv ** 2).sum()), tol=0.02 if float((sv ** 2).sum()) < 1e5 else 0.4)))
        c.ev("call", m=self.m, size=len(idx), natural=self.natural, rows=list(pairs.values()), shape=o["shape"], bonds=bonds, used=used)

    def refused(self, fun, wrong):
        try:
            fun()
        except Exception as e:
            if type(e).__name__ == "CaseTimeout":
                raise
            self.c.ev("refused", m=self.m, wrong=wrong)
            return
        self.c.ev("fact", holds=False, what="an invalid call wasn't refused")


def copy_of(c, inst, how, m):
    ac = inst.ac
    if how == "deepcopy":
        new = copy.deepcopy(inst.model)
    elif how == "pickle":
        new = pickle.loads(pickle.dumps(inst.model))
    else:
        new = ac.build()
        if c.rng.random() < 0.5:
            # A switch could truncate the initial parameters to nothing
            for _ in range(1 if ac.cut2 else c.rng.randint(1, 3)):
                new(torch.stack(ac.rows[:2]))
        sd = inst.model.state_dict()
        if how == "file":
            buf = io.BytesIO()
            torch.save(sd, buf)
            buf.seek(0)
            sd = torch.load(buf)
        new.load_state_dict(sd, assign=how == "file" and c.rng.random() < 0.4)
    out = Inst(c, ac, new, m)
    out.follow(inst)
    c.ev("copy", m=inst.m)
    return out


HOWS = ["plain", "plain", "no_grad", "eval", "inference", "backward", "backward", "backward"]


def random_adapt(rng, **kw):
    N = kw.pop("N", None) or rng.choice([1, 2, 2, 3, 3, 4, 4, 5])
    raw = rng.random() < 0.4
    d = 2 if raw else rng.choice([1, 2, 2, 3])
    path, total = None, None
    if rng.random() < 0.2:
        total = rng.randint(1, N + 2)
        path = [rng.randrange(total) for _ in range(N)]
    args = dict(d=d, O=rng.choice([1, 2, 3]), label=rng.choice([None, 0, N, rng.randint(0, N)]),
                periodic=rng.random() < 0.3, parallel=rng.random() < 0.5, raw=raw, path=path, total=total,
                T=rng.choice([1, 2, 3, 5]), cut2=rng.choice([0, 0, 3, 5, 9]),
                dtype=torch.float64 if rng.random() < 0.85 else torch.float32)
    args.update(kw)
    return Adapt(rng, N, kw.get("D") or rng.choice([1, 2, 2, 3, 4]), **{k: v for k, v in args.items() if k != "D"})
