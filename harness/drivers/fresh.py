"""Replays the tours of spec/Freshness.tla: evaluations which alternate with
writes to one part of a model, or to its input, in every way there is"""
import copy

import torch
from torch import nn

from drivers import life
from drivers.born import norm_event, options, weights_event
from drivers.born import build as build_born
from drivers.chain import PolyMap, Sup, TI, back_event, grads_event, poly_map, rows_event
from drivers.lib import Skip


def owner(model, name):
    for n in name.split(".")[:-1]:
        model = getattr(model, n)
    return model, name.split(".")[-1]


def write_tensor(model, name, new, way):
    """Give parameter (or buffer) of this name the new value"""
    mod, leaf = owner(model, name)
    p = getattr(mod, leaf)
    new = new.to(p.dtype).reshape(p.shape).clone()
    if way == "copy":
        with torch.no_grad():
            p.copy_(new)
    elif way == "inner":
        p.data.copy_(new)
    elif way == "data":
        p.data = new
    elif way == "step" and isinstance(p, nn.Parameter):
        opt = torch.optim.SGD([p], lr=1.0)
        p.grad = (p.detach() - new).clone()
        opt.step()
        with torch.no_grad():
            p.sub_((p - new).to(p.dtype))
            p.copy_(torch.where(p == new, p, new))
        p.grad = None
    elif way in ("load", "step"):
        sd = {k: v.clone() for k, v in model.state_dict().items()}
        sd[name] = new
        model.load_state_dict(sd, assign=bool(new.real.sum() > 0))
    else:
        setattr(mod, leaf, nn.Parameter(new) if isinstance(p, nn.Parameter) else new)


class Chain:
    judge = "J_Chain"

    def __init__(self, c, sc):
        self.c, self.sc = c, sc
        torch.set_default_dtype(sc.dtype)
        self.model = sc.build()
        torch.set_default_dtype(torch.float32)
        self.map = None
        if sc.fmap is not None:
            f = [[float(v) for v in r] for r in sc.fmap]
            if c.rng.random() < 0.5:
                torch.set_default_dtype(sc.dtype)
                self.map = PolyMap(f)
                torch.set_default_dtype(torch.float32)
            self.model.register_feature_map(self.map or poly_map(sc.fmap))
        for name, new in self.values().items():
            write_tensor(self.model, name, new, "copy")
        self.size = c.rng.choice([1, 2, 4])
        self.x, self.idx = self.batch()
        c.set(judge="J_Chain", models=[sc.spec()], dtype=str(sc.dtype))

    def batch(self):
        if isinstance(self.sc, TI):
            return self.sc.batch(self.size, same=True, as_list=False)
        return self.sc.batch(self.size)

    def values(self):
        if isinstance(self.sc, TI):
            return self.sc.values()

        class View:
            state_dict = lambda s: {k: v for k, v in self.model.state_dict().items()
                                    if not k.startswith("feature_map")}
        return self.sc.par.state(View())

    def parts(self):
        sc = self.sc
        if isinstance(sc, TI):
            return ["core"] + (["init", "term"] if not sc.fixed_ends else []) + (
                ["bias"] if sc.bias == "trainable" else [])
        return ["cores", "outcore"] + (["biasL"] if sc.par.biasL is not None else []) + (
            ["biasR"] if sc.par.biasR is not None else [])

    def bounded(self, par):
        sc = self.sc
        if isinstance(sc, TI):
            return max([sc.bound(par, r) for r in sc.rows] + [0]) < 2.0 ** (21 if sc.dtype == torch.float32 else 44)
        from drivers.sup import bound_of
        return bound_of(par, [sc.feats(r) for r in sc.rows], sc.periodic) < 2.0 ** (21 if sc.dtype == torch.float32 else 48)

    def write(self, part, way):
        c, sc = self.c, self.sc
        rows = sc.rows
        for _ in range(20):
            cand = sc.new_params()
            if sc.rows is not rows:
                raise Skip("no bounded parameters")
            par = copy.copy(sc.par)
            setattr(par, part, getattr(cand, part))
            if self.bounded(par):
                break
        else:
            return
        before = self.values()
        sc.par = par
        for name, new in self.values().items():
            if not torch.equal(before[name].to(new.dtype), new):
                write_tensor(self.model, name, new, way)
        self.model.zero_grad()
        c.ev("params", m=1, model=sc.spec())
        c.ev("zero", m=1)

    def write_input(self, way):
        for _ in range(8):
            x, idx = self.batch()
            if x.shape == self.x.shape:
                break
        if x.shape != self.x.shape or way == "object":
            self.x, self.idx = x, idx
        elif way == "copy":
            self.x.copy_(x)
            self.idx = idx
        else:
            if self.c.rng.random() < 0.5:
                self.x.data.copy_(x)
            else:
                self.x.numpy()[...] = x.numpy()
            self.idx = idx

    def evaluate(self, how):
        c, sc, model = self.c, self.sc, self.model
        if how == "backward":
            out, _ = back_event(c, 1, model, self.x, sc.rows, self.idx, sc.width(), c.rng)
            grads_event(c, 1, sc.entries(model), c.rng, limit=6)
            model.zero_grad()
            c.ev("zero", m=1)
        else:
            out = life.call(model, self.x, how if how != "train" else "plain")
        rows_event(c, 1, sc.rows, self.idx, out, how)


class Born:
    judge = "J_Born"

    def __init__(self, c, bc, trainable=False, new_domain=None):
        self.c, self.bc = c, bc
        self.new_domain = new_domain
        if trainable:
            torch.set_default_dtype(bc.dtype)
            self.model = bc.build(trainable=True)
            torch.set_default_dtype(torch.float32)
        else:
            self.model = build_born(c, bc)
        bc.par.install(self.model, "copy")
        self.trainable = trainable
        self.n = c.rng.choice(bc.lengths)
        self.rows = bc.index_rows(self.n, c.rng.choice([1, 3, 6]))
        self.x = bc.tensor(self.rows)
        c.set(judge="J_Born", model=bc.par.spec(), dtype=str(bc.dtype))

    def parts(self):
        return ["cores", "edges"] + (["bias"] if self.bc.bias else []) + (["domain", "gain"] if self.trainable else [])

    def write(self, part, way):
        c, bc = self.c, self.bc
        old = bc.par
        for _ in range(20):
            if part == "domain":
                par = copy.copy(old)
                par.domain = self.new_domain(c.rng, old.domain, bc.dtype)
            elif part == "gain":
                par = copy.copy(old)
                par.domain = self.regain(old.domain)
            else:
                par = copy.copy(old)
                setattr(par, part, getattr(bc.new_params(), part))
            if all(par.norm_bound(n) <= bc.limit and not par.is_null(n) for n in bc.lengths):
                break
        else:
            return
        bc.par, bc.domain = par, par.domain
        new = par.state()
        if self.trainable:
            name, gain = next((k, b) for k, b in self.model.named_buffers() if k.endswith(".gain"))
            if part == "gain":
                write_tensor(self.model, name, gain * self.factor, way)
            elif part == "domain":
                name = next(k for k, _ in self.model.named_parameters() if k.startswith("embedding"))
                new[name] = par.domain.raw(gain)
        which = {"cores": "core_tensors", "edges": "edge_vecs", "bias": "bias_mat"}
        for name, p in list(self.model.named_parameters()):
            hit = name.startswith("embedding") if part == "domain" else name == which.get(part)
            if hit:
                write_tensor(self.model, name, new[name], way)
        self.model.zero_grad()
        c.ev("params", m=1, model=par.spec())

    def regain(self, domain):
        """The domain after another write to the buffer of the embedding"""
        new = copy.copy(domain)
        name = "table" if domain.kind == "table" else "coefs"
        old = getattr(domain, name)
        for _ in range(20):
            self.factor = torch.tensor([self.c.rng.choice([1, -1, 2, 0.5]) for _ in range(domain.emb_dim)])
            t = old * (self.factor if name == "table" else self.factor[:, None])
            if torch.equal(torch.view_as_real(t) if t.is_complex() else t,
                           torch.view_as_real(t).round() if t.is_complex() else t.round()):
                break
        else:
            self.factor = torch.ones(domain.emb_dim)
            t = old
        setattr(new, name, t)
        return new

    def write_input(self, way):
        if way == "object":
            self.n = self.c.rng.choice(self.bc.lengths)
        rows = self.bc.index_rows(self.n, 50)
        rows = [self.c.rng.choice(rows) for _ in self.rows]
        new = self.bc.tensor(rows)
        self.rows = rows
        if way == "object":
            self.x = new
        elif way == "copy":
            self.x.copy_(new)
        elif self.c.rng.random() < 0.5:
            self.x.data.copy_(new)
        else:
            self.x.numpy()[...] = new.numpy()

    def evaluate(self, how):
        c, bc, model = self.c, self.bc, self.model
        opt = c.rng.choice(options(bc.bias))
        if how == "backward":
            if self.n and all(abs(bc.par.amplitude(bc.par.domain.features(r, bc.d))) > 1e-6 for r in self.rows):
                model.loss(self.x).backward()
            model.zero_grad()
        if how == "eval":
            model.eval()
        weights_event(c, bc, model, self.n, self.rows, opt, how=how if how in ("no_grad", "inference") else "",
                      x=self.x)
        if c.rng.random() < 0.3:
            norm_event(c, bc, model, self.n)
        model.train()


def replay(c, fam, history):
    c.set(history=history)
    parts = fam.parts()
    # The parts of the specification stand for these ones
    names = ["a", "b", "c"]
    offset = c.rng.randrange(len(parts))
    who = {a: parts[(i + offset) % len(parts)] for i, a in enumerate(names)}
    for a in history:
        if a["op"] == "eval":
            fam.evaluate(a["how"])
        elif a["part"] == "input":
            fam.write_input(a["way"])
        else:
            part = who[a["part"]]
            if len(parts) > 3 and c.rng.random() < 0.25:
                part = c.rng.choice(parts)
            fam.write(part, a["way"])


def drive(rec, families, quick=None):
    """families: name -> function of the case which makes a family"""
    hs = rec.behaviours["tour"]
    for name, make in families.items():
        for i in rec.cases(f"tour-{name}", quick or len(hs), 6 * len(hs)):
            with rec.case(f"tour-{name}", i) as c:
                replay(c, make(c), hs[i % len(hs)])


def sup(c):
    return Chain(c, life.random_sup(c.rng))


def ti(c):
    return Chain(c, life.random_ti(c.rng))


def born(c, uniform=None, embedded=None):
    bc = life.random_born(c.rng, uniform, embedded)
    return Born(c, bc)


def mapped(c):
    """Raw data with a feature map"""
    make = life.random_sup if c.rng.random() < 0.6 else life.random_ti
    return Chain(c, make(c.rng, raw=True, fmap=life.fmap_of(c.rng)))
