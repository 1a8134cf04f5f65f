"""Replays histories of spec/ModelLife.tla with real models of several families"""
import copy
import io
import pickle

import torch

from drivers.born import BornCase, Domain, gint, norm_event, options, weights_event
from drivers.born import build as build_born
from drivers.chain import TI, PolyMap, Sup, back_event, grads_event, rows_event
from drivers.lib import rint

HOWS = ["plain", "plain", "no_grad", "eval", "inference", "backward"]


def snapshot(model):
    return {k: v.detach().clone() for k, v in model.state_dict().items()}


def same_state(model, snap):
    now = model.state_dict()
    return set(now) == set(snap) and all(torch.equal(now[k], snap[k]) for k in snap)


class Inst:
    def __init__(self, model, par):
        self.model, self.par = model, par


class ChainFamily:
    judge = "J_Chain"

    def __init__(self, c, sc):
        self.c, self.sc = c, sc
        self.fm_module = sc.fmap is not None and c.rng.random() < 0.5
        self.insts = [Inst(self.fresh(), sc.par)]

    def start(self):
        self.c.set(judge="J_Chain", models=[self.sc.spec()], dtype=str(self.sc.dtype), style=self.sc.style)

    def fresh(self, par=None):
        sc = self.sc
        torch.set_default_dtype(sc.dtype)
        model = sc.build()
        if sc.fmap is not None and self.fm_module:
            model.register_feature_map(PolyMap([[float(v) for v in r] for r in sc.fmap]))
        elif sc.fmap is not None:
            from drivers.chain import poly_map
            model.register_feature_map(poly_map(sc.fmap))
        torch.set_default_dtype(torch.float32)
        self.put(model, par or sc.par, "copy")
        return model

    def put(self, model, par, way):
        sc = self.sc
        sc.par = par
        if isinstance(sc, Sup):
            class View:  # the model without its feature map
                state_dict = lambda s: {k: v for k, v in model.state_dict().items()
                                        if not k.startswith("feature_map")}
            new = par.state(View())
        else:
            new = sc.values()
        named = {k: p for k, p in model.named_parameters() if not k.startswith("feature_map")}
        for k, b in model.named_buffers():
            if k in new and not k.startswith("feature_map"):
                b.copy_(new[k])
        if way == "load":
            sd = dict(model.state_dict())
            sd.update({k: v.clone() for k, v in new.items()})
            model.load_state_dict(sd, assign=self.c.rng.random() < 0.3 and sd_types(model, sd))
        elif way == "data":
            for k, p in named.items():
                p.data = new[k].to(p.dtype).clone()
        elif way == "step":
            opt = torch.optim.SGD([p for p in named.values() if p.numel()], lr=1.0)
            for k, p in named.items():
                if p.numel():
                    p.grad = (p.detach() - new[k]).clone()
            opt.step()
            with torch.no_grad():
                for p in named.values():
                    p.copy_(p.round())
            opt.zero_grad()
        else:
            with torch.no_grad():
                for k, p in named.items():
                    p.copy_(new[k])

    def update(self, m, way):
        inst = self.insts[m - 1]
        inst.par = self.sc.new_params()
        self.put(inst.model, inst.par, way)
        inst.model.zero_grad()
        self.c.ev("params", m=m, model=self.sc.spec())
        self.c.ev("zero", m=m)

    def evaluate(self, m, size, how):
        c, sc, inst = self.c, self.sc, self.insts[m - 1]
        x, idx = sc.batch(size)
        items = x if isinstance(x, list) else [x]
        before = [t.clone() for t in items]
        snap = snapshot(inst.model)
        if how == "backward":
            out, _ = back_event(c, m, inst.model, x, sc.rows, idx, sc.width(), c.rng)
            grads_event(c, m, sc.entries(inst.model), c.rng, limit=8)
        else:
            out = call(inst.model, x, how)
        rows_event(c, m, sc.rows, idx, out, how)
        c.ev("fact", holds=all(torch.equal(a, b) for a, b in zip(items, before)),
             what="a call changed its input")
        c.ev("fact", holds=same_state(inst.model, snap), what="a call changed the state of the model")

    def refused(self, m):
        c, sc, inst, rng = self.c, self.sc, self.insts[m - 1], self.c.rng
        snap = snapshot(inst.model)
        fm = inst.model.feature_map
        bad = []
        n = 3
        if isinstance(sc, Sup):
            if sc.path is None:
                bad += [lambda: inst.model(torch.zeros(2, sc.L + 1, sc.d, dtype=sc.dtype)),
                        lambda: inst.model(torch.zeros(2, sc.L + 1, dtype=sc.dtype))]
            bad += [lambda: inst.model(torch.zeros(2, sc.L, sc.d + 1, dtype=sc.dtype)),
                    lambda: inst.model(torch.zeros(5, sc.L, sc.d, 1, dtype=sc.dtype))]
        else:
            bad += [lambda: inst.model(torch.zeros(2, 3, sc.d + 1, dtype=sc.dtype)),
                    lambda: inst.model([torch.zeros(3, sc.d + 1, dtype=sc.dtype)]),
                    lambda: inst.model("x")]
            if sc.bias != "fixed":
                bad.append(lambda: inst.model([torch.zeros(2, sc.d, dtype=sc.dtype),
                                               torch.zeros(3, sc.d, dtype=sc.dtype)]))
        bad.append(lambda: inst.model.register_feature_map(lambda v: torch.zeros(sc.d + 1)))
        must_raise(c, rng.choice(bad))
        c.ev("fact", holds=same_state(inst.model, snap) and inst.model.feature_map is fm,
             what="a refused call changed the model")

    def copy(self, m, how):
        inst = self.insts[m - 1]
        if how == "deepcopy" or (how == "pickle" and self.sc.fmap is not None and not self.fm_module):
            new = copy.deepcopy(inst.model)
        elif how == "pickle":
            new = pickle.loads(pickle.dumps(inst.model))
        else:
            new = self.fresh(self.sc.new_params())
            if self.c.rng.random() < 0.5:
                new(self.sc.batch(2)[0])
            new.load_state_dict(through_file(inst.model.state_dict(), how),
                                assign=how == "file" and self.c.rng.random() < 0.4)
        self.insts.append(Inst(new, inst.par))
        self.c.ev("copy", m=m)

    def assign(self, m, f):
        self.insts[m - 1].model.load_state_dict(self.insts[f - 1].model.state_dict())
        self.insts[m - 1].par = self.insts[f - 1].par
        self.c.ev("assign", m=m, **{"from": f})


def sd_types(model, sd):
    """Whether all tensors have the types of the model (which they are
    converted to, unless they are assigned)"""
    old = model.state_dict()
    return all(old[k].dtype == v.dtype for k, v in sd.items())


def call(model, x, how):
    if how == "no_grad":
        with torch.no_grad():
            return model(x)
    if how == "inference":
        with torch.inference_mode():
            return model(x)
    if how == "eval":
        model.eval()
    out = model(x)
    model.train()
    return out


def through_file(state, how):
    if how == "state":
        return state
    buf = io.BytesIO()
    torch.save(state, buf)
    buf.seek(0)
    return torch.load(buf)


def must_raise(c, fun, what="an invalid call wasn't refused"):
    try:
        fun()
    except Exception as e:
        if type(e).__name__ == "CaseTimeout":
            raise
        c.ev("fact", holds=True, what="")
        return
    c.ev("fact", holds=False, what=what)


class BornFamily:
    judge = "J_Born"

    def __init__(self, c, bc):
        self.c, self.bc = c, bc
        self.insts = [Inst(self.fresh(), bc.par)]

    def start(self):
        self.c.set(judge="J_Born", model=self.bc.par.spec(), dtype=str(self.bc.dtype))

    def fresh(self, par=None):
        model = build_born(self.c, self.bc)
        (par or self.bc.par).install(model, "copy")
        return model

    def update(self, m, way):
        inst = self.insts[m - 1]
        inst.par = self.bc.new_params()
        inst.par.install(inst.model, way)
        inst.model.zero_grad()
        self.c.ev("params", m=m, model=inst.par.spec())

    def evaluate(self, m, size, how):
        c, bc, inst, rng = self.c, self.bc, self.insts[m - 1], self.c.rng
        bc.par = inst.par
        n = rng.choice(bc.lengths)
        snap = snapshot(inst.model)
        opt = rng.choice(options(bc.bias))
        rows = bc.index_rows(n, 4)[:size]
        vec = bc.domain.kind == "none" and rng.random() < 0.3
        if vec:
            rows = bc.vec_rows(inst.par, n, size) or rows
            vec = isinstance(rows[0], torch.Tensor)
        weights_event(c, bc, inst.model, n, rows, opt, size=max(size, len(rows)), vec=vec, m=m,
                      how=how if how in ("no_grad", "inference") else "")
        if rng.random() < 0.5:
            norm_event(c, bc, inst.model, n, m=m)
        c.ev("fact", holds=same_state(inst.model, snap), what="a call changed the state of the model")
        x = bc.tensor(rows, vec)
        before = x.clone()
        inst.model.loss(x).backward() if rng.random() < 0.5 and x.shape[1] > 0 else inst.model(x)
        c.ev("fact", holds=torch.equal(x, before), what="a call changed its input")

    def refused(self, m):
        c, bc, inst, rng = self.c, self.bc, self.insts[m - 1], self.c.rng
        snap = snapshot(inst.model)
        n = max(bc.lengths[0], 1)
        bad = [lambda: inst.model(torch.zeros(2, n, bc.d + 1, dtype=bc.dtype))] if bc.domain.kind == "none" else \
              [lambda: inst.model("x")]
        if bc.bias:
            bad.append(lambda: inst.model(bc.tensor(bc.index_rows(n, 2)), slim_eval=True))
        must_raise(c, rng.choice(bad))
        c.ev("fact", holds=same_state(inst.model, snap), what="a refused call changed the model")

    def copy(self, m, how):
        inst = self.insts[m - 1]
        if how == "deepcopy" or (how == "pickle" and self.bc.domain.kind != "none"):
            new = copy.deepcopy(inst.model)
        elif how == "pickle":
            new = pickle.loads(pickle.dumps(inst.model))
        else:
            new = self.fresh(self.bc.new_params())
            new.load_state_dict(through_file(inst.model.state_dict(), how),
                                assign=how == "file" and self.c.rng.random() < 0.4)
        self.insts.append(Inst(new, inst.par))
        self.c.ev("copy", m=m)

    def assign(self, m, f):
        self.insts[m - 1].model.load_state_dict(self.insts[f - 1].model.state_dict())
        self.insts[m - 1].par = self.insts[f - 1].par
        self.c.ev("assign", m=m, **{"from": f})


def fmap_of(rng, n=None):
    return [[rng.randint(-1, 2) for _ in range(3)] for _ in range(n or rng.choice([1, 2, 3]))]


def random_sup(rng, **kw):
    f32, f64 = torch.float32, torch.float64
    N = rng.choice([1, 1, 2, 3, 4, 5])
    raw = rng.random() < 0.5
    path, total = None, None
    if rng.random() < 0.3:
        total = rng.randint(1, N + 2)
        path = [rng.randrange(total) for _ in range(N)]
    args = dict(d=2 if raw else rng.choice([1, 2, 3]), O=rng.choice([1, 2, 3]),
                label=rng.choice([None, 0, N, rng.randint(0, N)]), periodic=rng.random() < 0.4,
                parallel=rng.random() < 0.5, bias=rng.random() < 0.5, raw=raw, path=path, total=total,
                fmap=fmap_of(rng) if raw and rng.random() < 0.4 else None,
                dtype=rng.choice([f64, f64, f32]), amp=1, xamp=1)
    args.update(kw)
    return Sup(rng, N, rng.randint(1, 3), **args)


def random_ti(rng, **kw):
    f32, f64 = torch.float32, torch.float64
    raw = rng.random() < 0.5
    D = rng.randint(1, 3)
    fixed_ends = rng.random() < 0.3
    args = dict(d=2 if raw else rng.choice([1, 2, 3]),
                O=rng.randint(1, D) if fixed_ends else rng.randint(1, 3),
                bias=rng.choice(["fixed", "fixed", "trainable", "none"]), fixed_ends=fixed_ends,
                parallel=rng.random() < 0.5, dtype=rng.choice([f64, f64, f32]), raw=raw,
                fmap=fmap_of(rng) if raw and rng.random() < 0.3 else None,
                lengths=rng.choice([[1], [2, 3], [1, 4], [3, 1, 2]]), xamp=1)
    args.update(kw)
    return TI(rng, D, **args)


def random_born(rng, uniform=None, embedded=None, **kw):
    f32, f64 = torch.float32, torch.float64
    unif = rng.random() < 0.5 if uniform is None else uniform
    dtype = rng.choice([f64, f64, f32])
    dom = Domain("none")
    if rng.random() < 0.3 if embedded is None else embedded:
        dom = Domain("table", table=gint(rng, [rng.choice([2, 3]), rng.choice([1, 2, 3])], 1, False, dtype))
        if dom.table.abs().sum() == 0:
            dom.table[0, 0] = 1
    n = rng.choice([1, 2, 3])
    return BornCase(rng, n, rng.choice([2, 3]) if dom.kind == "none" else dom.emb_dim, rng.choice([1, 2, 3]),
                    uniform=unif, cplx=rng.random() < 0.4, bias=rng.random() < 0.4, dtype=dtype, domain=dom,
                    lengths=rng.choice([[1], [2, 1], [0, 3], [3, 2]]) if unif else [n], **kw)


def family(c, name):
    rng = c.rng
    if name == "buffers":
        return ChainFamily(c, random_ti(rng, buffers=True, bias=rng.choice(["fixed", "fixed", "none"])))
    if name == "sup":
        return ChainFamily(c, random_sup(rng))
    if name == "ti":
        return ChainFamily(c, random_ti(rng))
    return BornFamily(c, random_born(rng))


def replay(c, name, history):
    fam = family(c, name)
    fam.start()
    c.set(history=history)
    for a in history:
        if a["op"] == "update":
            fam.update(a["m"], a["way"])
        elif a["op"] == "eval":
            fam.evaluate(a["m"], a["size"], c.rng.choice(HOWS))
        elif a["op"] == "refused":
            fam.refused(a["m"])
        elif a["op"] == "copy":
            fam.copy(a["m"], a["how"])
        elif a["op"] == "assign":
            fam.assign(a["m"], a["from"])
    for m in range(1, len(fam.insts) + 1):
        fam.evaluate(m, c.rng.choice([1, 2, 4]), c.rng.choice(HOWS))
