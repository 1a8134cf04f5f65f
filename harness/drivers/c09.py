"""C09: a trainable embedding and its normalisation never go out of step"""
import copy
import io
import pickle

import torch

from drivers import fresh
from drivers.born import (BornCase, Domain, gint, grad_event, loss_event, norm_event, options,
                          small_rows, weights_event)
from drivers.born import build

WAYS = {"copy_": "copy", "data": "data", "step": "step", "load": "load"}


def new_domain(rng, like, dtype):
    """Another embedding of the same domain"""
    for _ in range(100):
        if like.kind == "table":
            t = gint(rng, list(like.table.shape), 2, like.table.is_complex(), dtype)
            if t.abs().sum() == 0:
                continue
            return Domain("table", table=t, shift=like.shift)
        co = gint(rng, list(like.coefs.shape), 1, False, dtype)
        if co.abs().sum() > 0:
            return Domain("poly", coefs=co, lo=like.lo, hi=like.hi, shift=like.shift)


class Instance:
    def __init__(self, model, par):
        self.model, self.par = model, par


def parameter(model):
    emb = [p for k, p in model.embedding.named_parameters()]
    assert len(emb) == 1
    return emb[0]


def facts(c, model):
    """The parameters of the embedding belong to the model"""
    p = parameter(model)
    c.ev("fact", holds=any(q is p for q in model.parameters()) and p.requires_grad,
         what="parameters of the embedding aren't parameters of the model")
    sd = model.state_dict()
    c.ev("fact", holds=any(v.data_ptr() == p.data_ptr() for v in sd.values()),
         what="parameters of the embedding aren't in the state dictionary")
    c.ev("fact", holds=len(list(model.parameters())) == 3 + hasattr(model, "bias_mat")
         and len(set(map(id, model.parameters()))) == len(list(model.parameters())),
         what="list of parameters")


def evaluate(c, bc, inst, m, how, lengths):
    rng = c.rng
    n = rng.choice(lengths)
    opt = rng.choice(options(bc.bias))
    bc.par = inst.par
    bc.domain = inst.par.domain
    if how == "backward":
        rows = small_rows(bc, inst.par, n, rng.randint(1, 2)) if n else []
        if rows and grad_event(c, bc, inst.model, inst.par, n, rows, opt, m=m, limit=14,
                               splits=rng.choice([1, 1, 2]), loss=rng.random() < 0.5):
            return
    if how == "loss":
        rows = small_rows(bc, inst.par, n, 3)
        if rows:
            loss_event(c, bc, inst.model, n, rows, opt, m=m)
    elif rng.random() < 0.3:
        norm_event(c, bc, inst.model, n, m=m)
    weights_event(c, bc, inst.model, n, bc.index_rows(n, 5), opt, m=m,
                  how="no_grad" if how == "no_grad" else "")
    norm_event(c, bc, inst.model, n, m=m)


def make_case(rng, kind):
    f32, f64 = torch.float32, torch.float64
    dtype = rng.choice([f64, f64, f32])
    cplx, bias, unif = rng.random() < 0.4, rng.random() < 0.4, rng.random() < 0.5
    if kind == "interval":
        deg = rng.choice([1, 1, 2])
        lo = rng.choice([0, -1, 1])
        dom = Domain("poly", coefs=torch.zeros(rng.choice([1, 2]), deg + 1), lo=lo, hi=lo + rng.choice([1, 2]),
                     shift=rng.choice([0, 0, -12]))
    else:
        t = torch.zeros(rng.choice([2, 3]), rng.choice([1, 2, 3]),
                        dtype=torch.complex64 if cplx and rng.random() < 0.5 else f32)
        dom = Domain("table", table=t, shift=rng.choice([0, 0, 0, 6, -15]))
    dom = new_domain(rng, dom, dtype)
    lengths = rng.choice([[1], [2], [2, 1], [3, 0, 1]]) if unif else [rng.choice([1, 2, 3])]
    if kind == "interval":
        lengths = [min(n, 2) for n in lengths]
    bc = BornCase(rng, lengths[0], dom.emb_dim, rng.choice([1, 2]), uniform=unif, cplx=cplx, bias=bias,
                  domain=dom, dtype=dtype, lengths=lengths,
                  style=rng.choice(["dense", "sparse"]) if kind != "interval" else "sparse")
    if kind == "interval" or dtype == f32:
        bc.limit = min(bc.limit, 500)
        bc.par = bc.new_params()

    return bc, lengths


def replay(c, rec, history, kind):
    rng, f32 = c.rng, torch.float32
    bc, lengths = make_case(rng, kind)
    dtype, cplx = bc.dtype, bc.cplx

    def new_model():
        torch.set_default_dtype(dtype)
        model = bc.build(trainable=True)
        torch.set_default_dtype(f32)
        return model

    model = new_model()
    bc.par.install(model, "load")
    c.set(model=bc.par.spec(), history=history, dtype=str(dtype), lengths=lengths)
    insts = [Instance(model, bc.par)]
    facts(c, model)
    for a in history:
        inst = insts[a["m"] - 1]
        if a["op"] == "update":
            bc.domain = inst.par.domain
            inst.par = bc.new_params(new_domain(rng, inst.par.domain, dtype))
            if rng.random() < 0.4:
                # Only the embedding changes
                par = copy.copy(inst.par)
                old = insts[a["m"] - 1].par
                inst.par = par
            inst.par.install(inst.model, WAYS[a["way"]])
            c.ev("params", m=a["m"], model=inst.par.spec())
        elif a["op"] == "eval":
            evaluate(c, bc, inst, a["m"], a["how"], lengths)
        elif a["op"] == "copy":
            if a["how"] == "deepcopy":
                new = copy.deepcopy(inst.model)
            elif a["how"] == "pickle":
                new = pickle.loads(pickle.dumps(inst.model))
            else:
                buf = io.BytesIO()
                torch.save(inst.model.state_dict(), buf)
                buf.seek(0)
                new = new_model()
                if rng.random() < 0.5:
                    new(bc.tensor(bc.index_rows(lengths[0], 2)))
                new.load_state_dict(torch.load(buf))
            insts.append(Instance(new, inst.par))
            c.ev("copy", m=a["m"])
            facts(c, new)
        elif a["op"] == "assign":
            inst.model.load_state_dict(insts[a["from"] - 1].model.state_dict())
            inst.par = insts[a["from"] - 1].par
            c.ev("assign", m=a["m"], **{"from": a["from"]})
        elif a["op"] == "convert":
            if a["how"] == "double":
                if not cplx:
                    inst.model.double()
            elif a["how"] == "train":
                inst.model.train()
            else:
                inst.model.eval()
    for m, inst in enumerate(insts, 1):
        evaluate(c, bc, inst, m, "plain", lengths)
        evaluate(c, bc, inst, m, "backward", lengths)
    facts(c, insts[0].model)


def drive(rec):
    for name in ("short", "long"):
        hs = rec.behaviours[name]
        for kind in ("table", "interval"):
            for i in rec.cases(f"{name}-{kind}", len(hs), len(hs)):
                with rec.case(f"{name}-{kind}", i) as c:
                    replay(c, rec, hs[i], kind)
    fresh.drive(rec, dict(
        table=lambda c: fresh.Born(c, make_case(c.rng, "table")[0], True, new_domain),
        interval=lambda c: fresh.Born(c, make_case(c.rng, "interval")[0], True, new_domain)), 18)
