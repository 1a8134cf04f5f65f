"""C19: gradients are the exact derivatives of what the model computes"""
import torch

from drivers.born import NONE, BornCase, Domain, gint, grad_event, norm_event, options, small_rows, vec_grad_event
from drivers.born import build
from drivers.chain import (TI, PolyMap, Sup, back_event, grads_event, rows_event, xgrads_event)
from drivers.lib import rint

def freeze(model, rng):
    """Exclude some of the parameters, but not all, from training"""
    ps = [p for p in model.parameters() if p.numel()]
    for p in rng.sample(ps, rng.randint(1, len(ps) - 1)) if len(ps) > 1 else []:
        p.requires_grad_(False)


WAYS = ["copy", "load", "step", "data"]


def zero(c, model, m, rng):
    if rng.random() < 0.5:
        model.zero_grad()
    else:
        for p in model.parameters():
            p.grad = None
    c.ev("zero", m=m)


def backward(c, m, model, sc, rng, how):
    """One evaluation and backpropagation, in one of several ways"""
    ti = isinstance(sc, TI)
    x, idx = sc.batch(rng.randint(1, 4))
    raw = sc.rows[idx[0]].ndim == 1
    if how == "input":
        items = x if isinstance(x, list) else [x]
        for t in items:
            t.requires_grad_(True)
        out, w = back_event(c, m, model, x, sc.rows, idx, sc.width(), rng)
        if isinstance(x, list):
            class Grads:
                grad = [t.grad for t in x]
            xgrads_event(c, m, Grads, sc.rows, idx, w, rng)
        else:
            xgrads_event(c, m, x, sc.rows, idx, w, rng)
        return
    w = rint(rng, [len(idx), sc.width()], -2, 2, torch.float64)
    rec = lambda ids, ws: c.ev("back", m=m, raw=raw, rows=[
        dict(x=[int(v) % 46337 for v in sc.rows[i]] if raw else [[int(v) % 46337 for v in r] for r in sc.rows[i]],
             w=[int(v) % 46337 for v in ws[b]]) for b, i in enumerate(ids)])
    wt = w.to(sc.dtype)
    if how == "split":
        # The batch one row after the other
        for b in range(len(idx)):
            (model(x[b : b + 1]) * wt[b : b + 1]).sum().backward()
        rec(idx, w)
    elif how == "twice":
        loss = (model(x) * wt).sum()
        loss.backward(retain_graph=True)
        loss.backward()
        rec(idx, w)
        rec(idx, w)
    elif how == "late":
        # Another evaluation between forward and backward
        y = model(x)
        x2, _ = sc.batch(rng.randint(1, 3))
        model(x2)
        with torch.no_grad():
            model(x2)
        y.backward(wt)
        rec(idx, w)
    elif how == "jointly":
        # Two batches in one graph
        x2, idx2 = sc.batch(rng.randint(1, 3))
        w2 = rint(rng, [len(idx2), sc.width()], -2, 2, torch.float64)
        y1, y2 = model(x), model(x2)
        ((y1 * wt).sum() - 2 * (y2 * w2.to(sc.dtype)).sum()).backward()
        rec(idx, w)
        rec(idx2, -2 * w2)
    else:
        (model(x) * wt).sum().backward()
        rec(idx, w)


HOWS = ["plain", "split", "twice", "late", "jointly", "input", "input"]


def session(c, sc, steps=4, flips=True):
    rng = c.rng
    model = sc.make()
    if sc.fmap is not None and rng.random() < 0.6:
        torch.set_default_dtype(sc.dtype)
        model.register_feature_map(PolyMap([[float(v) for v in r] for r in sc.fmap]))
        torch.set_default_dtype(torch.float32)
    c.set(judge="J_Chain", models=[sc.spec()], dtype=str(sc.dtype), style=sc.style)
    if rng.random() < 0.25:
        freeze(model, rng)
    for i in range(steps):
        how = rng.choice(HOWS)
        backward(c, 1, model, sc, rng, how)
        if rng.random() < 0.6 or i == steps - 1:
            grads_event(c, 1, sc.entries(model), rng, how=how)
        if rng.random() < 0.3:
            zero(c, model, 1, rng)
        if rng.random() < 0.3:
            zero(c, model, 1, rng)
            sc.par = sc.new_params()
            way = rng.choice(WAYS)
            (sc.par.install if isinstance(sc, Sup) else lambda m, w: sc.install(m, w))(model, way) \
                if not isinstance(model.feature_map, PolyMap) else quiet_install(sc, model)
            model.zero_grad()
            c.ev("params", m=1, model=sc.spec())


def quiet_install(sc, model):
    """Parameters of the model other than those of the feature map"""
    new = sc.par.state(_Without(model)) if isinstance(sc, Sup) else sc.values()
    with torch.no_grad():
        for k, p in model.named_parameters():
            if not k.startswith("feature_map"):
                p.copy_(new[k])


class _Without:
    """The model without its feature map"""

    def __init__(self, model):
        self.model = model

    def state_dict(self):
        return {k: v for k, v in self.model.state_dict().items() if not k.startswith("feature_map")}


def gradient_safe(sc):
    """Smaller parameters, since gradients can exceed outputs"""
    return sc


def fmap_of(rng):
    n = rng.choice([1, 2, 3])
    return [[rng.randint(-1, 2) for _ in range(3)] for _ in range(n)]


def drive(rec):
    f32, f64 = torch.float32, torch.float64
    combos = [(N, lab, per, bias, par) for N in (1, 2, 3, 4) for lab in range(N + 1)
              for per in (False, True) for bias in (False, True) for par in (False, True)]
    for i in rec.cases("sup", len(combos), 8 * len(combos)):
        with rec.case("sup", i) as c:
            rng = c.rng
            N, lab, per, bias, par = combos[i % len(combos)]
            path, total = None, None
            if rng.random() < 0.3:
                total = rng.randint(1, N + 2)
                path = [rng.randrange(total) for _ in range(N)]
            raw = rng.random() < 0.5
            sc = Sup(rng, N, rng.randint(1, 3), d=2 if raw else rng.choice([1, 2, 3]), O=rng.randint(1, 3),
                     label=lab, periodic=per, parallel=par, bias=bias, raw=raw, path=path, total=total,
                     fmap=fmap_of(rng) if raw and rng.random() < 0.4 else None,
                     dtype=rng.choice([f64, f64, f32]), amp=1, xamp=rng.choice([1, 2]))
            session(c, sc)
    for i in rec.cases("ti", 90, 1500):
        with rec.case("ti", i) as c:
            rng = c.rng
            raw = rng.random() < 0.5
            D = rng.randint(1, 3)
            fixed_ends = rng.random() < 0.3
            sc = TI(rng, D, d=2 if raw else rng.choice([1, 2, 3]), O=rng.randint(1, D) if fixed_ends else rng.randint(1, 3),
                    bias=rng.choice(["fixed", "fixed", "trainable", "none"]), fixed_ends=fixed_ends,
                    parallel=rng.random() < 0.5, dtype=rng.choice([f64, f64, f32]), raw=raw,
                    fmap=fmap_of(rng) if raw and rng.random() < 0.3 else None,
                    lengths=rng.choice([[1], [2, 3], [1, 4], [3, 1, 2], [5, 2]]), xamp=1)
            session(c, sc)
    for i in rec.cases("large", 24, 300):
        with rec.case("large", i) as c:
            rng = c.rng
            what = i % 3
            N, D, d, O = 4, 2, 2, 2
            if what == 0:
                N, style = rng.choice([16, 17, 32, 33, 64, 65, 100, 129, 200]), "mono"
            elif what == 1:
                D, N, style = rng.choice([8, 9, 12, 16, 17]), 3, "mixed"
            else:
                d, O, style = rng.choice([6, 9, 16]), rng.choice([9, 16, 27]), "sparse"
            sc = Sup(rng, N, D, d=d, O=O, label=rng.choice([None, 0, N, rng.randint(0, N)]),
                     periodic=rng.random() < 0.4, parallel=rng.random() < 0.5,
                     bias=rng.random() < 0.5, raw=False, style=style, amp=1, xamp=1)
            session(c, sc, steps=2)
    combos = [(unif, n, D, cplx, bias) for unif in (False, True) for n in (1, 2, 3) for D in (1, 2)
              for cplx in (False, True) for bias in (False, True)]
    for i in rec.cases("born", len(combos), 8 * len(combos)):
        with rec.case("born", i) as c:
            rng = c.rng
            unif, n, D, cplx, bias = combos[i % len(combos)]
            dtype = rng.choice([f64, f64, f32])
            dom = Domain("none")
            if rng.random() < 0.3:
                dom = Domain("table", table=gint(rng, [rng.choice([2, 3]), rng.choice([1, 2, 3])], 1, False, dtype))
                if dom.table.abs().sum() == 0:
                    dom.table[0, 0] = 1
            d = rng.choice([2, 3]) if dom.kind == "none" else dom.emb_dim
            bc = BornCase(rng, n, d, D, uniform=unif, cplx=cplx, bias=bias, dtype=dtype, domain=dom,
                          lengths=[n] if not unif else sorted({n, rng.choice([1, 2])}))
            model = build(c, bc)
            bc.par.install(model, "load")
            c.set(judge="J_Born", model=bc.par.spec(), dtype=str(dtype))
            for rnd in range(2):
                if rng.random() < 0.25:
                    freeze(model, rng)
                for opt in options(bias):
                    for m in bc.lengths:
                        norm_event(c, bc, model, m)
                        rows = small_rows(bc, bc.par, m, rng.randint(1, 4))
                        if rows:
                            grad_event(c, bc, model, bc.par, m, rows, opt, splits=rng.choice([1, 1, 2, 3]),
                                       loss=rng.random() < 0.6, limit=30)
                        if dom.kind == "none":
                            vec_grad_event(c, bc, model, bc.par, m, opt, cplx=cplx and rng.random() < 0.4)
                for p in model.parameters():
                    p.requires_grad_(True)
                if rnd == 0:
                    bc.par = bc.new_params()
                    bc.par.install(model, rng.choice(["copy", "data", "step", "load"]))
                    c.ev("params", m=1, model=bc.par.spec())
    # Long sequences
    for i in rec.cases("born-long", 12, 120):
        with rec.case("born-long", i) as c:
            rng = c.rng
            unif, cplx, n = i % 2 == 0, rng.random() < 0.5, rng.choice([9, 16, 17, 33] if rec.quick else [9, 16, 17, 33, 50, 65])
            bc = BornCase(rng, n, rng.choice([2, 3]), 2, uniform=unif, cplx=cplx, lengths=[n], style="mono")
            model = build(c, bc)
            bc.par.install(model, "load")
            c.set(judge="J_Born", model=bc.par.spec())
            # Only some slices are nonzero
            live = [[a for a in range(bc.d) if bool((bc.par.cores if unif else bc.par.cores[t])[a].abs().any())]
                    for t in range(n)]
            rows = [[rng.choice(live[t]) for t in range(n)] for _ in range(2)]
            rows = [r for r in rows if abs(bc.par.amplitude(NONE.features(r, bc.d))) > 0.5]
            for opt in options(False):
                if rows:
                    grad_event(c, bc, model, bc.par, n, rows, opt, loss=rng.random() < 0.6, limit=4)
