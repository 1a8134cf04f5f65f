"""C02: the evaluation strategy never changes a result"""
import copy

import torch

from drivers import c04, life
from drivers.born import (BornCase, Domain, OPTIONS, gint, grad_event, loss_event, norm_event, options,
                          small_rows, vec_grad_event, weights_event)
from drivers.born import build
from drivers.chain import TI, Sup, back_event, grads_event, rows_event, xgrads_event
from drivers.sup import gen_params


class Sub:
    """Runs the cases of another driver under other names"""

    def __init__(self, rec, prefix, judge, factor):
        self.rec, self.prefix, self.judge, self.factor = rec, prefix, judge, factor

    def __getattr__(self, name):
        return getattr(self.rec, name)

    def cases(self, kind, quick, thorough=None):
        return self.rec.cases(self.prefix + kind, max(1, int(quick * self.factor)),
                              max(1, int((thorough or 10 * quick) * self.factor)))

    def case(self, kind, i):
        case = self.rec.case(self.prefix + kind, i)
        case.set(judge=self.judge)
        return case


def strategies(c, sc, twins):
    """Instances with equal parameters which evaluate the same batches"""
    rng = c.rng
    c.set(judge="J_Chain", models=[sc.spec() for _ in twins], dtype=str(sc.dtype), style=sc.style)
    for rnd in range(2):
        x, idx = sc.batch(rng.choice([1, 2, 3, 5]))
        want_grad = rng.random() < 0.8
        order = list(enumerate(twins, 1))
        rng.shuffle(order)
        state = rng.getstate()
        for m, model in order:
            items = x if isinstance(x, list) else [x]
            xs = [t.clone().requires_grad_(want_grad) for t in items]
            arg = xs if isinstance(x, list) else xs[0]
            if want_grad:
                rng.setstate(state)  # the same combination of outputs for all
                out, w = back_event(c, m, model, arg, sc.rows, idx, sc.width(), rng)
                grads_event(c, m, sc.entries(model), rng, how=f"strategy {m}", limit=8)

                class G:
                    grad = [t.grad for t in xs] if isinstance(x, list) else xs[0].grad
                xgrads_event(c, m, G, sc.rows, idx, w, rng, how=f"strategy {m}", limit=6)
            else:
                with torch.no_grad():
                    out = model(arg)
            rows_event(c, m, sc.rows, idx, out, f"strategy {m}")
        # The flag may be changed on a living model
        if rnd == 0 and rng.random() < 0.5:
            model = twins[0]
            reg = model if isinstance(sc, TI) else model.linear_region
            reg.parallel_eval = not reg.parallel_eval


def pair(sc, **kw):
    out = []
    for par in (False, True):
        sc.parallel = par
        out.append(sc.make(**kw))
    return out


def drive(rec):
    f32, f64 = torch.float32, torch.float64
    combos = [(N, lab, per, bias) for N in (1, 2, 3, 4, 5) for lab in range(N + 1)
              for per in (False, True) for bias in (False, True)]
    for i in rec.cases("sup", len(combos), 8 * len(combos)):
        with rec.case("sup", i) as c:
            rng = c.rng
            N, lab, per, bias = combos[i % len(combos)]
            raw = rng.random() < 0.5
            sc = Sup(rng, N, rng.randint(1, 3), d=2 if raw else rng.choice([1, 2, 3]), O=rng.randint(1, 3),
                     label=lab, periodic=per, bias=bias, raw=raw, dtype=rng.choice([f64, f64, f32]), amp=1,
                     xamp=rng.choice([1, 2]))
            strategies(c, sc, pair(sc))
    for i in rec.cases("long", 30, 400):
        with rec.case("long", i) as c:
            rng = c.rng
            what = i % 3
            N, D, style = rng.choice([7, 8, 9]), 2, "mixed"
            if what == 0:
                N, style = rng.choice([15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 129, 303, 513, 602]), "mono"
            elif what == 1:
                D, N = rng.choice([5, 8, 9, 12, 16, 17]), rng.choice([3, 4, 7])
            sc = Sup(rng, N, D, d=rng.choice([2, 3]), O=2, label=rng.choice([None, 0, N, rng.randint(0, N)]),
                     periodic=rng.random() < 0.4, bias=rng.random() < 0.4, raw=False, style=style, amp=1, xamp=1)
            strategies(c, sc, pair(sc))
    for i in rec.cases("ti", 60, 800):
        with rec.case("ti", i) as c:
            rng = c.rng
            kw = {}
            if rng.random() < 0.3:
                kw = dict(lengths=rng.choice([[5, 6, 7, 8], [9, 3], [16, 17], [33, 15]]), style="nil", raw=False,
                          fmap=None, d=2)
            sc = life.random_ti(rng, **kw)
            strategies(c, sc, pair(sc))

    combos = [(unif, n, cplx, bias) for unif in (False, True) for n in (1, 2, 3, 4)
              for cplx in (False, True) for bias in (False, True)]
    for i in rec.cases("born", 2 * len(combos), 12 * len(combos)):
        with rec.case("born", i) as c:
            rng = c.rng
            unif, n, cplx, bias = combos[i % len(combos)]
            dom = Domain("none")
            if rng.random() < 0.3:
                dom = Domain("table", table=gint(rng, [rng.choice([2, 3]), rng.choice([1, 2, 3])], 1, False, f64))
                dom.table[0, 0] = 1
            bc = BornCase(rng, n, rng.choice([2, 3]) if dom.kind == "none" else dom.emb_dim,
                          rng.choice([1, 2, 3]), uniform=unif, cplx=cplx, bias=bias, domain=dom,
                          dtype=f64 if dom.kind != "none" else rng.choice([f64, f64, f32]), lengths=[n])
            model = build(c, bc)
            bc.par.install(model, "load")
            c.set(judge="J_Born", model=bc.par.spec())
            rows = bc.index_rows(n, 6)
            srows = small_rows(bc, bc.par, n, 3)
            vrows = bc.vec_rows(bc.par, n, 2, cplx=cplx and rng.random() < 0.5) if dom.kind == "none" else []
            opts = options(bias)
            rng.shuffle(opts)
            for opt in opts:
                weights_event(c, bc, model, n, rows, opt, how=rng.choice(["", "no_grad"]))
                if vrows:
                    weights_event(c, bc, model, n, vrows, opt, vec=True)
                    vec_grad_event(c, bc, model, bc.par, n, opt, cplx=cplx and rng.random() < 0.3, limit=4)
                if srows:
                    loss_event(c, bc, model, n, srows, opt)
                    grad_event(c, bc, model, bc.par, n, srows, opt, limit=3, splits=rng.choice([1, 2]))
            norm_event(c, bc, model, n)
    c04.drive(Sub(rec, "matseq-", "J_C04", 0.3))
