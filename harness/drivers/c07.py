"""C07: uniform probabilistic MPS is normalised at every sequence length"""
import copy

import torch

from drivers import fresh
from drivers.born import BornCase, loss_event, norm_event, options, small_rows, weights_event
from drivers.born import build
from drivers.c06 import HOWS


def visit(c, bc, model, n, full):
    rng = c.rng
    if rng.random() < 0.6:
        norm_event(c, bc, model, n)
    opts = options(bc.bias)
    for opt in rng.sample(opts, rng.randint(1, len(opts))):
        weights_event(c, bc, model, n, bc.index_rows(n, 40 if full else 4), opt, how=rng.choice(HOWS))
        if rng.random() < 0.5:
            v = bc.vec_rows(bc.par, n, rng.randint(1, 3), cplx=bc.cplx and rng.random() < 0.5)
            if v:
                weights_event(c, bc, model, n, v, opt, vec=True, how=rng.choice(HOWS))
        lrows = small_rows(bc, bc.par, n, rng.randint(1, 3))
        if lrows and rng.random() < 0.5:
            loss_event(c, bc, model, n, lrows, opt)
    norm_event(c, bc, model, n)


def drive(rec):
    f32, f64 = torch.float32, torch.float64
    combos = [(d, D, cplx, bias) for d in (1, 2, 3) for D in (1, 2, 3)
              for cplx in (False, True) for bias in (False, True)]
    for i in rec.cases("lengths", 2 * len(combos), 20 * len(combos)):
        with rec.case("lengths", i) as c:
            rng = c.rng
            d, D, cplx, bias = combos[i % len(combos)]
            lengths = rng.choice([[0, 1, 2, 3, 4], [3, 0, 2, 1], [5, 1, 5, 2], [2, 6, 0, 3], [4, 7, 4, 1, 0]])
            bc = BornCase(rng, None, d, D, uniform=True, cplx=cplx, bias=bias,
                          dtype=rng.choice([f64, f64, f32]), lengths=lengths,
                          style=rng.choice(["dense", "sparse", "mixed"]))
            model = build(c, bc)
            bc.par.install(model, "load")
            c.set(model=bc.par.spec(), lengths=lengths)
            order = list(lengths)
            rng.shuffle(order)
            for n in order:
                visit(c, bc, model, n, full=True)
            bc.par = bc.new_params()
            bc.par.install(model, rng.choice(["copy", "data", "step", "load"]))
            c.ev("params", m=1, model=bc.par.spec())
            rng.shuffle(order)
            if rng.random() < 0.3:
                model = copy.deepcopy(model)
            for n in order[:2]:
                visit(c, bc, model, n, full=False)
    for i in rec.cases("large", 30, 300):
        with rec.case("large", i) as c:
            rng = c.rng
            what = i % 3
            d, D, lengths = 2, rng.choice([2, 3]), [0, 3, 2]
            if what == 0:
                lengths = rng.sample([0, 1, 15, 16, 17, 31, 32, 33, 64, 65, 100, 129, 200, 402, 513, 602], 4)
            elif what == 1:
                D = rng.choice([8, 9, 12, 16, 17])
            else:
                d = rng.choice([6, 8, 10, 16, 26, 33, 130, 200, 257, 300])
                lengths = [0, 2, 1] if d > 100 else lengths
            bc = BornCase(rng, None, d, D, uniform=True, cplx=rng.random() < 0.5,
                          bias=what and rng.random() < 0.3, lengths=lengths,
                          style="mono" if what == 0 else "perms" if d > 100 else rng.choice(["mono", "mixed"]))
            model = build(c, bc)
            bc.par.install(model, "load")
            c.set(model=bc.par.spec(), lengths=lengths)
            for n in lengths:
                visit(c, bc, model, n, full=d > 100)
                weights_event(c, bc, model, n, bc.index_rows(n, 4), rng.choice(options(bc.bias)),
                              size=rng.choice([1, 2, 33, 64, 129, 300]))
    fresh.drive(rec, dict(born=lambda c: fresh.born(c, uniform=True, embedded=False)))
