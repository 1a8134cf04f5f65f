"""C06: fixed-length probabilistic MPS follows the normalised Born rule"""
import copy

import torch

from drivers import fresh
from drivers.born import (BornCase, build, loss_event, norm_event, options, small_rows, weights_event)

HOWS = ["", "", "no_grad", "inference", "noncontiguous"]


def evaluate(c, bc, model, n, full=True, m=1):
    rng = c.rng
    norm_event(c, bc, model, n, m=m)
    for opt in options(bc.bias):
        rows = bc.index_rows(n, 64 if full else 4)
        weights_event(c, bc, model, n, rows, opt, m=m, how=rng.choice(HOWS))
        if bc.domain.kind == "none":
            vrows = bc.vec_rows(bc.par, n, rng.randint(1, 3), cplx=bc.cplx and rng.random() < 0.5)
            if vrows:
                weights_event(c, bc, model, n, vrows, opt, vec=True, m=m,
                              how=rng.choice(HOWS + ["grad input"]))
        lrows = small_rows(bc, bc.par, n, rng.randint(1, 3))
        if lrows:
            loss_event(c, bc, model, n, lrows, opt, m=m)
    norm_event(c, bc, model, n, m=m)


def session(c, bc, full=True, sizes=()):
    rng = c.rng
    model = build(c, bc)
    bc.par.install(model, "load")
    c.set(n=bc.n, model=bc.par.spec(), style=bc.style, dtype=str(bc.dtype))
    evaluate(c, bc, model, bc.n, full)
    for size in sizes:
        weights_event(c, bc, model, bc.n, bc.index_rows(bc.n, 5), rng.choice(options(bc.bias)), size=size)
    bc.par = bc.new_params()
    bc.par.install(model, rng.choice(["copy", "data", "step", "load"]))
    c.ev("params", m=1, model=bc.par.spec())
    evaluate(c, bc, copy.deepcopy(model) if rng.random() < 0.3 else model, bc.n, full=False)


def drive(rec):
    f32, f64 = torch.float32, torch.float64
    combos = [(n, d, D, cplx, bias) for n in (1, 2, 3) for d in (1, 2, 3) for D in (1, 2, 3)
              for cplx in (False, True) for bias in (False, True)]
    for i in rec.cases("small", len(combos), 4 * len(combos)):
        with rec.case("small", i) as c:
            n, d, D, cplx, bias = combos[i % len(combos)]
            bc = BornCase(c.rng, n, d, D, cplx=cplx, bias=bias, amp=c.rng.choice([1, 2]),
                          dtype=c.rng.choice([f64, f64, f32]))
            session(c, bc)
    for i in rec.cases("random", 70, 1500):
        with rec.case("random", i) as c:
            rng = c.rng
            bc = BornCase(rng, rng.choice([2, 3, 4, 5, 6, 7, 8, 9]), rng.choice([2, 3, 4]), rng.choice([1, 2, 3, 4]),
                          cplx=rng.random() < 0.5, bias=rng.random() < 0.4,
                          style=rng.choice(["dense", "sparse", "mixed", "mixed"]),
                          dtype=rng.choice([f64, f64, f32]))
            session(c, bc, full=False)
    for i in rec.cases("large", 40, 300):
        with rec.case("large", i) as c:
            rng = c.rng
            what = i % 4
            n, d, D, sizes = 3, 2, 2, []
            if what == 0:
                n = rng.choice([16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 200, 402, 513, 602])
            elif what == 1:
                D = rng.choice([8, 9, 12, 16, 17, 20])
            elif what == 2:
                d = rng.choice([6, 8, 10, 16, 26, 33, 130, 200, 257, 300])
                n = 2 if d > 100 else n
            else:
                sizes = [rng.choice([32, 33, 64, 100, 127, 128, 129, 256, 257, 500, 1000, 1025, 2000])]
            bc = BornCase(rng, n, d, D, cplx=rng.random() < 0.5, bias=what != 0 and rng.random() < 0.3,
                          style=rng.choice(["mixed", "mono"]) if what < 2 else "perms" if d > 100 else "mixed")
            session(c, bc, full=what == 2, sizes=sizes)
    fresh.drive(rec, dict(born=lambda c: fresh.born(c, uniform=False, embedded=False)))
