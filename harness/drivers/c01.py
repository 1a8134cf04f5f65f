"""C01: a supervised MPS computes exactly the contraction of its cores"""
import copy

import torch

from drivers import fresh
from drivers.sup import SupCase, noncontiguous, rows_event

HOWS = ["plain", "no_grad", "eval", "inference", "noncontiguous", "grad input", "deepcopy", "again"]


def evaluate(c, sc, model, how, size):
    x, idx = sc.batch(size)
    if how == "noncontiguous":
        x = noncontiguous(x)
    elif how == "grad input":
        x.requires_grad_(True)
    elif how == "deepcopy":
        model = copy.deepcopy(model)
    elif how == "eval":
        model.eval()
    if how == "no_grad":
        with torch.no_grad():
            y = model(x)
    elif how == "inference":
        with torch.inference_mode():
            y = model(x)
    else:
        y = model(x)
    if how == "again":
        y = model(x)
    model.train()
    rows_event(c, "rows", sc.rows, idx, y, how, size)


def session(c, sc, sizes, hows, updates=("load",)):
    rng = c.rng
    torch.set_default_dtype(sc.dtype if rng.random() < 0.7 else torch.float32)
    model = sc.build()
    torch.set_default_dtype(torch.float32)
    if sc.dtype == torch.float64:
        model = model.double()
    sc.par.install(model, "load")
    c.set(**sc.config())
    for size, how in zip(sizes, hows):
        evaluate(c, sc, model, how, size)
    for up in updates:
        sc.par = sc.new_params()
        if sc.rows[0].ndim == 1 or True:
            pass
        sc.par.install(model, up)
        c.ev("params", **sc.par.spec())
        evaluate(c, sc, model, rng.choice(HOWS), rng.choice(sizes))


def drive(rec):
    f32, f64 = torch.float32, torch.float64

    # Every label position of short chains, both boundary conditions
    combos = [
        (N, lab, per, bias, par)
        for N in range(1, 7)
        for lab in range(N + 1)
        for per in (False, True)
        for bias in (False, True)
        for par in (False, True)
    ]
    for i in rec.cases("every-label", len(combos)):
        if i >= len(combos):
            continue
        with rec.case("every-label", i) as c:
            rng = c.rng
            N, lab, per, bias, par = combos[i]
            sc = SupCase(rng, N, rng.randint(1, 4), d=2, O=rng.randint(1, 4), label=lab,
                         periodic=per, parallel=par, bias=bias, raw=rng.random() < 0.5,
                         dtype=rng.choice([f64, f64, f32]))
            session(c, sc, [rng.randint(1, 5), 1], [rng.choice(HOWS), rng.choice(HOWS)],
                    [rng.choice(["load", "copy", "data", "step"])])

    # Small random models in all respects
    for i in rec.cases("random", 200, 4000):
        with rec.case("random", i) as c:
            rng = c.rng
            N = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12])
            raw = rng.random() < 0.4
            d = 2 if raw else rng.choice([1, 2, 3, 4, 5])
            path, total = None, None
            if rng.random() < 0.4:
                total = rng.randint(max(1, N - 2), N + 5)
                mode = rng.random()
                if mode < 0.3 and total >= N:
                    path = rng.sample(range(total), N)
                elif mode < 0.5 and total >= N:
                    path = sorted(rng.sample(range(total), N))
                else:
                    path = [rng.randrange(total) for _ in range(N)]
            sc = SupCase(rng, N, rng.choice([1, 2, 2, 3, 4, 5]), d=d, O=rng.choice([1, 2, 3, 5, 10]),
                         label=rng.choice([None] + list(range(N + 1))),
                         periodic=rng.random() < 0.4, parallel=rng.random() < 0.4,
                         bias=rng.random() < 0.5, path=path, total=total, raw=raw,
                         dtype=rng.choice([f64, f64, f32]),
                         style=rng.choice(["dense", "dense", "sparse", "mixed"]),
                         amp=rng.choice([1, 2, 3]), rows=rng.randint(1, 4),
                         path_tensor=rng.random() < 0.4)
            n = rng.randint(1, 3)
            session(c, sc, [rng.choice([1, 2, 3, 4, 7]) for _ in range(n)],
                    [rng.choice(HOWS) for _ in range(n)],
                    [rng.choice(["load", "copy", "data", "step"])])

    # Sizes which cross possible thresholds: long chains, wide bonds, large
    # batches, many outputs and features
    for i in rec.cases("large", 48, 400):
        with rec.case("large", i) as c:
            rng = c.rng
            what = i % 4
            N, D, d, O, B = 4, 2, 2, 2, 3
            style = "mixed"
            if what == 0:
                N = rng.choice([15, 16, 17, 31, 32, 33, 50, 63, 64, 65, 100, 128, 129, 200, 257, 401, 513, 700])
                D = rng.choice([2, 3, 4])
                style = rng.choice(["mono", "nil"])
            elif what == 1:
                D = rng.choice([8, 9, 10, 12, 16, 17, 20, 24, 32, 33])
                N = rng.choice([2, 3, 5])
                style = rng.choice(["mixed", "sparse"])
            elif what == 2:
                B = rng.choice([16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257,
                                500, 513, 1000, 1024, 1025, 2049, 5000])
                style = "dense"
            else:
                d = rng.choice([6, 8, 10, 16, 20])
                O = rng.choice([9, 10, 16, 26, 27, 30, 50, 100])
                N = rng.choice([3, 4, 5])
                style = "sparse"
            sc = SupCase(rng, N, D, d=d, O=O, label=rng.choice([None, 0, N, rng.randint(0, N)]),
                         periodic=rng.random() < 0.4, parallel=rng.random() < 0.5,
                         bias=rng.random() < 0.5, raw=d == 2 and rng.random() < 0.5,
                         dtype=rng.choice([f64, f64, f32]) if style not in ("dense",) else f64,
                         style=style, amp=1, rows=min(4, B), xamp=1)
            session(c, sc, [B, rng.choice([1, 2, B])], [rng.choice(HOWS), rng.choice(HOWS)], ["copy"])
    fresh.drive(rec, dict(sup=fresh.sup))
