"""C15: sequence models use one core everywhere, and padding has no effect"""
import itertools

import torch

from drivers import fresh
from drivers.chain import TI, poly_map, rows_event
from drivers.lib import mod
from drivers.life import must_raise

f32, f64 = torch.float32, torch.float64
FMAPS = [None, None, [[1, 1], [0, 2]], [[1, -1, 1], [0, 1, 0], [2, 0, -1]], [[0, 1]], [[1, 2, 0], [3, 0, -1]]]


def start(c, ti, **kw):
    model = ti.make()
    c.set(models=[ti.spec()], D=ti.D, bias=ti.bias, ends=ti.fixed_ends, raw=ti.raw, dtype=str(ti.dtype), **kw)
    return model


def call(c, ti, model, x, idx, how, as_tensor=None):
    """One call, which leaves its arguments as they were"""
    before = [t.clone() for t in (x if isinstance(x, list) else [x])]
    ids = [id(t) for t in x] if isinstance(x, list) else None
    with torch.no_grad():
        out = model(x)
    after = x if isinstance(x, list) else [x]
    if len(before) != len(after) or any(not torch.equal(a, b) for a, b in zip(before, after)) \
            or (ids is not None and ids != [id(t) for t in x]):
        c.ev("fact", holds=False, what="the input was modified")
    rows_event(c, 1, ti.rows, idx, out, how)
    return out


def refused(c, ti, model):
    """Unequal lengths without a fixed bias"""
    rng = c.rng
    shape = (lambda n: [n]) if ti.raw else (lambda n: [n, ti.d])
    a, b = rng.sample(range(1, 6), 2)
    xs = [torch.ones(shape(a), dtype=ti.dtype), torch.ones(shape(b), dtype=ti.dtype)]
    if rng.random() < 0.4:
        xs = xs[:1] * rng.randint(1, 3) + xs[1:] * rng.randint(1, 2)
    must_raise(c, lambda: model(xs), "sequences of unequal length were accepted without a fixed bias")


class Pole(TI):
    """Raw data x with the features x and 6/x"""

    def new_row(self, n):
        x = torch.tensor([self.rng.choice([1, 2, 3, 6, -1, -2, -3, -6]) for _ in range(n)], dtype=self.dtype)
        return torch.stack([x, 6 / x], dim=1).round()


class PoleMap(torch.nn.Module):
    def __init__(self, dtype):
        super().__init__()
        self.weight = torch.nn.Parameter(torch.tensor([1, 6], dtype=dtype))

    def forward(self, x):
        return torch.stack([x * self.weight[0], self.weight[1] / x])


def drive(rec):
    combos = list(itertools.product(["fixed", "fixed", "trainable", "none"], [False, True], [False, True],
                                    [True, False], FMAPS))
    for i in rec.cases("lists", len(combos), 8 * len(combos)):
        with rec.case("lists", i) as c:
            rng = c.rng
            bias, ends, par, raw, fmap = combos[i % len(combos)]
            D = rng.choice([1, 2, 3, 4])
            lens = rng.choice([(1, 2, 3), (1, 4), (2, 2, 5), (0, 1, 3), (3,), (1, 2, 4, 7), (5, 5, 6), (0, 2)])
            if fmap is None and raw:
                d = 2
            else:
                d = rng.choice([1, 2, 3])
            if not raw:
                fmap = None
            ti = TI(rng, D, d=d, O=rng.randint(1, D) if ends else rng.choice([1, 2, 3, 5]), bias=bias,
                    fixed_ends=ends, parallel=par, dtype=rng.choice([f64, f64, f64, f32]), fmap=fmap, raw=raw,
                    lengths=lens, xamp=rng.choice([1, 2]), rows=max(3, len(lens)))
            model = start(c, ti)
            for _ in range(4):
                x, idx = ti.batch(rng.choice([1, 2, 3, len(ti.rows), len(ti.rows) + 3]))
                call(c, ti, model, x, idx, "list" if isinstance(x, list) else "tensor")
            if bias != "fixed":
                refused(c, ti, model)
                x, idx = ti.batch(2)
                call(c, ti, model, x, idx, "after a refused call")
            elif len(set(map(len, ti.rows))) > 1:
                # All of them together, in both orders
                idx = list(range(len(ti.rows)))
                for order in (idx, idx[::-1]):
                    call(c, ti, model, [ti.rows[j].clone() for j in order], order, "all lengths")
                # Alone
                for j in idx:
                    call(c, ti, model, [ti.rows[j].clone()], [j], "alone")
                    call(c, ti, model, ti.rows[j].clone()[None], [j], "alone, as tensor")
    # Raw data of other types
    for i in rec.cases("types", 32, 200):
        with rec.case("types", i) as c:
            rng = c.rng
            bias = rng.choice(["fixed", "fixed", "trainable", "none"])
            ti = TI(rng, rng.choice([1, 2, 3]), O=1, bias=bias, parallel=rng.random() < 0.5, raw=True,
                    lengths=(3, 3, 1) if bias == "fixed" else (3,), xamp=2,
                    fmap=rng.choice([None, [[1, 2, 0], [3, 0, -1]]]), dtype=rng.choice([f32, f64]))
            model = start(c, ti, how="types")
            kind = rng.choice([torch.int64, torch.int32, f32, f64] if ti.fmap is None else [ti.dtype])
            x, idx = ti.batch(3)
            x = [t.to(kind) for t in x] if isinstance(x, list) else x.to(kind)
            with torch.no_grad():
                out = model(x)
            rows_event(c, 1, ti.rows, idx, out, str(kind))
            # Views and non-contiguous tensors
            x, idx = ti.batch(3)
            wide = [torch.stack([t, -t - 1], dim=1)[:, 0] for t in (x if isinstance(x, list) else list(x))]
            with torch.no_grad():
                out = model(wide if isinstance(x, list) else x.t().contiguous().t())
            rows_event(c, 1, ti.rows, idx, out, "views")
    # Sequences of different types in one list, and data which hardly differ
    for i in rec.cases("mixed", 32, 300):
        with rec.case("mixed", i) as c:
            rng = c.rng
            zoom = rng.choice([2, 2, 2 ** 7, 2 ** 14])
            ti = TI(rng, rng.choice([1, 2, 3]), O=rng.choice([1, 2]), bias="fixed", parallel=rng.random() < 0.5,
                    raw=True, lengths=rng.choice([(3, 3, 1), (1, 2, 4), (2, 3)]), xamp=2, rows=4,
                    fmap=rng.choice([m for m in FMAPS if m]), dtype=rng.choice([f32, f64]))
            if zoom == 2:
                ti.rows[0] = 2 * (ti.rows[0] / 2).trunc()
            model = start(c, ti, how="mixed")
            inner = poly_map(ti.fmap)
            model.register_feature_map(lambda x: inner(zoom * x))
            for _ in range(4):
                x, idx = ti.batch(rng.choice([1, 2, 4]), as_list=True)
                x = [t / zoom for t in x]
                for n, t in enumerate(x):
                    if torch.equal(t, t.round()):
                        x[n] = t.to(rng.choice([torch.int64, torch.int32, f32]))
                    elif rng.random() < 0.5:
                        x[n] = t.to(rng.choice([f32, f64]))
                x = sorted(zip(x, idx), key=lambda p: p[0].is_floating_point())
                idx, x = [j for _, j in x], [t for t, _ in x]
                call(c, ti, model, x, idx, "types in one list")
            # Embedded data of different types
            emb = [ti.feats(r) for r in ti.rows]
            types = [rng.choice([torch.int64, torch.int32, f32, f64]) for _ in emb]
            with torch.no_grad():
                out = model([t.to(k) for t, k in zip(emb, types)])
            rows_event(c, 1, emb, list(range(len(emb))), out, "embedded types in one list")
    # Feature maps which have no values for the padding
    for i in rec.cases("pole", 24, 200):
        with rec.case("pole", i) as c:
            rng = c.rng
            ti = Pole(rng, rng.choice([1, 2, 3]), d=2, O=rng.choice([1, 2]), bias="fixed", parallel=rng.random() < 0.5,
                      raw=False, lengths=rng.choice([(1, 3), (0, 2, 3), (1, 2, 4)]), rows=3,
                      dtype=rng.choice([f32, f64]))
            model = start(c, ti, how="pole")
            fmap = PoleMap(ti.dtype)
            model.register_feature_map(fmap)
            for _ in range(3):
                x, idx = ti.batch(rng.choice([2, 3, 5]), as_list=True)
                raw = [t[:, 0].clone() for t in x]
                grads = []
                for batch in ([raw], [[t] for t in raw]):
                    model.zero_grad()
                    for b in batch:
                        model(b).sum().backward()
                    grads.append([None if p.grad is None else p.grad.clone() for p in model.parameters()])
                with torch.no_grad():
                    out = model(raw)
                rows_event(c, 1, ti.rows, idx, out, "feature map with a pole")
                c.ev("fact", what="gradients of a list aren't those of its sequences",
                     holds=all(a is None and b is None or a is not None and b is not None
                               and bool(torch.isfinite(a).all()) and torch.equal(a.round(), b.round())
                               for a, b in zip(*grads)))
    # Long sequences and large batches
    big = [(2, (1, 33, 65)), (2, (64, 128, 130)), (3, (10, 100)), (8, (1, 5, 9)), (16, (2, 17)), (33, (1, 3)),
           (2, (1000, 3)), (2, tuple(range(1, 20)))]
    for i in rec.cases("large", 4 * len(big), 20 * len(big)):
        with rec.case("large", i) as c:
            rng = c.rng
            D, lens = big[i % len(big)]
            bias = rng.choice(["fixed", "fixed", "none", "trainable"])
            raw = rng.random() < 0.4
            ti = TI(rng, D, d=2, O=rng.choice([1, 2]), bias=bias, parallel=rng.random() < 0.5, raw=raw,
                    style="nil" if bias == "fixed" or D > 4 else "mono", lengths=lens,
                    rows=max(3, len(lens)), xamp=1)
            model = start(c, ti, how="large")
            for size in (len(ti.rows), rng.choice([33, 70])):
                x, idx = ti.batch(size)
                call(c, ti, model, x, idx, "large")
    fresh.drive(rec, dict(ti=fresh.ti))
