"""C23: data utilities and built-in embeddings"""
import math

import numpy as np
import torch

from drivers.lib import enc1

f32, f64 = torch.float32, torch.float64


def onehots(c):
    from torchmps.utils import onehot

    rng = c.rng
    for _ in range(8):
        m, n = rng.choice([1, 2, 3, 4, 5, 6, 130, 300]), rng.choice([0, 1, 2, 3, 5, 9])
        labels = [rng.randrange(m) if rng.random() < 0.6 else m - 1 for _ in range(n)]
        if m < 7 and rng.random() < 0.1:
            labels = [rng.randrange(m) for _ in range(rng.choice([70, 130, 520]))]
            n = len(labels)
        arg = rng.choice([labels, torch.tensor(labels, dtype=torch.long), np.array(labels, dtype=int),
                          torch.tensor(labels, dtype=torch.int32)])
        out = onehot(arg, m)
        c.ev("onehot", labels=labels, lead=[n], max=m, shape=list(out.shape),
             rows=[[enc1(v) for v in r] for r in out.tolist()])


def onehot_embeds(c):
    from torchmps.embeddings import onehot_embed

    rng = c.rng
    for _ in range(8):
        lead = [rng.randint(1, 3) for _ in range(rng.randint(0, 3))]
        m = rng.choice([1, 2, 3, 4, 5, 130, 300])
        x = torch.randint(0, m, lead)
        if m > 5 and rng.random() < 0.5:
            x = m - 1 - x // 40
        out = onehot_embed(x, m)
        c.ev("onehot", labels=x.reshape(-1).tolist(), lead=lead, max=m, shape=list(out.shape),
             rows=[[enc1(v) for v in r] for r in out.reshape(-1, m).tolist()])


def shuffles(c):
    from torchmps.utils import joint_shuffle

    rng = c.rng
    for _ in range(4):
        n = rng.choice([1, 2, 3, 7, 20, 40, 130] if rng.random() < 0.9 else [257, 1100])
        order = list(range(1, n + 1))
        rng.shuffle(order)
        ids = torch.tensor(order, dtype=torch.long)

        def spread(kind):
            tail = rng.choice([[], [], [1], [2, 3], [3], [2, 1, 2]])
            t = ids.to(kind).reshape([n] + [1] * len(tail)).expand([n] + tail)
            t = t.contiguous()
            if tail and rng.random() < 0.3:  # not contiguous
                t = t.transpose(0, 1).contiguous().transpose(0, 1)
            return t

        data, labels = spread(rng.choice([f32, f64, torch.int64])), spread(rng.choice([torch.int64, f32, torch.int32]))
        for _ in range(rng.choice([1, 2, 3])):
            dshape, lshape = list(data.shape), list(labels.shape)
            data, labels = joint_shuffle(data, labels)
            d, l = data.reshape(len(data), -1), labels.reshape(len(labels), -1)
            c.ev("shuffle", dshape=list(data.shape), lshape=list(labels.shape), din=dshape, lin=lshape,
                 whole=n == 0 or bool((d == d[:, :1]).all() and (l == l[:, :1]).all()),
                 data=[int(v) for v in d[:, 0]] if n else [], labels=[int(v) for v in l[:, 0]] if n else [],
                 before=order)
        if n >= 20:
            c.ev("fact", holds=d[:, 0].tolist() != [float(v) for v in order], what="nothing was shuffled")


def stripes(c, n):
    from torchmps.utils import load_HV_data

    tx, tl, ex, el = load_HV_data(n)
    c.ev("fact", holds=tx.dtype == f32 and list(tx.shape[1:]) == [n, n] and list(ex.shape[1:]) == [n, n]
         and tl.dtype == torch.int64 and tl.dim() == 1 and len(tl) == len(tx) and len(el) == len(ex),
         what="shapes or types of the data set")
    if n <= 4:
        def items(x, y):
            return [[[[enc1(v) for v in r] for r in im], int(lab)] for im, lab in zip(x.tolist(), y)]

        c.ev("stripes", n=n, test=items(ex, el), train=items(tx, tl))
    else:
        both = torch.cat((tx, ex)).numpy()
        labels = torch.cat((tl, el)).tolist()
        seen, right, constant = set(), 0, 0
        for im, lab in zip(both, labels):
            seen.add((im.tobytes(), lab))
            vals = set(np.unique(im).tolist())
            constant += len(vals) < 2
            rows = (im == im[:, :1]).all()
            cols = (im == im[:1]).all()
            right += bool(vals == {0.0, 1.0} and (rows if lab == 0 else cols) and lab in (0, 1))
        c.ev("counts", n=n, ntest=len(ex), ntrain=len(tx), distinct=len(seen), right=right, constant=constant)


def trig(c):
    from torchmps.embeddings import trig_embed

    rng = c.rng
    for _ in range(4):
        d = rng.choice([1, 2, 2, 3, 4, 5, 6, 9, 16, 23, 25, 36] if rng.random() < 0.6 else [2, 3])
        lead = [rng.randint(1, 3) for _ in range(rng.randint(0, 3))]
        pts = []
        for _ in range(math.prod(lead)):
            q = rng.randint(1, 8 if d < 6 else 5 if d < 10 else 3 if d < 26 else 2)
            p = rng.choice([0, q, rng.randint(0, q), rng.randint(0, q)])
            cs, ss = (1, 1) if rng.random() < 0.7 else (rng.choice([1, -1]), rng.choice([1, -1]))
            pts.append((p, q, cs, ss))
        xs = [2 / math.pi * math.atan2(ss * math.sqrt(1 - p / q), cs * math.sqrt(p / q)) for p, q, cs, ss in pts]
        low = d <= 2 and rng.random() < 0.4
        x = torch.tensor(xs, dtype=f32 if low else f64).reshape(lead)
        keep = x.clone()
        out = trig_embed(x) if d == 2 and rng.random() < 0.5 else trig_embed(x, d)
        c.ev("fact", holds=torch.equal(x, keep), what="the embedding changed its input")
        rows = out.reshape(len(pts), -1).to(f64)
        c.ev("trig", d=d, lead=lead, shape=list(out.shape),
             points=[dict(p=p, q=q, csign=cs, ssign=ss,
                          squares=[enc1(v * v, q ** (d - 1)) for v in r.tolist()],
                          signs=[1 if v > 0 else -1 for v in r.tolist()])
                     for (p, q, cs, ss), r in zip(pts, rows)])


def mlp(c):
    from torch import nn

    from torchmps.embeddings import TrainableEmbedding, DataDomain, init_mlp_embed

    rng = c.rng
    for _ in range(4):
        d, layers = rng.randint(1, 4), rng.choice([1, 2, 2, 3])
        hidden = [rng.randint(1, 5) for _ in range(layers - 1)]
        how = rng.choice(["list", "int", "tuple", "default"])
        dom = rng.choice([None, DataDomain(continuous=True, max_val=3.0, min_val=-1.0)])
        if how == "default":
            layers, hidden = 2, [100]
            emb = init_mlp_embed(d, data_domain=dom)
        elif how == "int":
            hidden = [3] * (layers - 1)
            emb = init_mlp_embed(d, layers, 3, dom)
        else:
            emb = init_mlp_embed(d, num_layers=layers, hidden_dims=tuple(hidden) if how == "tuple" else hidden,
                                 data_domain=dom)
        c.ev("fact", holds=isinstance(emb, TrainableEmbedding), what="the perceptron isn't a trainable embedding")
        want = (0, 1) if dom is None else (-1, 3)
        c.ev("fact", holds=emb.domain.continuous and (emb.domain.min_val, emb.domain.max_val) == want,
             what="domain of the perceptron")
        lead = [rng.randint(1, 3) for _ in range(rng.randint(1, 2))]
        x = torch.rand(lead)
        out = emb(x)
        params = list(emb.parameters())
        h = x[..., None]
        for w, b in zip(params[::2], params[1::2]):
            h = torch.sigmoid(nn.functional.linear(h, w, b)) if w.dim() == 2 and w.shape[1] == h.shape[-1] else h
        c.ev("mlp", d=d, hidden=hidden, lead=lead, shape=list(out.shape), params=[list(p.shape) for p in params],
             inside=bool(((out > 0) & (out < 1)).all()),
             same=out.shape == h.shape and torch.allclose(out, h, atol=1e-5))


def drive(rec):
    for name, fun, quick in (("onehot", onehots, 24), ("embed", onehot_embeds, 24), ("shuffle", shuffles, 40),
                             ("trig", trig, 60), ("mlp", mlp, 20)):
        for i in rec.cases(name, quick, 20 * quick):
            with rec.case(name, i) as c:
                c.set(judge="J_Data")
                fun(c)
    top = 13 if rec.quick else 15
    for i in rec.cases("stripes", top, top):
        with rec.case("stripes", i) as c:
            c.set(judge="J_Data")
            stripes(c, i + 1)
