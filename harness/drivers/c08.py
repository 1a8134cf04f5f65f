"""C08: probabilities stay normalised over the data domain under an embedding"""
import copy
import pickle

import torch

from drivers import fresh
from drivers.born import BornCase, Domain, gint, loss_event, norm_event, options, small_rows, weights_event
from drivers.born import build


def random_domain(rng, cplx=False, what=None, dtype=torch.float64):
    """Discrete domains, by the kind of their Gram matrix"""
    what = what or rng.choice(["onehot", "perm", "hadamard", "scaled", "diagonal", "full", "full", "more",
                               "fewer", "zero", "duplicate", "mean"])
    t = None
    if what == "onehot":
        t = torch.eye(rng.choice([2, 3, 4]))
    elif what == "perm":
        t = torch.eye(3)[torch.tensor(rng.sample(range(3), 3))]
    elif what == "hadamard":
        t = torch.tensor([[1.0, 1.0], [1.0, -1.0]])
    elif what == "scaled":
        t = torch.eye(rng.choice([2, 3])) * rng.choice([2.0, 3.0, -2.0])
    elif what == "diagonal":
        t = torch.diag(torch.tensor(rng.choice([[1.0, 2.0], [2.0, 1.0, 1.0], [0.0, 1.0], [1.0, 3.0, 2.0]])))
    elif what == "mean":
        # Diagonals of different shape with the same mean
        t = torch.tensor(rng.choice([[[1.0, 0], [0, 1], [1, 0]], [[1.0, 0, 0], [0, 2, 0], [0, 0, 1]]]))
    elif what == "more":
        t = gint(rng, [rng.choice([4, 5]), 2], 1, False, torch.float64)
    elif what == "fewer":
        t = gint(rng, [rng.choice([1, 2]), 3], 2, False, torch.float64)
    elif what == "zero":
        t = torch.tensor([[0.0, 0], [1, 1], [2, 1]])
    elif what == "duplicate":
        t = torch.tensor([[1.0, 0], [1, 0], [0, 1]])
    else:
        t = gint(rng, [rng.choice([2, 3]), rng.choice([1, 2, 3])], 2, False, torch.float64)
    t = t.to(dtype)
    if cplx and rng.random() < 0.5:
        t = t * torch.tensor([1j ** rng.randrange(4) for _ in range(len(t))])[:, None].to(
            torch.complex128 if dtype == torch.float64 else torch.complex64)
        if rng.random() < 0.5:
            t = t + torch.complex(torch.zeros(t.shape, dtype=dtype), gint(rng, list(t.shape), 1, False, dtype))
    if t.abs().sum() == 0:
        t[0, 0] = 1
    return Domain("table", table=t, shift=rng.choice([0, 0, 0, 5, -3, -12, -18, 14, 20]))


def random_interval(rng, dtype):
    if rng.random() < 0.4:
        return None
    # Polynomials of degree up to 2 over intervals with integer end points
    deg = rng.choice([0, 1, 1, 1, 2])
    lo = rng.choice([0, 0, -1, 1, -2])
    hi = lo + rng.choice([1, 2, 1, 3])
    d = rng.choice([1, 2, 2, 3])
    for _ in range(100):
        coefs = gint(rng, [d, deg + 1], 1, False, dtype)
        if (coefs.abs().sum(1) > 0).all():
            break
    else:
        coefs = torch.ones(d, deg + 1, dtype=dtype)
    return Domain("poly", coefs=coefs, lo=lo, hi=hi, shift=rng.choice([0, 0, 6, -6, -15]))


def random_trig(rng, bias):
    w = rng.choice([4, 4, 8]) if bias else rng.choice([2, 2, 4, 6])
    # Whole periods, starting anywhere
    lo = rng.choice([0, 0, 1, -2])
    return Domain("trig", emb_dim=rng.choice([1, 2, 2, 3, 3]), lo=lo, hi=lo + w)


def session(c, bc, lengths, how=""):
    rng = c.rng
    model = build(c, bc)
    bc.par.install(model, "load")
    if bc.dtype == torch.float64:
        model = model.double()
    c.set(model=bc.par.spec(), lengths=lengths, emb_as=bc.emb_as, dtype=str(bc.dtype),
          shift=bc.domain.shift)
    for n in lengths:
        norm_event(c, bc, model, n)
        for opt in rng.sample(options(bc.bias), 2):
            weights_event(c, bc, model, n, bc.index_rows(n, 30), opt,
                          how=rng.choice(["", "no_grad", "inference", "noncontiguous"]))
            lrows = small_rows(bc, bc.par, n, rng.randint(1, 3))
            if lrows and rng.random() < 0.5:
                loss_event(c, bc, model, n, lrows, opt)
        norm_event(c, bc, model, n)
    # The embedding stays in step with new parameters, and with copies
    bc.par = bc.new_params()
    bc.par.install(model, rng.choice(["copy", "data", "step", "load"]))
    c.ev("params", m=1, model=bc.par.spec())
    if rng.random() < 0.4:
        model = copy.deepcopy(model)
    for n in lengths[-2:]:
        norm_event(c, bc, model, n)
        weights_event(c, bc, model, n, bc.index_rows(n, 6), rng.choice(options(bc.bias)))


def drive(rec):
    f32, f64 = torch.float32, torch.float64
    kinds = ["onehot", "perm", "hadamard", "scaled", "diagonal", "full", "more", "fewer", "zero",
             "duplicate", "mean"]
    combos = [(k, u, cplx, bias) for k in kinds for u in (False, True)
              for cplx in (False, True) for bias in (False, True)]
    for i in rec.cases("discrete", len(combos), 10 * len(combos)):
        with rec.case("discrete", i) as c:
            rng = c.rng
            kind, unif, cplx, bias = combos[i % len(combos)]
            dtype = rng.choice([f64, f64, f64, f32])
            dom = random_domain(rng, cplx, kind, dtype)
            lengths = rng.choice([[0, 1, 3], [2, 1, 4], [3, 2]]) if unif else [rng.choice([1, 2, 3, 4])]
            bc = BornCase(rng, lengths[0], dom.emb_dim, rng.choice([1, 2, 3]), uniform=unif, cplx=cplx,
                          bias=bias, domain=dom, dtype=dtype, lengths=lengths,
                          emb_as=rng.choice(["function", "object", "redundant"]),
                          style=rng.choice(["dense", "sparse", "mixed"]))
            session(c, bc, lengths)
    # Large domains and features
    for i in rec.cases("large", 10, 100):
        with rec.case("large", i) as c:
            rng = c.rng
            size, d = rng.choice([(130, 2), (200, 2), (257, 3), (300, 2), (40, 9), (17, 17), (5, 33), (33, 12)])
            table = torch.zeros(size, d, dtype=f64)
            for r in range(size):
                table[r, rng.randrange(d)] = rng.choice([-1, 1, 2])
                table[r, rng.randrange(d)] += rng.choice([-1, 0, 1])
            unif, bias = rng.random() < 0.5, rng.random() < 0.4
            dom = Domain("table", table=table, shift=rng.choice([0, 0, 5]))
            lengths = [0, 2, 1] if unif else [2]
            bc = BornCase(rng, lengths[0], d, 2, uniform=unif, cplx=rng.random() < 0.4, bias=bias, domain=dom,
                          lengths=lengths, emb_as=rng.choice(["function", "object"]), style="perms")
            session(c, bc, lengths)
    for i in rec.cases("interval", 80, 800):
        with rec.case("interval", i) as c:
            rng = c.rng
            bias, cplx, unif = rng.random() < 0.4, rng.random() < 0.4, rng.random() < 0.5
            dtype = rng.choice([f64, f64, f64, f32])
            dom = random_interval(rng, dtype) or random_trig(rng, bias)
            lengths = rng.choice([[1, 2], [0, 1], [2, 1]]) if unif else [rng.choice([1, 2, 3])]
            bc = BornCase(rng, lengths[0], dom.emb_dim, rng.choice([1, 2, 3]), uniform=unif, cplx=cplx,
                          bias=bias, domain=dom, dtype=dtype, lengths=lengths,
                          emb_as=rng.choice(["function", "object", "redundant"]),
                          style=rng.choice(["sparse", "mixed", "mono"]))
            session(c, bc, lengths)
    fresh.drive(rec, dict(born=lambda c: fresh.born(c, embedded=True)))
