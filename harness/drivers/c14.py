"""C14: flexible SVD splits a tensor exactly up to its stated truncation"""
import string

import numpy as np
import torch

from drivers.adapt import orth
from drivers.lib import BAD, enc1, mod, obs, rint
from drivers.life import must_raise
from torchmps.utils import svd_flex


def known_matrix(rng, rows, cols, cut2, dense, fine=False):
    u, a = orth(rng, rows, dense)
    v, b = orth(rng, cols, dense)
    g = int(round((a * b) ** 0.5))
    if g * g != a * b:
        u, a = orth(rng, rows, False)
        v, b = orth(rng, cols, False)
        g = 1
    full = min(rows, cols)
    r = rng.choice([full, full, rng.randint(1, full)])
    if cut2:
        lo = [x for x in range(1, r + cut2 + 3) if 2 * x * g < cut2]
        up = [x for x in range(1, 3 * r + cut2 + 9) if 2 * x * g > cut2]
        n_up = rng.randint(0 if rng.random() < 0.1 and lo else 1, r)
        if fine:
            lo = lo[-(r + 1):]
        svs = rng.sample(up[: n_up + 2], n_up) + rng.sample(lo, min(len(lo), r - n_up))
    else:
        svs = rng.sample(range(1, 2 * r + 3), r)
    svs = sorted(svs, reverse=True) or [1]
    dec = [dict(s=s, u=u[:, n].tolist(), v=v[:, n].tolist()) for n, s in enumerate(svs)]
    return sum(x["s"] * np.outer(x["u"], x["v"]) for x in dec), dec


def split(c, shape, nl, maxD, cut2, dtype, known=True, dense=True, fine=False, layout="plain"):
    """One call of svd_flex, for a tensor of which nl random indices go left"""
    rng = c.rng
    n = len(shape)
    perm = list(range(n))
    rng.shuffle(perm)
    left, right = perm[:nl], perm[nl:]
    rows = int(np.prod([shape[i] for i in left], dtype=int))
    cols = int(np.prod([shape[i] for i in right], dtype=int))
    if known:
        m, dec = known_matrix(rng, rows, cols, cut2, dense, fine)
    else:
        assert cut2 == 0
        m, dec = rint(rng, [rows, cols], -2, 2).numpy().astype(int), []
        if not m.any():
            m[0, 0] = 1
    # Entries with indices in the order of the shape
    t = m.reshape([shape[i] for i in left + right])
    t = np.transpose(t, np.argsort(left + right))
    x = torch.tensor(np.ascontiguousarray(t), dtype=dtype)
    if layout == "strided":
        big = torch.zeros([2 * k for k in x.shape], dtype=dtype)
        big[tuple(slice(None, None, 2) for _ in x.shape)] = x
        x = big[tuple(slice(None, None, 2) for _ in x.shape)]
    elif layout == "transposed":
        x = x.permute(*range(n)[::-1]).contiguous().permute(*range(n)[::-1])
    elif layout == "grad":
        x = x.clone().requires_grad_(True)
    before = x.detach().clone()
    names = rng.sample(string.ascii_lowercase, n + 1)
    bond, names = names[-1], names[:n]
    lb, rb = rng.randint(0, len(left)), rng.randint(0, len(right))
    lstr = [names[i] for i in left]
    rstr = [names[i] for i in right]
    lstr.insert(lb, bond)
    rstr.insert(rb, bond)
    text = "".join(names) + "->" + "".join(lstr) + "," + "".join(rstr)
    if rng.random() < 0.2:
        text = text.replace("->", " -> ").replace(",", ", ")
    kw = {}
    if maxD:
        kw["max_D"] = maxD
    if rng.random() < 0.5:
        kw["sv_right"] = rng.random() < 0.5
    right_carries = kw.get("sv_right", True)
    cutoff = cut2 / 2 if cut2 else (1e-10 if dtype == torch.float64 else 1e-4)
    if cut2 or dtype != torch.float64 or rng.random() < 0.5:
        kw["cutoff"] = cutoff
    sv = None
    if rng.random() < 0.7:
        sv = torch.full([maxD or min(rows, cols)], -7.0, dtype=dtype)
        kw["sv_vec"] = sv
    e = dict(shape=list(shape), left=[i + 1 for i in left], right=[i + 1 for i in right], lb=lb + 1, rb=rb + 1,
             maxD=maxD or 0, cut2=cut2, dec=dec, data=mod(before.reshape(-1)), raised=False, same=True,
             dim=0, lshape=[], rshape=[], prod=[], iso=[], gram=[], hassv=sv is not None, sv=[], desc=True, nsv=0,
             s2=0, text=text)
    try:
        L, R, dim = svd_flex(x, text, **kw)
    except RuntimeError as err:
        c.ev("split", **{**e, "raised": True})
        return
    e["same"] = bool(torch.equal(x.detach(), before)) and L.dtype == dtype and R.dtype == dtype
    e["dim"], e["lshape"], e["rshape"] = int(dim), list(L.shape), list(R.shape)
    ok = L.ndim == len(lstr) and R.ndim == len(rstr)
    if ok:
        prod = torch.einsum("".join(lstr) + "," + "".join(rstr) + "->" + "".join(names), L.double(), R.double())
        e["prod"] = obs(prod, tol=0.02)["data"]
        ml = L.double().movedim(lb, -1).reshape(-1, L.shape[lb])
        mr = R.double().movedim(rb, -1).reshape(-1, R.shape[rb])
        iso, car = (ml, mr) if right_carries else (mr, ml)
        big = max(1.0, float(before.abs().max()) ** 2 * rows * cols)
        tol = 0.02 if dtype == torch.float64 else min(0.4, 1e-4 + 1e-6 * big)
        enc = lambda t, tl: [[enc1(v, tol=tl) for v in row] for row in t.tolist()]
        e["iso"], e["gram"] = enc(iso.T @ iso, 0.02), enc(car.T @ car, tol)
    if sv is not None:
        e["sv"] = [enc1(v, tol=0.02) for v in sv.double().tolist()]
        e["desc"] = bool((sv[:-1] >= sv[1:]).all() and (sv >= 0).all())
        e["nsv"] = len(sv)
        e["s2"] = enc1(float((sv.double() ** 2).sum()), tol=0.2)
    c.ev("split", **e)


def bad_strings(c):
    rng = c.rng
    x = torch.ones(2, 3, 2)
    good = "abc->ax,xbc"
    bad = ["abc->ax,ybc", "abc->ax,xb", "abc->axd,xbc", "aac->ax,xac", "abc->ax,xbcx", "Abc->Ax,xbc",
           "abc->axx,xbc", "abc,ax->xbc", "abc->axb,xbc", "abc->ab,c", "abcd->ax,xbcd", "ab->ax,xb",
           "a1c->ax,x1c", "abc->abxc,axbc"]
    for text in rng.sample(bad, 6):
        must_raise(c, lambda: svd_flex(x, text), f"malformed string {text} wasn't refused")
    for size in (1, 3):
        must_raise(c, lambda: svd_flex(x, good, max_D=2, sv_vec=torch.zeros(size)),
                   "a vector of the wrong size for the singular values wasn't refused")
    must_raise(c, lambda: svd_flex(x, good, cutoff=1e6), "truncation of everything wasn't refused")
    must_raise(c, lambda: svd_flex(torch.zeros(2, 3, 2), good), "split of a zero tensor wasn't refused")


def drive(rec):
    f32, f64 = torch.float32, torch.float64
    layouts = ["plain", "plain", "strided", "transposed", "grad"]
    for i in rec.cases("known", 150, 2000):
        with rec.case("known", i) as c:
            rng = c.rng
            for _ in range(3):
                n = rng.choice([2, 2, 3, 4, 4, 5])
                shape = [rng.choice([1, 2, 2, 3, 4]) if n < 5 else rng.choice([1, 2, 2]) for _ in range(n)]
                split(c, shape, rng.randint(1, n - 1), rng.choice([None, 1, 2, 3, 4, 9]),
                      rng.choice([0, 0, 3, 7, 11, 31]), f64 if rng.random() < 0.8 else f32,
                      layout=rng.choice(layouts))
    for i in rec.cases("general", 60, 600):
        with rec.case("general", i) as c:
            rng = c.rng
            for _ in range(3):
                n = rng.choice([2, 3, 4])
                shape = [rng.choice([1, 2, 3]) for _ in range(n)]
                split(c, shape, rng.randint(1, n - 1), rng.choice([None, None, 9, 27, 28]), 0, f64, known=False,
                      layout=rng.choice(layouts))
    # Cutoffs close to the singular values, which may be equal if they are exact
    for i in rec.cases("fine", 20, 150):
        with rec.case("fine", i) as c:
            rng = c.rng
            split(c, [rng.choice([2, 3, 4]), rng.choice([2, 3, 4])], 1, rng.choice([None, 2, 3]),
                  rng.choice([199, 399, 999]), f64, dense=False, fine=True)
            v = rng.choice([1, 2, 3, 8])
            sv = torch.zeros(1, dtype=f64)
            x = torch.full([1, 1], float(v), dtype=f64)
            L, R, dim = svd_flex(x, "ab->ax,xb", rng.choice([None, 1]), float(v), sv_vec=sv)
            c.ev("fact", holds=dim == 1 and sv.item() == v and (L * R).item() == v,
                 what="a singular value equal to the cutoff is kept")
            must_raise(c, lambda: svd_flex(x, "ab->ax,xb", 1, float(np.nextafter(v, 99))),
                       "a singular value below the cutoff was kept")
    for i in rec.cases("large", 12, 60):
        with rec.case("large", i) as c:
            rng = c.rng
            shape = rng.choice([[8, 8], [17, 5], [4, 4, 4], [2, 16, 2], [33, 33], [2] * 6])
            split(c, shape, rng.randint(1, len(shape) - 1), rng.choice([None, 5, 8, 40]), rng.choice([0, 9, 21]), f64,
                  dense=rng.random() < 0.5)
    for i in rec.cases("onesided", 10, 60):
        with rec.case("onesided", i) as c:
            n = c.rng.choice([1, 2, 3])
            shape = [c.rng.choice([1, 2, 3]) for _ in range(n)]
            split(c, shape, c.rng.choice([0, n]), c.rng.choice([None, 1, 2, 4]), 0, f64, dense=False)
    for i in rec.cases("malformed", 8, 40):
        with rec.case("malformed", i) as c:
            bad_strings(c)
