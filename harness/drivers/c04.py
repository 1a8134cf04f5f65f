"""C04: contraction of matrix sequences is the ordered product"""
import numpy as np
import torch

from drivers.lib import mod, obs, rint, signed_perm
from torchmps.mps_base import contract_matseq


def operand(t, vec=None):
    """Record of an operand, boundary vectors as matrices with one row/column"""
    if vec == "left":
        t = t.unsqueeze(-2)
    elif vec == "right":
        t = t.unsqueeze(-1)
    t = t.detach()
    if t.is_complex():
        return dict(shape=list(t.shape), re=mod(t.real.reshape(-1)), im=mod(t.imag.reshape(-1)))
    return dict(shape=list(t.shape), data=mod(t.reshape(-1)))


def bound(left, mats, right):
    ops = [m.abs().double().numpy() for m in mats]
    if left is not None:
        ops.insert(0, left.abs().double().numpy()[..., None, :])
    if right is not None:
        ops.append(right.abs().double().numpy()[..., None])
    if not ops:
        return 1.0
    p, big = ops[0], max(o.max() if o.size else 0 for o in ops)
    for o in ops[1:]:
        p = p @ o
        big = max(big, p.max() if p.size else 0)
    return big


def batch_shapes(rng, n, maxrank=3):
    """n batch shapes which can be broadcast together"""
    full = [rng.choice([1, 2, 3]) for _ in range(rng.choice([0, 0, 1, 1, 2, maxrank]))]
    out = []
    for _ in range(n):
        r = rng.randint(0, len(full)) if rng.random() < 0.6 else len(full)
        sh = full[len(full) - r :]
        out.append([1 if rng.random() < 0.3 else x for x in sh])
    return out


def new_mat(rng, shape, cplx, style, dtype):
    def one():
        if style == "mono":
            D = shape[-1]
            n = int(np.prod(shape[:-2])) if shape[:-2] else 1
            return torch.stack([signed_perm(rng, D) for _ in range(n)]).reshape(shape).to(dtype)
        return rint(rng, shape, -2, 2, dtype, density=0.7)

    if cplx:
        if style == "mono":
            return one() * (1j ** rng.randrange(4))
        return torch.complex(one(), one())
    return one()


def run(c, mats, left, right, as_tensor, hows, kind=tuple, tol=0.02):
    before = [t.clone() for t in mats] + [t.clone() for t in (left, right) if t is not None]
    if as_tensor is not None:
        arg = as_tensor
        tens_before = as_tensor.clone()
    else:
        arg = kind(mats)
    for par, log in hows:
        res = contract_matseq(arg, left, right, parallel_eval=par, log_format=log)
        if log:
            prod, scale = res
            real = not scale.is_complex()
            finite = bool(torch.isfinite(scale).all()) and real
            # The correction applies to each product as a whole
            nd = 2 - (left is not None) - (right is not None)
            per_product = all(n == 1 for n in scale.shape[scale.ndim - nd:]) if nd else True
            res = prod * torch.exp(scale) if finite and per_product else prod * float("nan")
        c.ev("product", res=obs(res, tol=tol),
             how=("parallel " if par else "") + ("log" if log else "plain"))
    after = list(mats) + [t for t in (left, right) if t is not None]
    same = all(torch.equal(a, b) for a, b in zip(before, after))
    if as_tensor is not None:
        same = same and torch.equal(tens_before, as_tensor)
    c.ev("inputs", same=same)


def drive(rec):
    for i in rec.cases("random", 700, 12000):
        with rec.case("random", i) as c:
            rng = c.rng
            dtype = rng.choice([torch.float64, torch.float64, torch.float32])
            torch.set_default_dtype(torch.float64 if rng.random() < 0.5 else dtype)
            n = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9])
            cplx = rng.random() < 0.25
            same = rng.random() < 0.6
            has_l, has_r = rng.random() < 0.5, rng.random() < 0.5
            as_tensor = same and rng.random() < 0.5
            if n == 0 and not (has_l or has_r):
                as_tensor = True
            D = rng.choice([1, 2, 3, 4])
            rect = (not same) or (n == 1 and rng.random() < 0.3)
            dims = [rng.choice([1, 2, 3, 4]) for _ in range(n + 1)] if rect else [D] * (n + 1)
            shapes = batch_shapes(rng, n + 2)
            if as_tensor:
                shapes = [shapes[0]] + [shapes[1]] * n + [shapes[-1]]
            elif same and rng.random() < 0.5:
                shapes = [shapes[0]] + [shapes[1]] * n + [shapes[-1]]
            limit = 2.0 ** (12 if dtype == torch.float32 else 34)
            for attempt in range(20):
                style = "dense" if attempt < 8 or rect else "mono"
                mats = [new_mat(rng, shapes[j + 1] + [dims[j], dims[j + 1]], cplx, style, dtype)
                        for j in range(n)]
                left = new_mat(rng, shapes[0] + [dims[0]], cplx, "dense", dtype) if has_l else None
                right = new_mat(rng, shapes[-1] + [dims[-1]], cplx, "dense", dtype) if has_r else None
                if rng.random() < 0.15 and mats:
                    mats[rng.randrange(n)].zero_()
                if rng.random() < 0.1 and mats:
                    # A batch where only some products vanish
                    m = mats[rng.randrange(n)]
                    m.reshape(-1)[: m.shape[-1] * m.shape[-2]] = 0
                if bound(left, mats, right) < limit:
                    break
            else:
                continue
            tens = None
            if as_tensor:
                tens = (torch.stack(mats, dim=-3) if n else
                        torch.zeros(shapes[1] + [0, D, D],
                                    dtype=torch.complex128 if cplx and dtype == torch.float64 else
                                    torch.complex64 if cplx else dtype))
            c.set(left=[operand(left, "left")] if has_l else [],
                  right=[operand(right, "right")] if has_r else [],
                  mats=[operand(m) for m in mats], dim=D,
                  extra=shapes[1] if as_tensor and n == 0 else [], n=n, dtype=str(dtype))
            if n == 0 and as_tensor and (has_l or has_r):
                # The (empty) tensor still takes part in the broadcast
                z = dict(shape=shapes[1] + [D, D], data=mod(torch.eye(D).expand(shapes[1] + [D, D]).reshape(-1)))
                c.set(mats=[z])
            hows = [(False, False), (False, True), (True, False), (True, True)]
            rng.shuffle(hows)
            run(c, mats, left, right, tens, hows, kind=rng.choice([tuple, list]),
                tol=0.02 if dtype == torch.float64 else 0.2)

    # Long sequences and large matrices
    for i in rec.cases("large", 64, 500):
        with rec.case("large", i) as c:
            rng = c.rng
            torch.set_default_dtype(rng.choice([torch.float64, torch.float32]))
            dtype = torch.float64
            if i % 2:
                n, D = rng.choice([16, 17, 31, 33, 63, 64, 65, 100, 127, 129, 200, 257, 300, 302, 401, 513, 602, 1025]), rng.choice([1, 2, 3])
            else:
                n, D = rng.choice([2, 3, 5]), rng.choice([8, 10, 16, 17, 25, 32, 33])
            bs = rng.choice([[], [2], [1, 3]])
            cplx = rng.random() < 0.2
            mats = [new_mat(rng, bs + [D, D], cplx, "mono", dtype) for _ in range(n)]
            if i % 2 == 0:
                mats[rng.randrange(n)] = new_mat(rng, bs + [D, D], cplx, "dense", dtype)
            has_l, has_r = rng.random() < 0.5, rng.random() < 0.5
            left = new_mat(rng, [D], cplx, "dense", dtype) if has_l else None
            right = new_mat(rng, bs + [D], cplx, "dense", dtype) if has_r else None
            c.set(left=[operand(left, "left")] if has_l else [],
                  right=[operand(right, "right")] if has_r else [],
                  mats=[operand(m) for m in mats], dim=D, extra=[], n=n)
            tens = torch.stack(mats, dim=-3) if rng.random() < 0.6 else None
            run(c, mats, left, right, tens, [(False, True), (True, False), (True, True), (False, False)])

    # Products which aren't defined
    def refused(c, fn):
        try:
            fn()
            ok = False
        except Exception:
            ok = True
        c.ev("refused", refused=ok)

    for i in rec.cases("undefined", 30, 60):
        with rec.case("undefined", i) as c:
            rng = c.rng
            a, b = rng.sample([2, 3, 4, 5], 2)
            par = rng.random() < 0.5
            c.set(left=[], right=[], mats=[], dim=1, extra=[])
            if i % 6 == 0:
                refused(c, lambda: contract_matseq([], parallel_eval=par))
                refused(c, lambda: contract_matseq((), parallel_eval=par, log_format=True))
            elif i % 6 == 1:
                refused(c, lambda: contract_matseq([torch.ones(a, b), torch.ones(a, b)], parallel_eval=par))
            elif i % 6 == 2:
                refused(c, lambda: contract_matseq([torch.ones(2, a, a), torch.ones(3, a, a)], parallel_eval=par))
            elif i % 6 == 3:
                refused(c, lambda: contract_matseq([torch.ones(a, a)], left_vec=torch.ones(b), parallel_eval=par))
            elif i % 6 == 4:
                refused(c, lambda: contract_matseq(torch.ones(4, a, a), right_vec=torch.ones(b), parallel_eval=par))
            else:
                refused(c, lambda: contract_matseq(torch.ones(2, 4, a, a), torch.ones(3, a), torch.ones(a), parallel_eval=par))
