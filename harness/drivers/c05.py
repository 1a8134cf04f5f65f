"""C05: long products neither overflow nor underflow"""
import math

import numpy as np
import torch

from drivers.c04 import operand
from drivers.lib import enc1, mod, obs, rint, signed_perm
from torchmps import ProbMPS, ProbUnifMPS
from torchmps.mps_base import contract_matseq, slim_eval_fun

LN2 = math.log(2)


def exponents(rng, n, B, top):
    """n x B exponents of some pattern"""
    pat = rng.choice(["grow", "shrink", "alternate", "random", "opposite", "zero-then-grow", "mixed"])
    out = []
    for i in range(n):
        row = []
        for b in range(B):
            if pat == "grow":
                e = top
            elif pat == "shrink":
                e = -top
            elif pat == "alternate":
                e = top if i % 2 else -top
            elif pat == "opposite":
                e = top if b % 2 else -top
            elif pat == "zero-then-grow":
                e = 0 if i < n // 2 else top
            else:
                e = rng.randint(-top, top)
            row.append(e)
        out.append(row)
    return out


def scaled(mats, exps, batched):
    out = []
    for m, e in zip(mats, exps):
        f = torch.tensor([2.0 ** x for x in e], dtype=m.dtype)
        out.append(m * (f[:, None, None] if batched else f[0]))
    return out


def observe(c, res, shift, how, n, tol):
    prod, scale = res
    finite = bool(torch.isfinite(prod).all() and torch.isfinite(scale).all())
    if finite:
        ordinary = n < 2 or bool((prod.abs() <= 1e9).all())
        sh = torch.tensor(shift, dtype=torch.float64) * LN2
        s = scale.double()
        sh = sh.reshape([-1] + [1] * (s.ndim - 1)) if s.ndim > 0 and s.shape[0] == len(shift) and len(shift) > 1 else sh[0]
        # Zero stays zero whatever the log scale is
        val = prod.double() * torch.exp(s - sh)
        val = torch.where(prod == 0, torch.zeros_like(val), val)
        o = obs(val, tol=tol)
    else:
        ordinary, o = True, dict(shape=[], data=[])
    c.ev("product", finite=finite, ordinary=ordinary, shift=shift, res=o, how=how)


def drive(rec):
    for i in rec.cases("chain", 120, 1500):
        with rec.case("chain", i) as c:
            rng = c.rng
            f32 = rng.random() < 0.3
            dtype = torch.float32 if f32 else torch.float64
            torch.set_default_dtype(dtype if rng.random() < 0.7 else torch.float32)
            n = rng.choice([1, 2, 3, 5, 8, 9, 17, 33, 64, 65, 100, 150, 257, 302, 513, 700, 1025])
            if f32:
                n = min(n, 150)
            D = rng.choice([1, 2, 2, 3, 4])
            batched = rng.random() < 0.5
            B = rng.choice([2, 3]) if batched else 1
            style = rng.choice(["mono", "mono", "dense-ends", "nil", "hole"])
            bs = [B] if batched else []
            mats = []
            for j in range(n):
                if batched:
                    m = torch.stack([signed_perm(rng, D) for _ in range(B)]).to(dtype)
                else:
                    m = signed_perm(rng, D).to(dtype)
                mats.append(m)
            if style == "dense-ends":
                mats[0] = rint(rng, bs + [D, D], -2, 2, dtype)
                mats[-1] = rint(rng, bs + [D, D], -2, 2, dtype)
            elif style == "hole":
                # Zero factors, for all or just for some items of the batch
                j = rng.randrange(n)
                if batched:
                    mats[j] = mats[j].clone()
                    mats[j][0] = 0
                else:
                    mats[j] = torch.zeros_like(mats[j])
            elif style == "nil" and D > 1:
                # Nonzero factors whose product vanishes
                a = torch.zeros(D, D, dtype=dtype)
                a[0, 1] = 1
                j = rng.randrange(n)
                mats[j] = a.expand(bs + [D, D]).clone()
                if j + 1 < n:
                    mats[j + 1] = a.expand(bs + [D, D]).clone()
            top = 25 if f32 else rng.choice([3, 60, 120])
            exps = exponents(rng, n, B, top)
            has_l, has_r = rng.random() < 0.5, rng.random() < 0.5
            left = rint(rng, [D], -2, 2, dtype) if has_l else None
            right = rint(rng, bs + [D], -2, 2, dtype) if has_r else None
            shift = [sum(exps[j][b] for j in range(n)) for b in range(B)]
            c.set(left=[operand(left, "left")] if has_l else [],
                  right=[operand(right, "right")] if has_r else [],
                  mats=[operand(m) for m in mats], dim=D, extra=[], exps=exps, style=style,
                  n=n, dtype=str(dtype))
            full = scaled(mats, exps, batched)
            tens = torch.stack(full, dim=-3)
            tol = 0.3 if (f32 or torch.get_default_dtype() == torch.float32) else 0.02
            for par in (False, True):
                for arg, name in ((tens, "tensor"), (full, "list")):
                    res = contract_matseq(arg, left, right, parallel_eval=par, log_format=True)
                    observe(c, res, shift, f"{'parallel' if par else 'default'} {name}", n, tol)

    # Inhomogeneous matrices can only be multiplied serially
    for i in rec.cases("product", 40, 500):
        with rec.case("product", i) as c:
            rng = c.rng
            dtype = torch.float64
            torch.set_default_dtype(dtype)
            n = rng.choice([2, 3, 20, 51, 100, 200, 405, 700])
            dims = [rng.choice([1, 2, 3]) for _ in range(n + 1)]
            mats = []
            for j in range(n):
                m = torch.zeros(dims[j], dims[j + 1], dtype=dtype)
                for a in range(min(dims[j], dims[j + 1])):
                    m[a, a] = rng.choice([-1, 1])
                mats.append(m)
            exps = exponents(rng, n, 1, rng.choice([3, 60, 120]))
            has_l, has_r = rng.random() < 0.5, rng.random() < 0.5
            left = rint(rng, [dims[0]], -2, 2, dtype) if has_l else None
            right = rint(rng, [dims[-1]], -2, 2, dtype) if has_r else None
            c.set(left=[operand(left, "left")] if has_l else [],
                  right=[operand(right, "right")] if has_r else [],
                  mats=[operand(m) for m in mats], dim=1, extra=[], exps=exps, n=n)
            res = contract_matseq(scaled(mats, exps, False), left, right, log_format=True)
            observe(c, res, [sum(e[0] for e in exps)], "serial", n, 0.02)

    for i in rec.cases("prob", 50, 500):
        with rec.case("prob", i) as c:
            rng = c.rng
            f32 = rng.random() < 0.3
            dtype = torch.float32 if f32 else torch.float64
            torch.set_default_dtype(dtype)
            n = rng.choice([1, 2, 5, 20, 64, 100, 101, 250, 402, 513] + ([600, 1500] if not rec.quick else []))
            if f32:
                n = min(n, 64)
            D, d = rng.choice([1, 2, 3]), rng.choice([1, 2, 4, 5])
            cplx = rng.random() < 0.4
            unif = rng.random() < 0.4
            top = 10 if f32 else rng.choice([2, 30, 80])
            site_mats, signs, exps, bits = [], [], [], []
            for t in range(n):
                if unif and t > 0:
                    site_mats.append(site_mats[0]), signs.append(signs[0])
                    exps.append(exps[0]), bits.append(bits[0])
                    continue
                site_mats.append(signed_perm(rng, D).to(dtype))
                nz = rng.choice([x for x in (1, 2, 4) if x <= d])
                which = rng.sample(range(d), nz)
                signs.append([rng.choice([-1, 1]) if a in which else 0 for a in range(d)])
                exps.append(rng.randint(-top, top) if rng.random() < 0.7 else rng.choice([-top, top]))
                bits.append(nz.bit_length() - 1)
            for _ in range(50):
                l = rint(rng, [D], -2, 2, dtype)
                r = rint(rng, [D], -2, 2, dtype)
                v = r
                for m in site_mats[::-1]:
                    v = m @ v
                if abs(float(l @ v)) > 0:
                    break
            else:
                continue
            core = torch.stack([
                torch.stack([sg * 2.0 ** e * m for sg in sgs])
                for m, sgs, e in zip(site_mats, signs, exps)])
            edges = torch.stack([l, r])
            if cplx:
                core = core * (1j ** rng.randrange(4)) * (0.6 + 0.8j)
                edges = torch.stack([l * (1j ** rng.randrange(4)), r * (1j ** rng.randrange(4))])
                # |0.6 + 0.8i| = 1
            if unif:
                model = ProbUnifMPS(d, D, complex_params=cplx)
                core = core[0]
            else:
                model = ProbMPS(n, d, D, complex_params=cplx)
            with torch.no_grad():
                model.core_tensors.copy_(core)
                model.edge_vecs.copy_(edges)
            c.set(l=mod(l), r=mod(r), mats=[mod(m) for m in site_mats], signs=signs, exp=exps, bits=bits,
                  unif=unif, cplx=cplx, n=n, dtype=str(dtype))
            seqs = [[rng.choice([a for a in range(d) if signs[t][a]]) for t in range(n)] for _ in range(2)]
            seqs.append([rng.randrange(d) for t in range(n)])
            x = torch.tensor(seqs)
            for kw, how in (({}, "default"), (dict(parallel_eval=True), "parallel"), (dict(slim_eval=True), "slim")):
                lp = model(x, **kw)
                for q, v in zip(seqs, lp.double().tolist()):
                    v /= LN2
                    tol = 0.05 if not f32 else 0.3
                    if v == -math.inf:
                        txt = "-inf"
                    elif not math.isfinite(v) or abs(v - round(v)) > tol:
                        txt = "bad"
                    else:
                        txt = str(int(round(v)))
                    c.ev("logp", seq=q, logp=txt, how=how)
            ln = model.log_norm(n) if unif else model.log_norm()
            shift = 2 * sum(exps) + sum(bits)
            c.ev("lognorm", shift=shift, z=enc1(math.exp(min(700, float(ln) - shift * LN2)),
                                                tol=0.3 if not f32 else 0.45) if math.isfinite(float(ln)) else -1)
