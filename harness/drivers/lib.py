"""Encoding of tensors as integers, and construction of models with integer
(or dyadic) parameters, whose results are exact in floating-point arithmetic."""
import math

import torch

P = 46337
BAD = -1


class Skip(Exception):
    """A random configuration for which no exactly representable parameters
    were found; the case is dropped"""


def mod(t):
    """Nested list of the entries of an integer tensor, modulo P"""
    t = torch.as_tensor(t).detach()
    if t.is_complex():
        return [mod(t.real), mod(t.imag)]
    return (t.to(torch.float64).round().to(torch.int64) % P).tolist()


def enc1(x, scale=1.0, tol=0.02):
    """One observed number, which has to be an integer after scaling"""
    x = float(x) * scale
    if not math.isfinite(x) or abs(x) > 2.0 ** 53:
        return BAD
    r = round(x)
    if abs(x - r) > tol:
        return BAD
    return r % P


def obs(t, scale=1.0, tol=0.02):
    """Shape and entries of an observed tensor"""
    t = t.detach()
    if t.is_complex():
        re, im = obs(t.real, scale, tol), obs(t.imag, scale, tol)
        return {"shape": re["shape"], "re": re["data"], "im": im["data"]}
    flat = t.to(torch.float64).reshape(-1) * scale
    r = flat.round()
    good = torch.isfinite(flat) & (flat.abs() <= 2.0 ** 53) & ((flat - r).abs() <= tol)
    r = torch.where(good, r, torch.zeros_like(r)).to(torch.int64) % P
    r = torch.where(good, r, torch.full_like(r, BAD))
    return {"shape": list(t.shape), "data": r.tolist()}


def rint(rng, shape, lo, hi, dtype=None, density=1.0):
    """Random integer tensor"""
    n = 1
    for s in shape:
        n *= s
    vals = [
        float(rng.randint(lo, hi)) if density >= 1 or rng.random() < density else 0.0
        for _ in range(n)
    ]
    return torch.tensor(vals, dtype=dtype or torch.get_default_dtype()).reshape(shape)


def signed_perm(rng, D):
    perm = list(range(D))
    rng.shuffle(perm)
    m = torch.zeros(D, D)
    for i, j in enumerate(perm):
        m[i, j] = rng.choice([-1.0, 1.0])
    return m


def put(param, value):
    """Set a parameter in place"""
    with torch.no_grad():
        param.copy_(value)
