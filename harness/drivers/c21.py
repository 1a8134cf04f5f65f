"""C21: initial tensors and freshly built models"""
import itertools
import math

import torch

from drivers.chain import rows_event
from drivers.lib import enc1, mod, obs, rint

f32, f64 = torch.float32, torch.float64


def ints(t):
    return dict(shape=list(t.shape), data=obs(t)["data"])


def reim(t):
    """Entries of a tensor which should be real (others give -1)"""
    if t.is_complex():
        o, z = obs(t.real), obs(t.imag)
        return dict(shape=o["shape"], data=[a if b == 0 else -1 for a, b in zip(o["data"], z["data"])])
    return ints(t)


def tensor_event(c, shape, labels, method, dim, string=False):
    from torchmps.utils import init_tensor

    how = c.rng.choice([tuple, list])
    arg = {"random_zero": (method, 0.0), "random_eye": (method, 0), "min_random_eye": (method, 0.0, dim)}[method]
    if string:
        arg = method
    t = init_tensor(shape=how(shape), bond_str="".join(labels), init_method=arg)
    c.ev("tensor", shape=list(shape), labels=list(labels), method=method, dim=dim, res=ints(t))
    return t


def permille(x):
    return int(round(1000 * x)) if math.isfinite(x) else 10 ** 6


def noise_event(c, z, slices=()):
    """Moments of z, which should have independent entries of variance 1
    (for complex numbers: the squares of the moduli)"""
    n = z.numel()
    cplx = z.is_complex()
    z = z.to(torch.complex128 if cplx else f64)
    sq = (z.abs() ** 2).reshape(-1)
    mean = z.mean().abs().item()
    corr = []
    # Neighbouring slices, and the transpose
    for ax in range(z.dim()):
        if z.shape[ax] > 1:
            a, b = z.narrow(ax, 0, z.shape[ax] - 1), z.narrow(ax, 1, z.shape[ax] - 1)
            corr.append(((a.conj() * b).sum().abs() / sq.sum()).item())
            a, b = z.narrow(ax, 0, 1), z.narrow(ax, z.shape[ax] - 1, 1)
            m = a.numel()
            if m >= 300:
                corr.append(((a.conj() * b).sum().abs() / (a.abs() ** 2).sum().clamp(min=1e-30)).item() * math.sqrt(m / n))
    if z.dim() > 1 and z.shape[-1] == z.shape[-2] and z.shape[-1] > 20:
        off = z - torch.diag_embed(torch.diagonal(z, dim1=-2, dim2=-1))
        corr.append(((off.conj() * off.transpose(-1, -2)).sum().abs() / sq.sum()).item())
    c.ev("noise", mean=permille(mean), tolmean=permille(6 / math.sqrt(n)),
         var=permille(sq.mean().item()), tolvar=permille(6 * math.sqrt(2 / n)),
         slices=[permille(((s.abs() ** 2).mean()).item()) for s in slices],
         tolslice=permille(6.5 * math.sqrt(2 / min([s.numel() for s in slices] or [1]))),
         distinct=all(abs(x) < 7 / math.sqrt(n) * 1.5 for x in corr))


def init_noise(c):
    from torchmps.utils import init_tensor

    rng = c.rng
    labels = list(rng.choice(list(itertools.permutations("lro")) + [tuple("slri"), tuple("lr")]))
    sizes = {"l": rng.choice([30, 40]), "r": rng.choice([30, 40]), "o": 12, "s": 3, "i": 4}
    if len(labels) == 2:
        sizes = {"l": 120, "r": 100}
    shape = [sizes[ch] for ch in labels]
    method = rng.choice(["random_zero", "random_eye", "min_random_eye"])
    dim = rng.choice([3, 20, 35])
    std = rng.choice([2.0, 0.5, 0.1, 0.01])
    arg = (method, std, dim) if method == "min_random_eye" else (method, std)
    torch.set_default_dtype(f64)
    t = init_tensor(shape=shape, bond_str="".join(labels), init_method=arg)
    base = torch.zeros(shape)
    if method != "random_zero":
        l, r = labels.index("l"), labels.index("r")
        cap = min(sizes["l"], sizes["r"]) if method == "random_eye" else min(dim, sizes["l"], sizes["r"])
        view = base.movedim((l, r), (0, 1))
        for j in range(cap):
            view[j, j] = 1
    torch.set_default_dtype(f32)
    z = (t - base) / std
    on = z[base == 1]
    sl = [z[base == 0], z.narrow(0, 0, 1), z.narrow(0, shape[0] - 1, 1),
          z.narrow(1, shape[1] - 1, 1)]
    if on.numel() > 100:
        sl.append(on)
    noise_event(c, z, [s for s in sl if s.numel() > 50])


def core_noise(c):
    from torchmps.mps_base import near_eye_init, normal_init

    rng = c.rng
    D = rng.choice([24, 32])
    shape = rng.choice([(12, D, D), (3, 5, D, D), (2, 3, 4, D, D)])
    shape = rng.choice([tuple, torch.Size])(shape)
    cplx = rng.random() < 0.5
    torch.set_default_dtype(f64)
    if rng.random() < 0.5:
        noise = rng.choice([None, 1e-3, 0.1, 2.0])
        t = near_eye_init(shape, is_complex=cplx, **({} if noise is None else dict(noise=noise)))
        z = (t - torch.eye(D)) / ((noise or 1e-3) / D)
    else:
        std = rng.choice([None, 1.0, 0.1, 3.0])
        t = normal_init(shape, is_complex=cplx, **({} if std is None else dict(rel_std=std)))
        z = t / ((std or 1.0) / D)
    torch.set_default_dtype(f32)
    noise_event(c, z, [torch.diagonal(z, dim1=-2, dim2=-1), z[0], z[-1], z[..., -1]])
    if cplx:
        # Phases are spread over the circle
        u = z / z.abs()
        n = u.numel()
        lim = 6 / math.sqrt(n)
        c.ev("fact", what="phases of complex noise",
             holds=all(abs((u ** k).mean().item()) < lim for k in (1, 2, 3)))


def core_exact(c):
    from torchmps.mps_base import near_eye_init, normal_init

    rng = c.rng
    D = rng.choice([1, 2, 3])
    E = D
    lead = [rng.choice([1, 2, 3]) for _ in range(rng.choice([1, 2, 3]))]
    if len(lead) == 1 and rng.random() < 0.5:
        E = rng.choice([1, 2, 4])
    shape = tuple(lead + [D, E])
    cplx = rng.random() < 0.5
    t = near_eye_init(shape, is_complex=cplx, noise=0.0)
    c.ev("neareye", shape=list(shape), complex=cplx, iscomplex=t.is_complex(), res=reim(t))
    t = normal_init(shape, is_complex=cplx, rel_std=0.0)
    c.ev("zero", shape=list(shape), complex=cplx, iscomplex=t.is_complex(), res=reim(t))


def named(model):
    """Tensors of a model, whether they are parameters or buffers"""
    out = {k: (p, True) for k, p in model.named_parameters() if p.numel()}
    out.update({k: (b, b.requires_grad) for k, b in model.named_buffers() if b is not None})
    return out


def sup_options(rng, adaptive):
    N = rng.choice([1, 2, 3, 4, 5])
    D = rng.choice([1, 2, 3, 4])
    o = dict(type="sup", N=N, O=rng.choice([1, 2, 3, 5]), D=D, d=2 if adaptive else rng.choice([2, 2, 1, 3]),
             periodic=rng.random() < 0.4, adaptive=adaptive, bias=rng.random() < 0.7 and not adaptive, path=[])
    kw = dict(input_dim=N, output_dim=o["O"], bond_dim=D)
    if adaptive:
        kw["adaptive_mode"] = True
    if rng.random() < 0.5:
        kw["use_bias"] = o["bias"]
    else:
        o["bias"] = not adaptive
    if adaptive and rng.random() < 0.3:
        kw["use_bias"] = True  # has no effect
    if o["d"] != 2 or rng.random() < 0.5:
        kw["feature_dim"] = o["d"]
    if o["periodic"] or rng.random() < 0.5:
        kw["periodic_bc"] = o["periodic"]
    if rng.random() < 0.5:
        o["label"] = kw["label_site"] = rng.randint(0, N)
    else:
        o["label"] = N // 2
        if rng.random() < 0.3:
            kw["label_site"] = None
    if rng.random() < 0.3:
        o["path"] = kw["path"] = [rng.randrange(4) for _ in range(N)]
    if rng.random() < 0.4:
        kw["parallel_eval"] = rng.random() < 0.5
    if adaptive and rng.random() < 0.5:
        kw["merge_threshold"] = rng.choice([1, 10, 5000])
    if rng.random() < 0.3:
        kw["cutoff"] = 1e-8
    return o, kw


def fresh_sup(c, adaptive, std):
    from torchmps import MPS

    rng = c.rng
    o, kw = sup_options(rng, adaptive)
    if std is not None:
        kw["init_std"] = std
    model = MPS(**kw)
    c.set(options=str(kw))
    want = dict(input_dim=o["N"], output_dim=o["O"], bond_dim=o["D"], feature_dim=o["d"],
                periodic_bc=o["periodic"], adaptive_mode=adaptive, label_site=o["label"],
                use_bias=o["bias"], merge_threshold=kw.get("merge_threshold", 2000), feature_map=None)
    attrs = {k: getattr(model, k) for k in want}
    tensors = []
    if not adaptive:
        ts = named(model)
        order = (["left"] if o["label"] else []) + ["output"] + (["right"] if o["label"] < o["N"] else [])
        par = {}
        for i, role in enumerate(order):
            t, train = ts.pop(f"linear_region.module_list.{i}.tensor")
            par[role] = t
            tensors.append(dict(name=role, shape=list(t.shape), trains=train))
            b = ts.pop(f"linear_region.module_list.{i}.bias_mat", None)
            if b is not None:
                par[role + "bias"] = b[0]
                tensors.append(dict(name={"left": "biasL", "right": "biasR"}.get(role, "?"),
                                    shape=list(b[0].shape), trains=b[1]))
        tensors.extend(dict(name=k, shape=list(t.shape), trains=tr) for k, (t, tr) in ts.items())
        c.ev("fresh", o=o, tensors=tensors, attrs=[f"{k}={v}" for k, v in attrs.items()],
             wanted=[f"{k}={v}" for k, v in want.items()])
        cores = []
        for role in ("left", "right"):
            if role in par:
                cores.extend(obs_nested(par[role]))
        c.ev("values", o=o, model=dict(
            cores=cores, outcore=obs_nested(par["output"]),
            biasL=obs_nested(par["leftbias"])[0] if "leftbias" in par else [],
            biasR=obs_nested(par["rightbias"])[0] if "rightbias" in par else []))
    else:
        for k, v in want.items():
            c.ev("fact", holds=attrs[k] == v, what="options of a fresh model")
        sv = model.sv_list
        c.ev("reports", o=o, bonds=[int(b) for b in model.bond_list], svshape=list(sv.shape),
             svempty=bool((sv == -1).all()))
        ends = [p for p in model.parameters()]
        c.ev("fact", holds=len(ends) > 0 and all(p.requires_grad for p in ends),
             what="parameters of a fresh model")
    if o["bias"] or adaptive:
        L = max([4] if o["path"] else [o["N"]])
        rows = [rint(rng, [L] if o["d"] == 2 and rng.random() < 0.7 else [L, o["d"]], -2, 3, f32)
                for _ in range(rng.choice([1, 3]))]
        rows = [r for r in rows if r.dim() == rows[0].dim()]
        if adaptive:
            model.eval()
        with torch.no_grad():
            out = model(torch.stack(rows))
        rows_event(c, 1, rows, list(range(len(rows))), out, "fresh")
        c.events[-1]["o"] = o


def obs_nested(t):
    flat = obs(t)
    return torch.tensor(flat["data"], dtype=torch.int64).reshape(flat["shape"]).tolist()


def fresh_ti(c, std):
    from torchmps import TI_MPS

    rng = c.rng
    D = rng.choice([1, 2, 3, 4])
    o = dict(type="ti", D=D, O=rng.choice([1, 2, 3]), d=rng.choice([2, 2, 1, 3]), bias=True,
             fixedbias=True, fixedends=False, N=0)
    kw = dict(output_dim=o["O"], bond_dim=D)
    if o["d"] != 2 or rng.random() < 0.5:
        kw["feature_dim"] = o["d"]
    if rng.random() < 0.6 and o["O"] <= D:
        o["fixedends"] = kw["fixed_ends"] = True
    if rng.random() < 0.5:
        o["bias"] = kw["use_bias"] = rng.random() < 0.5
    if rng.random() < 0.5:
        o["fixedbias"] = kw["fixed_bias"] = rng.random() < 0.5
    if rng.random() < 0.5:
        kw["parallel_eval"] = rng.random() < 0.5
    if std is not None:
        kw["init_std"] = std
    c.set(options=str(kw))
    model = TI_MPS(**kw)
    ts = named(model)
    par, tensors = {}, []
    for key, role in (("core_tensor", "core"), ("bias_mat", "bias"), ("init_vector.vec", "init"),
                      ("terminal_mat.mat", "term")):
        if key in ts:
            t, train = ts.pop(key)
            par[role] = t
            tensors.append(dict(name=role, shape=list(t.shape), trains=train))
    tensors.extend(dict(name=k, shape=list(t.shape), trains=tr) for k, (t, tr) in ts.items())
    want = dict(output_dim=o["O"], bond_dim=D, feature_dim=o["d"], use_bias=o["bias"],
                fixed_bias=o["fixedbias"], feature_map=None)
    c.ev("fresh", o=o, tensors=tensors, attrs=[f"{k}={getattr(model, k)}" for k in want],
         wanted=[f"{k}={v}" for k, v in want.items()])
    c.ev("values", o=o, model=dict(cores=[obs_nested(par["core"])], init=obs_nested(par["init"]),
                                   biasL=obs_nested(par["bias"]) if "bias" in par else [],
                                   term=obs_nested(par["term"])))
    if o["fixedends"]:
        n = rng.choice([1, 2, 5])
        rows = [rint(rng, [n] if o["d"] == 2 and rng.random() < 0.7 else [n, o["d"]], -2, 3, f32)]
        with torch.no_grad():
            out = model(torch.stack(rows))
        rows_event(c, 1, rows, [0], out, "fresh")
        c.events[-1]["o"] = o


def fresh_prob(c):
    from torchmps.prob_mps import ProbMPS

    try:
        from torchmps.prob_mps import ProbUnifMPS
    except ImportError:
        ProbUnifMPS = None
    rng = c.rng
    unif = ProbUnifMPS is not None and rng.random() < 0.5
    N, d, D = rng.choice([1, 2, 5]), rng.choice([1, 2, 4]), rng.choice([1, 2, 6])
    big = rng.random() < 0.3
    if big:
        N, d, D = 4, 3, 40
    o = dict(type="prob", N=0 if unif else N, d=d, D=D, bias=False)
    kw = dict(input_dim=d, bond_dim=D) if unif else dict(seq_len=N, input_dim=d, bond_dim=D)
    cplx = rng.random() < 0.5
    if cplx or rng.random() < 0.5:
        kw["complex_params"] = cplx
    if rng.random() < 0.5:
        o["bias"] = kw["use_bias"] = rng.random() < 0.7
    method = rng.choice([None, "near_eye", "normal"])
    if method:
        kw["init_method"] = method
    c.set(options=str(kw))
    torch.set_default_dtype(f64)
    model = (ProbUnifMPS if unif else ProbMPS)(**kw)
    torch.set_default_dtype(f32)
    ts = named(model)
    par, tensors = {}, []
    for key, role in (("core_tensors", "core"), ("edge_vecs", "edge"), ("bias_mat", "bias")):
        if key in ts:
            t, train = ts.pop(key)
            par[role] = t.detach()
            tensors.append(dict(name=role, shape=list(t.shape), trains=train))
    tensors.extend(dict(name=k, shape=list(t.shape), trains=tr) for k, (t, tr) in ts.items())
    want = dict(input_dim=d, bond_dim=D, complex_params=cplx, use_bias=o["bias"])
    if not unif:
        want["seq_len"] = N
    c.ev("fresh", o=o, tensors=tensors, attrs=[f"{k}={getattr(model, k)}" for k in want],
         wanted=[f"{k}={v}" for k, v in want.items()])
    c.ev("fact", holds=all(t.is_complex() == cplx for t in par.values()), what="kind of numbers of a fresh model")
    e = par["edge"]
    c.ev("fact", holds=bool(torch.allclose(e[0].abs(), e[1].abs(), rtol=1e-5)),
         what="initial edge vectors of different sizes")
    if not cplx:
        c.ev("fact", holds=bool(torch.equal(e[0], e[1])), what="initial edge vectors differ")
    if "bias" in par:
        c.ev("fact", holds=bool((par["bias"] == 0).all()), what="initial bias matrix isn't zero")
    core = par["core"]
    if method != "normal":
        c.ev("neareye", shape=o_shape(o), complex=cplx, iscomplex=core.is_complex(), res=reim(core))
    if big:
        z = core * D if method == "normal" else (core - torch.eye(D)) / (1e-3 / D)
        noise_event(c, z, [torch.diagonal(z, dim1=-2, dim2=-1), z[0], z[-1]])


def o_shape(o):
    return ([o["N"]] if o["N"] else []) + [o["d"], o["D"], o["D"]]


def model_noise(c):
    """Noise of larger models"""
    from torchmps import MPS, TI_MPS
    from torchmps.prob_mps import ProbMPS

    rng = c.rng
    std = rng.choice([0.5, 0.01])
    what = rng.choice(["sup", "ti", "edge"])
    torch.set_default_dtype(f64)
    if what == "sup":
        m = MPS(6, 10, 30, init_std=std)
        ts = [p.detach() for k, p in m.named_parameters() if k.endswith(".tensor")]
        z = [ts[0] / std, (ts[1] - torch.eye(30)) / std, ts[2] / std]
    elif what == "ti":
        m = TI_MPS(40, 50, feature_dim=4, init_std=std, fixed_bias=False)
        z = [m.core_tensor.detach() / std, (m.bias_mat.detach() - torch.eye(50)) / std,
             (m.terminal_mat.mat.detach() - torch.eye(50, 40)) * 50]
    else:
        # Both edge vectors are the same
        z = [torch.stack([ProbMPS(1, 1, 400).edge_vecs.detach()[0] for _ in range(10)]) * math.sqrt(400)]
    torch.set_default_dtype(f32)
    for t in z:
        noise_event(c, t, [t[0], t[-1]])


def ends(c):
    """Initial vectors and terminal matrices as modules"""
    from torchmps.contractables import Contractable
    from torchmps.torchmps import InitialVector, TerminalOutput

    rng = c.rng
    D, B, left = rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 3]), rng.random() < 0.5
    fixed = rng.random() < 0.5
    if rng.random() < 0.6:
        fill = rng.choice([None] + list(range(D + 1)))
        kw = {} if fill is None else dict(fill_dim=fill)
        m = InitialVector(D, fixed_vec=fixed, is_left_vec=left, **kw)
        what, O, fill = "vector", 1, D if fill is None else fill
    else:
        O, fill = rng.randint(1, D), 0
        m = TerminalOutput(D, O, fixed_mat=True, is_left_mat=left)
        what, fixed = "matrix", True
    c.ev("fact", holds=len(m) == 0 and m.core_len() == 1, what="boundary tensors have a core and no input")
    Contractable.global_bs = B
    with torch.no_grad():
        x = m(batch_size=B) if rng.random() < 0.5 else m()
    from drivers.c17 import view
    c.ev("ends", what=what, D=D, O=O, fill=fill, left=left, batch=B, kind=view(x)["kind"], fixed=fixed,
         trains=any(True for _ in m.parameters()), res=ints(x.tensor))


def drive(rec):
    labels = [p for n in (("l", "r"), ("l", "r", "o"), ("l", "r", "o", "s")) for p in itertools.permutations(n)]
    methods = ["random_zero", "random_eye", "min_random_eye"]
    for i in rec.cases("tensor", len(labels), 8 * len(labels)):
        with rec.case("tensor", i) as c:
            c.set(judge="J_Init")
            lab = labels[i % len(labels)]
            for method in methods:
                for _ in range(8):
                    shape = [c.rng.choice([1, 2, 3, 4]) for _ in lab]
                    tensor_event(c, shape, lab, method, c.rng.choice([0, 1, 1, 2, 2, 3, 4, 7]))
                if method != "min_random_eye":
                    tensor_event(c, [c.rng.choice([1, 2, 3]) for _ in lab], lab, method, 1, string=True)
            other = c.rng.choice(["o", "ab", "xyz", ""])
            tensor_event(c, [c.rng.choice([1, 2]) for _ in other], list(other), "random_zero", 1)
    for i in rec.cases("wide", 20, 200):
        with rec.case("wide", i) as c:
            c.set(judge="J_Init")
            lab = c.rng.choice(labels[:8])
            shape = [c.rng.choice([5, 17, 30]) if ch in "lr" else 2 for ch in lab]
            tensor_event(c, shape, lab, c.rng.choice(methods[1:]), c.rng.choice([4, 16, 29]))
    for i in rec.cases("noise", 60, 600):
        with rec.case("noise", i) as c:
            c.set(judge="J_Init")
            (init_noise, core_noise, model_noise)[i % 3](c)
    for i in rec.cases("cores", 60, 600):
        with rec.case("cores", i) as c:
            c.set(judge="J_Init")
            core_exact(c)
    for i in rec.cases("ends", 60, 600):
        with rec.case("ends", i) as c:
            c.set(judge="J_Init")
            for _ in range(4):
                ends(c)
    for name, run in (("sup", lambda c, s: fresh_sup(c, False, s)), ("adaptive", lambda c, s: fresh_sup(c, True, s)),
                      ("ti", fresh_ti), ("prob", lambda c, s: fresh_prob(c))):
        for i in rec.cases(name, 120, 1500):
            with rec.case(name, i) as c:
                c.set(judge="J_Init")
                run(c, [None, 0.0, 0, 1e-6][i % 4])
