"""C22: invalid arguments are refused and leave the model unchanged"""
import copy
import itertools

import numpy as np
import torch
from torch import nn

from drivers.life import same_state, snapshot

f32, f64 = torch.float32, torch.float64


def trial(c, f, fun, **a):
    raised = False
    try:
        fun()
    except Exception as e:
        if type(e).__name__ == "CaseTimeout":
            raise
        raised = True
    c.ev("try", f=f, a=a, raised=raised)


def some(rng, items, n):
    """All the items in the thorough tier, otherwise a random choice"""
    items = list(items)
    return items if n is None or len(items) <= n else rng.sample(items, n)


def rand_shape(rng, base):
    """A shape which is right, or wrong in one or two places"""
    s = list(base)
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        how = rng.randrange(4)
        if how == 0 and s:
            i = rng.randrange(len(s))
            s[i] = max(1, s[i] + rng.choice([-2, -1, 1, 2]))
        elif how == 1 and s:
            s.pop(rng.randrange(len(s)))
        elif how == 2:
            s.insert(rng.randint(0, len(s)), rng.choice([1, 2]))
        elif s:
            i, j = rng.randrange(len(s)), rng.randrange(len(s))
            s[i], s[j] = s[j], s[i]
    return s


# ---- public constructors and functions ----


def t_mps(c):
    from torchmps import MPS

    rng = c.rng
    for _ in range(12):
        N, D, d, O = rng.randint(1, 4), rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3)
        label = rng.choice([None, -2, -1, 0, N, N + 1, N + 2, rng.randint(0, N)])
        path = rng.choice(["none", "none", "list", "tensor", "tuple", "array"])
        plen = N if path != "none" and rng.random() < 0.4 else rng.randint(1, N + 2)
        p = [rng.randrange(N) for _ in range(plen)]
        arg = dict(none=None, list=p, tensor=torch.tensor(p), tuple=tuple(p), array=np.array(p))[path]
        kw = dict(adaptive_mode=rng.random() < 0.4, use_bias=rng.random() < 0.5, periodic_bc=rng.random() < 0.5)
        trial(c, "mps", lambda: MPS(N, O, D, feature_dim=d, label_site=label, path=arg, **kw),
              N=N, haslabel=label is not None, label=label or 0, path=path, plen=plen)


def t_mps_input(c):
    from torchmps import MPS

    rng = c.rng
    N, D, d, O = rng.randint(1, 4), rng.randint(1, 3), rng.choice([1, 2, 2, 3]), rng.randint(1, 3)
    path = None
    if rng.random() < 0.4:
        path = [rng.randrange(N + 1) for _ in range(N)]
    model = MPS(N, O, D, feature_dim=d, path=path, label_site=rng.choice([None, 0, N]),
                adaptive_mode=rng.random() < 0.4, periodic_bc=rng.random() < 0.3,
                parallel_eval=rng.random() < 0.5)
    hasmap = rng.random() < 0.4
    if hasmap:
        model.register_feature_map(lambda x: x * torch.ones(d))
    for _ in range(14):
        L = N if path is None else max(path) + 1
        shape = rand_shape(rng, [rng.randint(1, 3), L] + ([d] if rng.random() < 0.5 else []))
        kind = "tensor" if rng.random() < 0.9 else rng.choice(["list", "array", "tuple"])
        x = torch.randn(shape)
        x = dict(tensor=x, list=x.tolist(), array=x.numpy(), tuple=(x,))[kind]
        trial(c, "mps input", lambda: model(x), N=N, d=d, kind=kind, shape=shape, haspath=path is not None,
              pmax=max(path or [0]), hasmap=hasmap)


def t_ti(c):
    from torchmps import TI_MPS

    for O, D, ends in itertools.product([1, 2, 3, 4], [1, 2, 3], [True, False, None, 1, "yes"]):
        for bias, fixed in ((True, True), (True, False), (False, False)):
            trial(c, "ti", lambda: TI_MPS(O, D, fixed_ends=ends, use_bias=bias, fixed_bias=fixed),
                  O=O, D=D, ends={True: "true", False: "false"}[ends] if isinstance(ends, bool) else "other")


def t_ti_input(c):
    from torchmps import TI_MPS

    rng = c.rng
    d = rng.choice([1, 2, 2, 3])
    bias, fixed = rng.choice([(True, True), (True, True), (True, False), (False, True), (False, False)])
    model = TI_MPS(rng.randint(1, 3), rng.randint(1, 3), feature_dim=d, use_bias=bias, fixed_bias=fixed,
                   parallel_eval=rng.random() < 0.5)
    hasmap = rng.random() < 0.4
    if hasmap:
        model.register_feature_map(lambda x: x * torch.ones(d))
    base = dict(d=d, hasmap=hasmap, pads=bias and fixed)
    for _ in range(14):
        kind = rng.choice(["tensor", "list", "list", "list", "tuple", "array", "str"])
        shape, items, x = [], [], None
        if kind in ("tensor", "array", "str"):
            shape = rand_shape(rng, [rng.randint(1, 3), rng.randint(1, 3)] + ([d] if rng.random() < 0.5 else []))
            x = torch.randn(shape)
            x = dict(tensor=x, array=x.numpy(), str="input")[kind]
        else:
            emb, L = rng.random() < 0.5, rng.randint(1, 3)
            x = []
            for _ in range(rng.choice([0, 1, 2, 2, 3])):
                s = [L if rng.random() < 0.7 else rng.randint(1, 3)] + ([d] if emb else [])
                if rng.random() < 0.15:
                    s = rand_shape(rng, s)
                t = torch.randn(s)
                ok = rng.random() < 0.93
                items.append(dict(tensor=ok, shape=s))
                x.append(t if ok else t.numpy() if rng.random() < 0.5 else t.tolist())
            x = tuple(x) if kind == "tuple" else x
        trial(c, "ti input", lambda: model(x), kind=kind, shape=shape, items=items, **base)


def t_map(c):
    from torchmps import MPS, TI_MPS

    rng = c.rng
    for _ in range(14):
        d = rng.randint(1, 3)
        model = MPS(2, 2, 2, feature_dim=d) if rng.random() < 0.5 else TI_MPS(2, 2, feature_dim=d)
        shape = rand_shape(rng, [d])
        tensor = rng.random() < 0.8 or isinstance(model, MPS)
        out = torch.zeros(shape)
        out = out if tensor else rng.choice([out.numpy(), out.tolist(), None])
        trial(c, "map", lambda: model.register_feature_map(lambda x: out), d=d, shape=shape, tensor=tensor)


def t_modules(c):
    from torchmps.contractables import ContractableList, Scalar, SingleMat
    from torchmps.torchmps import InputSite, LinearRegion, MergedLinearRegion, OutputSite

    rng = c.rng
    for _ in range(16):
        n = rng.randint(0, 3)
        good = [rng.random() < 0.85 for _ in range(n)]
        kind = "list" if rng.random() < 0.8 else rng.choice(["tuple", "item", "none"])
        junk = [5, "x", torch.zeros(2, 2, 2), None]
        if rng.random() < 0.5:
            cls = ContractableList
            items = [SingleMat(torch.zeros(2, 2, 2)) if g else rng.choice(junk) for g in good]
            item = Scalar(torch.zeros(2))
        else:
            cls = LinearRegion
            items = [OutputSite(torch.zeros(2, 2, 2)) if g else rng.choice(junk) for g in good]
            item = OutputSite(torch.zeros(2, 2, 2))
            if rng.random() < 0.3 and n == 0 and kind == "list":
                cls = MergedLinearRegion
        arg = dict(list=items, tuple=tuple(items), item=item, none=None)[kind]
        trial(c, "modules", lambda: cls(arg), kind=kind, items=good)


def t_region(c):
    from torchmps.torchmps import InputRegion, InputSite

    rng = c.rng
    for _ in range(12):
        N, D, d = rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3)
        shape = rand_shape(rng, [N, D, D, d])
        bias = rng.choice(["off", "none", "tensor", "tensor", "other"])
        brank = rng.choice([1, 2, 2, 3, 4])
        mat = dict(off=None, none=None, tensor=torch.zeros([D] * brank), other=rng.choice([[[0.0]], "x", 1.0]))[bias]
        trial(c, "region", lambda: InputRegion(torch.zeros(shape), use_bias=bias != "off", bias_mat=mat,
                                               fixed_bias=rng.random() < 0.5),
              shape=shape, bias=bias, brank=brank)
        region = InputRegion(torch.zeros(N, D, D, d), use_bias=rng.random() < 0.5, fixed_bias=False)
        shape = rand_shape(rng, [2, N, d])
        trial(c, "region input", lambda: region(torch.zeros(shape)), shape=shape, N=N, d=d)
        site = InputSite(torch.zeros(D, rng.randint(1, 3), d))
        shape = rand_shape(rng, [2, d])
        trial(c, "site input", lambda: site(torch.zeros(shape)), shape=shape, d=d)


def t_ends(c):
    from torchmps.torchmps import InitialVector, TerminalOutput

    for D, fill, flag in itertools.product([1, 2, 3], [None, -2, -1, 0, 1, 2, 3, 4], [True, False, None, 1, "left"]):
        trial(c, "initial", lambda: InitialVector(D, fill_dim=fill, is_left_vec=flag, fixed_vec=c.rng.random() < 0.5),
              D=D, hasfill=fill is not None, fill=fill or 0, bool=isinstance(flag, bool))
    for D, O, fixed, flag in itertools.product([1, 2, 3], [1, 2, 3, 4], [True, False], [True, False, None, 0]):
        trial(c, "terminal", lambda: TerminalOutput(D, O, fixed_mat=fixed, is_left_mat=flag),
              D=D, O=O, fixed=fixed, bool=isinstance(flag, bool))


def with_size(size, fun):
    from torchmps.contractables import Contractable

    old = Contractable.global_bs
    Contractable.global_bs = size
    try:
        return fun()
    finally:
        Contractable.global_bs = old


def t_contractable(c):
    from torchmps.contractables import Contractable, EdgeVec, MatRegion, OutputCore, OutputMat, SingleMat

    rng = c.rng
    dims = dict(MatRegion=[2, 3, 3], OutputCore=[2, 3, 3], SingleMat=[3, 3], OutputMat=[3, 2], EdgeVec=[3])
    for _ in range(20):
        cls = rng.choice(list(dims))
        make = dict(MatRegion=MatRegion, OutputCore=OutputCore, SingleMat=SingleMat,
                    OutputMat=lambda t: OutputMat(t, rng.random() < 0.5),
                    EdgeVec=lambda t: EdgeVec(t, rng.random() < 0.5))[cls]
        shape = rand_shape(rng, ([4] if rng.random() < 0.6 else []) + dims[cls])
        if not shape:
            continue
        size = rng.choice([None, None, 2, 4])
        trial(c, "contractable", lambda: with_size(size, lambda: make(torch.zeros(shape))),
              cls=cls, shape=shape, size=size is not None)
    for _ in range(12):
        labels = rng.sample("blrox", rng.randint(1, 4))
        if rng.random() < 0.5 and "b" in labels:
            labels.remove("b")
            labels.insert(0, "b")
        shape = [rng.randint(1, 3) for _ in range(max(1, len(labels) + rng.choice([-2, -1, 0, 0, 1])))]
        size = rng.choice([None, None, 2, 4])
        trial(c, "bond string", lambda: with_size(size, lambda: Contractable(torch.zeros(shape), "".join(labels))),
              labels=labels, shape=shape, size=size is not None)


def t_init(c):
    from torchmps.mps_base import near_eye_init, normal_init
    from torchmps.utils import init_tensor

    rng = c.rng
    for _ in range(20):
        labels = rng.sample("lrosi", rng.randint(1, 5))
        if rng.random() < 0.2:
            labels[rng.randrange(len(labels))] = rng.choice(labels)
        shape = [rng.randint(1, 3) for _ in labels]
        if rng.random() < 0.3:
            shape = rand_shape(rng, shape)
        method = rng.choice(["random_zero", "random_eye", "min_random_eye", "random_eye", "zero", "eye", "random"])
        arg = (method, 0.1, 2) if method == "min_random_eye" or rng.random() < 0.5 else \
            method if rng.random() < 0.3 else (method, 0.1)
        trial(c, "init", lambda: init_tensor(shape=shape, bond_str="".join(labels), init_method=arg),
              shape=shape, labels=labels, method=method)
    for _ in range(12):
        base = [rng.randint(1, 3), rng.randint(1, 3), 2, 2] if rng.random() < 0.5 else [rng.randint(1, 3), 2, 2]
        shape = rand_shape(rng, base)
        f = rng.choice([near_eye_init, normal_init])
        arg = tuple(shape) if rng.random() < 0.7 or f is normal_init else list(shape)
        trial(c, "core init", lambda: f(tuple(arg), is_complex=rng.random() < 0.3), shape=shape)


def t_svd(c):
    from torchmps.utils import svd_flex

    rng = c.rng
    # Fixed shapes and strings with a defect
    for _ in range(10):
        init, left, right = rng.choice([("lr", "lu", "ur"), ("lr", "ul", "ru"), ("lrij", "lui", "jur"),
                                        ("olri", "olu", "uri"), ("ij", "iu", "uj")])
        how = rng.choice(["ok", "ok", "dup", "miss", "twobonds", "nobond", "extra", "arrow", "comma", "upper",
                          "parts", "swap", "reuse"])
        arrows, parts = 1, 2
        if how == "dup":
            left = left + left[0]
        elif how == "miss":
            i = rng.randrange(len(right))
            right = right[:i] + right[i + 1:]
        elif how == "twobonds":
            left, right = left + "z", right + "z"
        elif how == "nobond":
            left, right = left.replace("u", "v"), right
        elif how == "extra":
            right = right + "q"
        elif how == "arrow":
            arrows = rng.choice([0, 2])
        elif how == "comma":
            parts = 1
        elif how == "parts":
            parts = 3
        elif how == "swap":
            left, right = right, left
        elif how == "reuse":
            left = left + right[0] if right[0] != "u" else left + right[1]
        shape = [rng.randint(1, 3) for _ in init]
        if rng.random() < 0.1:
            shape.append(2)
        t = torch.randn(shape, dtype=f64)
        if how == "upper":
            left, right = left.replace("u", "U"), right.replace("u", "U")
            text = f"{init}->{left},{right}"
            parts = 99  # only lower case letters are allowed
        else:
            text = {0: f"{init} {left},{right}", 1: f"{init}->{left},{right}",
                    2: f"{init}->{left},{right}->{left}"}[arrows]
            if parts == 1:
                text = text.replace(",", "")
            elif parts == 3:
                text = text + "," + left
        trial(c, "svd", lambda: svd_flex(t, text, cutoff=0.0), arrows=arrows, parts=parts, init=list(init),
              left=list(left), right=list(right), shape=shape, above=1, hasvec=False, vlen=0, vwant=0)
    # Cutoffs
    for _ in range(10):
        n, m = rng.randint(1, 4), rng.randint(1, 4)
        svs = sorted([rng.randint(0, 4) for _ in range(min(n, m))], reverse=True)
        t = torch.zeros(n, m, dtype=f64)
        for i, v in enumerate(svs):
            t[i, i] = v
        max_D = rng.choice([None, None, 1, 2, 3, 5])
        cutoff = rng.choice([0.5, 1.5, 2.5, 3.5, 4.5])
        got = svs[:max_D]
        want = max_D or min(n, m)
        vlen = want + rng.choice([0, 0, 0, 1, -1])
        hasvec = rng.random() < 0.5
        kw = dict(sv_vec=torch.zeros(max(vlen, 0), dtype=f64)) if hasvec else {}
        trial(c, "svd", lambda: svd_flex(t, "lr->lu,ur", max_D=max_D, cutoff=cutoff, **kw), arrows=1, parts=2,
              init=["l", "r"], left=["l", "u"], right=["u", "r"], shape=[n, m],
              above=sum(v >= cutoff for v in got), hasvec=hasvec, vlen=vlen, vwant=want)


def t_prob(c):
    from torchmps import ProbMPS
    from torchmps.embeddings import DataDomain, FixedEmbedding
    from torchmps.prob_mps import ProbUnifMPS

    rng = c.rng
    for _ in range(14):
        n, d, D = (rng.choice([0, -1]) if rng.random() < 0.12 else rng.randint(1, 3) for _ in range(3))
        method = rng.choice(["near_eye", "near_eye", "normal", "normal", "eye", "random_eye", ""])
        emb = rng.choice(["none", "none", "module", "fun"])
        edim = rng.choice([d, d, d, d + 1, max(1, d - 1)]) if d > 0 else 2
        domain = rng.random() < 0.75
        fun = lambda x: torch.stack([x + j for j in range(edim)], dim=-1)  # noqa: E731
        unif = rng.random() < 0.5
        dom = DataDomain(continuous=True, max_val=1.0, min_val=0.0)

        def build():
            kw = dict(init_method=method, complex_params=rng.random() < 0.3, use_bias=rng.random() < 0.3)
            if emb == "module":
                kw["embed_fun"] = FixedEmbedding(fun, dom)
            elif emb == "fun":
                kw["embed_fun"] = fun
                if domain:
                    kw["domain"] = dom
            return ProbUnifMPS(d, D, **kw) if unif else ProbMPS(n, d, D, **kw)

        trial(c, "prob", build, n=1 if unif else n, d=d, D=D, method=method, emb=emb, edim=edim, domain=domain)


def t_prob_input(c):
    from torchmps import ProbMPS
    from torchmps.prob_mps import ProbUnifMPS

    rng = c.rng
    n, d, D, unif = rng.randint(1, 4), rng.randint(1, 3), rng.randint(1, 3), rng.random() < 0.4
    bias, cplx = rng.random() < 0.4, rng.random() < 0.4
    kw = dict(use_bias=bias, complex_params=cplx)
    model = ProbUnifMPS(d, D, **kw) if unif else ProbMPS(n, d, D, **kw)
    for _ in range(14):
        vec = rng.random() < 0.5
        shape = rand_shape(rng, [rng.randint(1, 3), n] + ([d] if vec else []))
        high = 0
        if len(shape) == 2:
            high = rng.choice([0, d - 1, d - 1, d, d + 1])
            x = torch.full(shape, high, dtype=torch.long)
        else:
            x = torch.rand(shape) + 0.5
        slim, par = rng.random() < 0.4, rng.random() < 0.4
        call = model if rng.random() < 0.7 else model.loss
        trial(c, "prob input", lambda: call(x, slim_eval=slim, parallel_eval=par), n=n, d=d, fixedlen=not unif,
              shape=shape, high=high, slim=slim, parallel=par, bias=bias)


def t_domain(c):
    from torchmps.embeddings import DataDomain, TrainableEmbedding, init_mlp_embed

    rng = c.rng
    for cont, hi, lo in itertools.product([True, False], [-2, -1, 0, 1, 2, 2.5], [None, -3, -1, 0, 1, 2, 2.5]):
        trial(c, "domain", lambda: DataDomain(continuous=cont, max_val=hi, min_val=lo), cont=cont, max=int(2 * hi),
              hasmin=lo is not None, min=int(2 * (lo or 0)))
    for layers, hidden in itertools.product([1, 2, 3], [5, [], [3], [3, 4], [2, 2, 2], (3,)]):
        isint = isinstance(hidden, int)
        trial(c, "mlp", lambda: init_mlp_embed(rng.randint(1, 3), num_layers=layers, hidden_dims=hidden),
              layers=layers, isint=isint, hidden=0 if isint else len(hidden))


def t_product(c):
    from torchmps.mps_base import contract_matseq

    rng = c.rng
    for _ in range(20):
        k = rng.choice([0, 1, 1, 2, 3])
        same = rng.random() < 0.4
        ds = [rng.randint(1, 3)] * (k + 1) if same else [rng.randint(1, 3) for _ in range(k + 1)]
        mats = [[ds[i], ds[i + 1]] for i in range(k)]
        if k and rng.random() < 0.25:
            mats[rng.randrange(k)][rng.randrange(2)] += 1
        hasl, hasr = rng.random() < 0.5, rng.random() < 0.5
        l, r = ds[0] + (rng.random() < 0.15), ds[-1] + (rng.random() < 0.15)
        # A vector of length 1 would be broadcast
        ts = [torch.ones([2] + m) for m in mats]
        arg = ts if rng.random() < 0.7 else tuple(ts)
        kw = dict(left_vec=torch.ones(2, l) if hasl else None, right_vec=torch.ones(2, r) if hasr else None,
                  parallel_eval=rng.random() < 0.5, log_format=rng.random() < 0.5)
        trial(c, "product", lambda: contract_matseq(arg, **kw), mats=mats, hasl=hasl, hasr=hasr, l=l, r=r)


def t_broadcast(c):
    from torchmps.utils2 import batch_broadcast, batch_to, realify

    rng = c.rng
    for _ in range(16):
        k = rng.randint(0, 3)
        full = [rng.randint(1, 3) for _ in range(3)]
        shapes, nnb = [], []
        for _ in range(k):
            b = [s if rng.random() < 0.6 else 1 for s in full[rng.randint(0, 3):]]
            if b and rng.random() < 0.15:
                b[rng.randrange(len(b))] += 1
            n = rng.randint(0, 2)
            shapes.append(b + [rng.randint(1, 3) for _ in range(n)])
            nnb.append(n)
        if k and rng.random() < 0.1:
            nnb[rng.randrange(k)] += rng.choice([-2, 3, 4])
        if rng.random() < 0.1:
            nnb.append(0)
        ts = [torch.zeros(s) for s in shapes]
        lst = rng.random() < 0.9
        arg = rng.choice([ts, tuple(ts)]) if lst else torch.zeros([max(k, 1), 2, 2])
        if not lst:
            shapes, nnb = [[2, 2]] * max(k, 1), [1] * max(k, 1)
        trial(c, "broadcast", lambda: batch_broadcast(arg, rng.choice([tuple, list])(nnb)), list=lst, shapes=shapes,
              nnb=nnb)
    for _ in range(12):
        n = rng.randint(0, 2)
        batch = [rng.randint(1, 3) for _ in range(rng.randint(0, 3))]
        b = [s if rng.random() < 0.7 else 1 for s in batch[rng.randint(0, len(batch)):]]
        if rng.random() < 0.3:
            b = rand_shape(rng, b)
        shape = b + [rng.randint(1, 3) for _ in range(n)]
        trial(c, "batch to", lambda: batch_to(torch.zeros(shape), tuple(batch), n), shape=shape, batch=batch, nnb=n)
    for _ in range(6):
        cplx, imag = rng.random() < 0.7, rng.random() < 0.5
        t = torch.randn(rng.choice([[], [3], [2, 2]]))
        if cplx:
            part = torch.zeros_like(t)
            if imag:
                part.reshape(-1)[rng.randrange(t.numel()) if rng.random() < 0.5 else slice(None)] = \
                    0.01 * (1 + t.abs().max().item())
            t = torch.complex(t, part)
        trial(c, "real", lambda: realify(t), cplx=cplx, imag=cplx and imag)


TRIALS = dict(mps=(t_mps, 30), mpsin=(t_mps_input, 60), ti=(t_ti, 1), tiin=(t_ti_input, 60), map=(t_map, 12),
              modules=(t_modules, 16), region=(t_region, 16), ends=(t_ends, 1), contractable=(t_contractable, 24),
              init=(t_init, 20), svd=(t_svd, 24), prob=(t_prob, 20), probin=(t_prob_input, 60),
              domain=(t_domain, 1), product=(t_product, 24), broadcast=(t_broadcast, 24))


# ---- lives of a model and its twin ----


class Map(nn.Module):
    """9 is no valid datum"""

    def __init__(self, seed, kind):
        super().__init__()
        g = torch.Generator().manual_seed(seed)
        self.w = nn.Parameter(torch.randn(2, generator=g).double())
        self.kind = kind

    def forward(self, x):
        if float(x) == 9:
            if self.kind == "raises":
                raise ValueError("invalid datum")
            return torch.ones(1 if self.kind == "short" else 3, dtype=f64)
        return torch.stack([self.w[0] * x.double(), self.w[1] + x.double()])


def fun_of(m):
    return lambda x: m(x)


class Life:
    def __init__(self, c, fam):
        rng = c.rng
        self.c, self.rng, self.fam = c, rng, fam
        torch.set_default_dtype(f64)
        self.T = 3
        getattr(self, "make_" + fam)()
        for p in self.a.parameters():
            with torch.no_grad():
                p.copy_(torch.randn(p.shape, dtype=p.dtype) / max(1, p.shape[-1]) ** 0.5)
        self.b = copy.deepcopy(self.a)
        self.maps = None
        if fam in ("sup", "ti", "adaptive"):
            kinds = [rng.choice(["raises", "short", "long"]) for _ in range(2)]
            self.maps = []
            for _ in range(2):  # every model has its own
                ms = [Map(1, kinds[0]), Map(2, kinds[1])]
                self.maps.append([None, fun_of(ms[0]), ms[1]])
        c.set(judge="J_Refuse", adaptive=fam == "adaptive", T=self.T, N=self.n, family=fam)

    def make_sup(self):
        from torchmps import MPS

        rng = self.rng
        self.n = rng.randint(1, 4)
        self.a = MPS(self.n, 2, rng.choice([2, 3]), periodic_bc=rng.random() < 0.4, label_site=rng.choice([None, 0]),
                     parallel_eval=rng.random() < 0.5, use_bias=rng.random() < 0.6)

    def make_adaptive(self):
        from torchmps import MPS

        rng = self.rng
        self.n = rng.randint(1, 5)
        self.a = MPS(self.n, 2, rng.choice([2, 3]), periodic_bc=rng.random() < 0.4,
                     label_site=rng.choice([None, 0, self.n]), parallel_eval=rng.random() < 0.5,
                     adaptive_mode=True, merge_threshold=self.T)

    def make_ti(self):
        from torchmps import TI_MPS

        rng = self.rng
        self.n = 3
        self.pads = rng.random() < 0.5
        self.a = TI_MPS(2, rng.choice([2, 3]), parallel_eval=rng.random() < 0.5,
                        fixed_bias=self.pads, fixed_ends=rng.random() < 0.3)

    def make_prob(self):
        from torchmps import ProbMPS

        rng = self.rng
        self.n, self.d, self.bias = rng.randint(1, 4), rng.choice([2, 3]), rng.random() < 0.5
        self.a = ProbMPS(self.n, self.d, rng.choice([1, 2, 3]), use_bias=self.bias,
                         complex_params=rng.random() < 0.4)

    def make_unif(self):
        from torchmps.prob_mps import ProbUnifMPS

        rng = self.rng
        self.n, self.d, self.bias = rng.randint(1, 4), rng.choice([2, 3]), rng.random() < 0.5
        self.a = ProbUnifMPS(self.d, rng.choice([1, 2, 3]), use_bias=self.bias, complex_params=rng.random() < 0.4)

    # -- arguments

    def data(self, b, bad=False):
        """Arguments of a call"""
        rng = self.rng
        if self.fam in ("prob", "unif"):
            x = torch.randint(0, self.d, [b, self.n]) if rng.random() < 0.6 else torch.rand(b, self.n, self.d) + 0.2
            opts = [dict(), dict(parallel_eval=True)] + ([] if self.bias else [dict(slim_eval=True)])
            return x, rng.choice(opts)
        x = torch.randn(b, self.n) if bad or rng.random() < 0.5 else torch.randn(b, self.n, 2)
        if bad:
            x[rng.randrange(b), rng.randrange(self.n)] = 9
            if rng.random() < 0.2:
                x[:] = 9
        if self.fam == "ti" and rng.random() < 0.5:
            x = [r.clone() for r in x]
            if self.pads and not bad:
                x = [r[:rng.randint(1, self.n)] for r in x]
        return x, {}

    def invalid(self, b):
        rng, n = self.rng, self.n
        R = torch.randn
        if self.fam in ("prob", "unif"):
            d = self.d
            out = [lambda: (torch.full([b, n], d), {}), lambda: (R(b, n, d + 1), {}),
                   lambda: (torch.zeros(n, dtype=torch.long), {}), lambda: (R(b, n, d, 1), {}),
                   lambda: ("x", {}), lambda: (R(b, n, d + 1), dict(parallel_eval=True)),
                   lambda: (R(b, n, d + 1), dict(slim_eval=not self.bias))]
            if self.bias:
                out += [lambda: (torch.zeros(b, n, dtype=torch.long), dict(slim_eval=True))] * 3
            if self.fam == "prob":
                out += [lambda: (torch.zeros(b, n + 1, dtype=torch.long), {}), lambda: (R(b, n + 1, d), {}),
                        lambda: (torch.zeros(b, n + 2, dtype=torch.long), dict(parallel_eval=True))]
            if self.fam == "prob" and n > 1:
                out += [lambda: (torch.zeros(b, n - 1, dtype=torch.long), {}), lambda: (R(b, n - 1, d), {}),
                        lambda: (R(b, 1, d), {})]
            return rng.choice(out)()
        if self.fam == "ti":
            out = [R(b, n, 3), R(b, n, 1), R(b), R(b, n, 2, 1), tuple(R(b, n)), [], "x", None,
                   [R(n), R(n, 2)], [R(n, 2), R(n)], [R(n, 3)] * b, [R(n, 2), R(n, 1)], [R(n, 2, 1)], [[1.0, 2.0]],
                   R(b, n).numpy(), [R(n), [0.0] * n]]
            if not self.pads:
                out += [[R(n), R(n + 1)], [R(n, 2), R(n - 1, 2)]] * 2
            return rng.choice(out), {}
        out = [R(b, n + 1), R(b, n + 1, 2), R(b, n, 3), R(b, n, 1), R(b), R(b, n, 2, 1), "x", None, [R(n)] * b]
        if n > 1:
            out += [R(b, n - 1), R(b, n - 1, 2), R(b, 1, 2)]
        return rng.choice(out), {}

    def wrong_map(self):
        def boom(x):
            raise ValueError("no")

        return self.rng.choice([boom, 5, "map", lambda x: torch.zeros(3), lambda x: torch.zeros(1, 2),
                                lambda x: torch.tensor(1.0), lambda x: None, lambda x: [0.0, 0.0],
                                nn.Linear(1, 3), Map(1, "raises").w])

    # -- observations

    def merge(self):
        if self.fam != "adaptive":
            return 0, 0
        r = self.a.linear_region
        return r.offset, r.input_counter

    def map_of(self, k):
        if self.maps is None:
            return 0
        now = (self.a, self.b)[k].feature_map
        return next((i for i, m in enumerate(self.maps[k]) if m is now), -1)

    def alike(self):
        a, b = self.a.state_dict(), self.b.state_dict()
        if set(a) != set(b) or self.map_of(0) != self.map_of(1):
            return False
        return all(close(a[k], b[k]) for k in a)

    def do(self, act):
        rng, c = self.rng, self.c
        op, fault, b = act["op"], act["fault"], act["size"]
        if self.fam in ("prob", "unif"):
            if op == "map":
                return
            if fault == "data":
                act = dict(act, fault="none")
                fault = "none"
        how = self.fam + " " + op + " " + fault
        snap, fm = snapshot(self.a), self.map_of(0)
        before = self.extra()
        raised, twin = False, True
        try:
            if op == "call":
                x, kw = self.invalid(b) if fault == "input" else self.data(b, fault == "data")
                out = self.forward(self.a, x, kw, fault)
            elif op == "map":
                v = act["v"]
                self.a.register_feature_map(self.wrong_map() if fault == "wrong" else self.maps[0][v])
            elif op == "step":
                x, kw = self.data(2)
                # Not a call of its own: the gradient of a fixed function
                grads = [torch.randn(p.shape, dtype=p.dtype) for p in self.a.parameters()]
                self.step(self.a, grads)
        except Exception as e:
            if type(e).__name__ == "CaseTimeout":
                raise
            raised = True
        same = True
        if raised:
            same = (same_state(self.a, snap) and self.map_of(0) == fm and self.extra() == before)
        elif op == "call":
            if fault != "input":
                twin = close(out, self.forward(self.b, x, kw, fault))
        elif op == "map":
            if fault != "wrong":
                self.b.register_feature_map(self.maps[1][act["v"]])
        else:
            self.step(self.b, grads)
        off, cnt = self.merge()
        c.ev("did", call=act, how=how, raised=raised, same=same, off=off, cnt=cnt, map=self.map_of(0),
             twin=twin and self.alike())

    def extra(self):
        """State which is in no state dictionary"""
        m = self.a
        out = [m.training, [(n, id(p), p.requires_grad) for n, p in m.named_parameters()]]
        if self.fam == "adaptive":
            r = m.linear_region
            out += [r.offset, r.input_counter, r.merge_threshold, r.cutoff, m.bond_list.tolist(),
                    m.sv_list.tolist()]
        return out

    def forward(self, model, x, kw, fault):
        mode = self.rng.choice(["plain", "plain", "no_grad", "backward"])
        if fault == "cut":
            region = getattr(model, "linear_region", None)
            if self.fam == "adaptive":
                old, region.cutoff = region.cutoff, 1e12
        try:
            if mode == "no_grad":
                with torch.no_grad():
                    return model(x, **kw)
            out = model(x, **kw)
            if mode == "backward" and out.requires_grad:
                out.sum().backward()
                for p in model.parameters():
                    p.grad = None
            return out.detach()
        finally:
            if fault == "cut" and self.fam == "adaptive":
                region.cutoff = old

    def step(self, model, grads):
        for p, g in zip(model.parameters(), grads):
            p.grad = g.clone()
        torch.optim.SGD(model.parameters(), lr=0.01).step()
        for p in model.parameters():
            p.grad = None


def close(a, b):
    a, b = a.detach(), b.detach()
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    scale = b.abs().max().item() if b.numel() else 0.0
    return torch.allclose(a, b, rtol=1e-7, atol=1e-9 * (1 + scale))


def drive(rec):
    for name, (fun, quick) in TRIALS.items():
        for i in rec.cases("try-" + name, quick, 15 * quick if quick > 1 else 1):
            with rec.case("try-" + name, i) as c:
                c.set(judge="J_Refuse", adaptive=False, T=1, N=1)
                fun(c)
    for fam in ("adaptive", "sup", "ti", "prob", "unif"):
        hs = rec.behaviours["adaptive" if fam == "adaptive" else "plain"]
        n = len(hs) if fam == "adaptive" else max(1, len(hs) // 2)
        for i in rec.cases("life-" + fam, n, n):
            with rec.case("life-" + fam, i) as c:
                life = Life(c, fam)
                for a in hs[i]:
                    life.do(a)
