"""C18: broadcasting, bundling and indexing helpers"""
import itertools

import torch

P = 46337


def flat(t):
    t = t.detach()
    if t.is_complex():
        return [[int(v.real), int(v.imag)] for v in t.reshape(-1).tolist()]
    return [int(v) for v in t.reshape(-1).tolist()]


def spec(t):
    return dict(shape=list(t.shape), data=flat(t))


def shapes(sizes, rank):
    return [s for n in range(rank + 1) for s in itertools.product(sizes, repeat=n)]


class Maker:
    def __init__(self, c):
        self.c, self.rng = c, c.rng
        self.next = 1
        self.dtype = c.rng.choice([torch.float32, torch.float64, torch.int64, torch.complex64])
        c.set(judge="J_Shape", dtype=str(self.dtype))

    def tensor(self, shape, dtype=None):
        """Tensor all of whose entries differ from those of all other ones"""
        n = 1
        for x in shape:
            n *= x
        t = torch.arange(self.next, self.next + n)
        self.next += n
        dtype = dtype or self.dtype
        t = t.to(dtype)
        if dtype.is_complex:
            t = t + 1j * (2 * t.real - 7)
        t = t.reshape(tuple(shape))
        if self.rng.random() < 0.3 and t.dim() > 1:
            i, j = self.rng.sample(range(t.dim()), 2)
            t = t.transpose(i, j).contiguous().transpose(i, j)
        return t


def attempt(run):
    try:
        return False, run()
    except Exception:
        return True, None


def shape_event(c, shps):
    from torchmps.utils2 import shape_broadcast

    given = [c.rng.choice([tuple, torch.Size])(s) for s in shps]
    raised, res = attempt(lambda: shape_broadcast(given if c.rng.random() < 0.5 else tuple(given)))
    c.ev("shape", shapes=[list(s) for s in shps], raised=raised, res=[] if raised else [int(v) for v in res])


def bcast_event(w, shps, nnb):
    from torchmps.utils2 import batch_broadcast

    c = w.c
    ts = [w.tensor(s) for s in shps]
    before = [t.clone() for t in ts]
    arg = ts if c.rng.random() < 0.5 else tuple(ts)
    ns = tuple(nnb) if c.rng.random() < 0.5 else list(nnb)
    raised, res = attempt(lambda: batch_broadcast(arg, ns))
    c.ev("broadcast", ts=[spec(t) for t in ts], nnb=list(nnb), raised=raised,
         res=[] if raised else [spec(t) for t in res])
    c.ev("fact", what="the inputs were changed",
         holds=len(arg) == len(ts) and all(a is b for a, b in zip(arg, ts))
         and all(torch.equal(a, b) for a, b in zip(before, ts)))


def batch_to_event(w, shape, batch, nnb):
    from torchmps.utils2 import batch_to

    t = w.tensor(shape)
    raised, res = attempt(lambda: batch_to(t, w.rng.choice([tuple, torch.Size, list])(batch), nnb))
    w.c.ev("batch_to", t=spec(t), shape=list(batch), nnb=nnb, raised=raised,
           res={} if raised else spec(res))


def bundle_event(w, shps, dim):
    """dim counts from 0, or from the end if it is negative"""
    from torchmps.utils2 import bundle_tensors

    ts = [w.tensor(s) for s in shps]
    arg = ts if w.rng.random() < 0.5 else tuple(ts)
    ids = [id(t) for t in ts]
    res = bundle_tensors(arg) if dim == 0 and w.rng.random() < 0.5 else bundle_tensors(arg, dim=dim)
    isten = isinstance(res, torch.Tensor)
    n = len(shps[0]) + 1 if shps else 1
    w.c.ev("bundle", ts=[spec(t) for t in ts], dim=(dim if dim >= 0 else n + dim) + 1,
           unchanged=(not isten) and [id(t) for t in res] == ids,
           res=[spec(res)] if isten else [])


def bundled_event(w, shape):
    from torchmps.utils2 import bundle_tensors

    t = w.tensor(shape)
    res = bundle_tensors(t, dim=w.rng.choice([0, -1, 1]))
    w.c.ev("fact", holds=isinstance(res, torch.Tensor) and res.shape == t.shape and torch.equal(res, t),
           what="a single tensor was changed by bundling")


def index_event(w, shape):
    from torchmps.utils2 import CIndex

    rng = w.rng
    t = w.tensor(shape)
    n = t.numel()
    kind = rng.choice(["basic", "basic", "lists", "mask", "maskdim", "grid", "whole"])
    if kind == "mask" and n:
        index = torch.tensor([rng.random() < 0.5 for _ in range(n)]).reshape(t.shape)
    elif kind == "maskdim" and t.dim():
        index = torch.tensor([rng.random() < 0.5 for _ in range(t.shape[0])], dtype=torch.bool)
    elif kind == "lists" and t.dim() and min(t.shape) > 0:
        m = rng.choice([1, 2, 4])
        dims = rng.randint(1, t.dim())
        index = tuple(torch.tensor([rng.randrange(-t.shape[i], t.shape[i]) for _ in range(m)])
                      for i in range(dims))
        if dims == 1 and rng.random() < 0.5:
            index = index[0].tolist()
    elif kind == "grid" and t.dim() > 1 and min(t.shape) > 0:
        # As probabilistic models select their slices
        b = rng.choice([1, 3])
        index = (torch.arange(t.shape[0])[None],
                 torch.tensor([[rng.randrange(t.shape[1]) for _ in range(t.shape[0])] for _ in range(b)]))
    elif kind == "whole":
        index = rng.choice([Ellipsis, slice(None), (Ellipsis, None), None]) if t.dim() else Ellipsis
    else:
        index = []
        for i, d in enumerate(t.shape):
            what = rng.choice(["int", "slice", "slice", "none", "all"])
            if what == "int" and d:
                index.append(rng.randrange(-d, d))
            elif what == "slice":
                a, b = rng.randint(0, d), rng.randint(0, d + 1)
                index.append(slice(a, b, rng.choice([None, 1, 2])))
            elif what == "none":
                index.extend([None, slice(None)])
            else:
                index.append(slice(None))
        index = tuple(index[:rng.randint(0, len(index))]) if rng.random() < 0.3 else tuple(index)
    src = torch.arange(n).reshape(t.shape)[index]
    res = CIndex(t)[index]
    w.c.ev("index", t=spec(t), src=spec(src), res=spec(res))


def numbers(t):
    return [[int(v.real), int(v.imag)] if isinstance(v, complex) else [int(v), 0]
            for v in t.reshape(-1).tolist()]


def near(x, scale=1.0):
    """Integer which a number is (nearly), or something which no integer equals"""
    return round(x) if abs(x - round(x)) < 1e-3 * max(1.0, abs(x)) else 10 ** 8


def trace_event(w):
    from torchmps.utils2 import hermitian_trace

    rng = w.rng
    n = rng.choice([1, 2, 3, 5])
    dt = rng.choice([torch.float32, torch.float64, torch.complex64, torch.complex128])
    a = torch.tensor([[complex(rng.randint(-9, 9), rng.randint(-9, 9) if dt.is_complex else 0)
                       for _ in range(n)] for _ in range(n)], dtype=torch.complex128)
    h = a + a.conj().t()
    h = h if dt.is_complex else h.real
    h = h.to(dt)
    far = dt.is_complex and rng.random() < 0.4
    if far:
        # Not Hermitian: the diagonal has a clear imaginary part
        i = rng.randrange(n)
        h[i, i] = h[i, i] + 1j * rng.choice([-1, 1]) * (1 + h.abs().sum().round())
    raised, res = attempt(lambda: hermitian_trace(h))
    w.c.ev("trace", t=dict(shape=[n, n], data=numbers(h)), raised=raised, far=far,
           isreal=(not raised) and not res.is_complex(), res=0 if raised else near(float(res.real)))


def real_event(w):
    from torchmps.utils2 import realify

    rng = w.rng
    shape = rng.choice([(), (1,), (3,), (2, 2), (0,)])
    dt = rng.choice([torch.float32, torch.float64, torch.complex64, torch.complex128])
    t = torch.tensor([float(rng.randint(-500, 500)) for _ in range(max(1, len(shape) and 4))],
                     dtype=torch.float64)
    n = 1
    for x in shape:
        n *= x
    t = t[:n].reshape(shape) if n <= 4 else t
    far = False
    c = t.to(dt)
    if dt.is_complex and n:
        kind = rng.choice(["exact", "tiny", "far"])
        noise = torch.zeros(shape, dtype=torch.float64)
        if kind == "tiny":
            noise += rng.choice([1e-6, -1e-6, 1e-5, 5e-5])
        elif kind == "far":
            far = True
            noise.reshape(-1)[rng.randrange(n)] = rng.choice([-1.0, 1.0, 0.2, 500.0])
        c = torch.complex(t, noise).to(dt)
    raised, res = attempt(lambda: realify(c))
    w.c.ev("real", t=dict(shape=list(shape), data=[[int(v), 0] for v in t.reshape(-1).tolist()]), far=far,
           raised=raised, isreal=(not raised) and not res.is_complex(),
           res={} if raised else dict(shape=list(res.shape), data=[near(float(v.real)) for v in res.reshape(-1)]))


def phase_event(w):
    """Random phases keep the moduli; scale factors of 0 become 1"""
    from torchmps.utils2 import nonzero_scale, phaseify

    rng = w.rng
    shape = rng.choice([(4,), (2, 3), (1,), (0,), ()])
    t = torch.randint(-5, 6, shape).to(rng.choice([torch.float32, torch.float64]))
    res = phaseify(t)
    w.c.ev("fact", what="random phases change the moduli",
           holds=res.is_complex() and res.shape == t.shape
           and bool((res.abs() - t.abs()).abs().lt(1e-4).all()))
    res = nonzero_scale(t)
    want = [v if v != 0 else 1 for v in flat(t)]
    w.c.ev("fact", what="zero scale factors become 1", holds=res.shape == t.shape and flat(res) == want)


def drive(rec):
    pairs = [(a, b) for a in shapes((0, 1, 2, 3), 2) for b in shapes((0, 1, 2, 3), 2)]
    step = 11
    total = (len(pairs) + step - 1) // step
    for i in rec.cases("pairs", total, 6 * total):
        with rec.case("pairs", i) as c:
            w = Maker(c)
            for a, b in pairs[step * (i % total):step * (i % total) + step]:
                shape_event(c, [a, b])
                na, nb = c.rng.choice([0, 1, 2]), c.rng.choice([0, 1, 2])
                ext = lambda n: tuple(c.rng.choice([1, 2, 3, 2, 0]) for _ in range(n))
                bcast_event(w, [a + ext(na), b + ext(nb)], [na, nb])
                batch_to_event(w, a + ext(na), b, na)
    # More than two
    for i in rec.cases("many", 150, 3000):
        with rec.case("many", i) as c:
            w, rng = Maker(c), c.rng
            for _ in range(4):
                n = rng.choice([0, 1, 2, 3, 3, 4, 6])
                full = [rng.choice([0, 1, 2, 2, 3]) for _ in range(rng.choice([0, 1, 2, 3, 4]))]
                shps, nnb = [], []
                for _ in range(n):
                    k = rng.randint(0, len(full))
                    s = [d if rng.random() < 0.6 else 1 for d in full[len(full) - k:]]
                    if s and rng.random() < 0.08:
                        s[rng.randrange(len(s))] = rng.choice([0, 2, 3, 4])
                    q = rng.choice([0, 0, 1, 2, 3])
                    shps.append((s, [rng.choice([1, 1, 2, 3]) for _ in range(q)]))
                    nnb.append(q)
                if n:
                    shape_event(c, [s for s, _ in shps])
                bcast_event(w, [tuple(s + e) for s, e in shps], nnb)
    for i in rec.cases("bundle", 100, 1500):
        with rec.case("bundle", i) as c:
            w, rng = Maker(c), c.rng
            for _ in range(4):
                s = tuple(rng.choice([0, 1, 2, 3]) for _ in range(rng.choice([0, 1, 2, 3, 4])))
                n = rng.choice([0, 1, 1, 2, 3, 5])
                shps = [s] * n
                if n > 1 and rng.random() < 0.4:
                    j = rng.randrange(n)
                    if s and rng.random() < 0.5:
                        o = list(s)
                        o[rng.randrange(len(o))] = rng.choice([0, 1, 2, 3])
                        shps[j] = tuple(o)
                    else:
                        shps[j] = s + (1,) if rng.random() < 0.5 else (1,) + s
                dim = rng.randint(0, len(s)) if rng.random() < 0.5 else -rng.randint(1, len(s) + 1)
                bundle_event(w, shps, dim)
                bundled_event(w, s)
    for i in rec.cases("index", 150, 2500):
        with rec.case("index", i) as c:
            w, rng = Maker(c), c.rng
            for _ in range(5):
                index_event(w, tuple(rng.choice([1, 2, 3, 4, 0] if rng.random() < 0.2 else [1, 2, 3, 4])
                                     for _ in range(rng.choice([0, 1, 2, 2, 3, 4]))))
    for i in rec.cases("numbers", 80, 1000):
        with rec.case("numbers", i) as c:
            w = Maker(c)
            for _ in range(3):
                trace_event(w)
                real_event(w)
                phase_event(w)
    # Many tensors, and many dimensions
    for i in rec.cases("crowd", 30, 300):
        with rec.case("crowd", i) as c:
            w, rng = Maker(c), c.rng
            n = rng.choice([7, 9, 10, 13, 17, 33, 65])
            full = [rng.choice([2, 3]) for _ in range(rng.choice([1, 2]))]
            shps = [tuple(d if rng.random() < 0.3 else 1 for d in full[rng.randint(0, len(full)):])
                    for _ in range(n)]
            # What decides is somewhere in the collection
            shps[rng.choice([0, n - 1, n - 1, rng.randrange(n)])] = tuple(full)
            if rng.random() < 0.4:
                shps[rng.choice([n - 1, n - 2, rng.randrange(n)])] = tuple(x + rng.choice([0, 2]) for x in full)
            shape_event(c, shps)
            bcast_event(w, [x + (2,) * (j % 2) for j, x in enumerate(shps)], [j % 2 for j in range(n)])
            rank = rng.choice([5, 6, 7, 9, 12, 20])
            full = [1] * rank
            for j in rng.sample(range(rank), min(rank, 5)):
                full[j] = 2
            full[0] = rng.choice([1, 2, 3])
            shps = [tuple(d if rng.random() < 0.6 else 1 for d in full[rank - r:])
                    for r in (rank, rank, rng.randint(0, rank), rng.randint(rank // 2, rank))]
            if rng.random() < 0.4:
                j = rng.choice([0, 0, 1, rng.randrange(rank)])
                shps[0] = shps[0][:j] + (full[j],) + shps[0][j + 1:]
                shps[1] = shps[1][:j] + (rng.choice([2, 4, 0]),) + shps[1][j + 1:]
            rng.shuffle(shps)
            shape_event(c, shps)
            if rank <= 12:
                bcast_event(w, [x + (2,) * (j % 2) for j, x in enumerate(shps)], [j % 2 for j in range(4)])
                batch_to_event(w, shps[0] + (2,), full, 1)
            m = rng.choice([9, 17, 33, 65, 66, 130])
            bund = [(2,)] * m
            if rng.random() < 0.6:
                bund[rng.choice([m - 1, m - 1, m - 2, rng.randrange(m)])] = rng.choice([(3,), (2, 1), (1, 2), ()])
            bundle_event(w, bund, rng.choice([0, 1, -1, -2]))
    # Large tensors
    for i in rec.cases("large", 24, 200):
        with rec.case("large", i) as c:
            w, rng = Maker(c), c.rng
            big = rng.choice([33, 65, 129])
            bcast_event(w, [(big, 1, 2), (1, 2), (2,)], [1, 0, 0] if i % 2 else [0, 0, 1])
            bundle_event(w, [(big,)] * rng.choice([2, 17]), rng.choice([0, 1, -1]))
            index_event(w, (big, 3))
            shape_event(c, [(1,) * k + (big,) * (k % 2) for k in range(rng.choice([5, 12]))])
