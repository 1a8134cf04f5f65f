"""C17: products and reductions of contractables"""
import torch

from drivers.lib import obs, rint

f32, f64 = torch.float32, torch.float64
P = 46337


def table(t):
    """Nested lists of integers modulo P (or -1 for anything else)"""
    o = obs(t)
    if "re" in o:
        return ["complex"]
    data = torch.tensor(o["data"], dtype=torch.int64).reshape(o["shape"])
    return data.tolist()


def view(x):
    """What is observable of a contractable, independent of the order of labels"""
    import torchmps.contractables as C

    kind = {C.SingleMat: "mat", C.OutputCore: "core", C.Scalar: "scalar", C.MatRegion: "reg",
            C.Contractable: "gen", C.ContractableList: "list"}.get(type(x))
    if kind == "list":
        return dict(kind="list")
    t, s = x.tensor, x.bond_str
    if isinstance(x, C.EdgeVec):
        kind = "left" if "r" in s else "right"
    elif isinstance(x, C.OutputMat):
        kind = "oleft" if "r" in s else "oright"
    if len(s) != t.dim() or len(set(s)) != len(s) or s[0] != "b":
        return dict(kind="labels don't fit")
    B = t.shape[0]
    if kind == "reg":
        return dict(kind=kind, l=t.shape[2], r=t.shape[3], outs=[], mats=table(t))
    outs = [i for i, c in enumerate(s) if c not in "blr"]
    ends = [s.index(c) for c in "lr" if c in s]
    l = t.shape[s.index("l")] if "l" in s else 0
    r = t.shape[s.index("r")] if "r" in s else 0
    dims = [t.shape[i] for i in outs]
    n = 1
    for d in dims:
        n *= d
    full = t.permute([0] + outs + ends).reshape(B, n, l or 1, r or 1)
    return dict(kind=kind, l=l, r=r, outs=dims, v=table(full))


class Algebra:
    def __init__(self, c):
        import torchmps.contractables as C

        self.C, self.c, self.rng = C, c, c.rng
        C.Contractable.global_bs = None
        self.vals = []
        self.B = c.rng.choice([1, 2, 2, 3])
        self.dtype = f64 if c.rng.random() < 0.8 else f32
        c.set(judge="J_Alg", dtype=str(self.dtype), batch=self.B)
        self.amp = 1 if self.dtype == f32 else 2

    def fill(self, shape):
        return rint(self.rng, shape, -self.amp, self.amp, self.dtype)

    def make(self, kind, l=2, r=2, outs=(2,), num=2, B=None):
        """A new contractable; returns its number"""
        C, rng = self.C, self.rng
        B = self.B if B is None else B
        labels = None
        if kind == "mat":
            shape = [l, r]
        elif kind == "core":
            shape, labels = [outs[0], l, r], "olr"
        elif kind == "left":
            shape = [r]
        elif kind == "right":
            shape = [l]
        elif kind == "oleft":
            shape, labels = [r, outs[0]], "ro"
        elif kind == "oright":
            shape, labels = [l, outs[0]], "lo"
        elif kind == "scalar":
            shape = []
        elif kind == "reg":
            shape = [num, l, l]
        else:
            names = [x for x in "acdefghijkmnopqstuvwxyz"]
            if rng.random() < 0.5:
                rng.shuffle(names)
            parts = list(zip(names, outs))
            if l:
                parts.insert(rng.randint(0, len(parts)), ("l", l))
            if r:
                parts.insert(rng.randint(0, len(parts)), ("r", r))
            labels = "".join(p[0] for p in parts)
            shape = [p[1] for p in parts]
        batched = (self.C.Contractable.global_bs != B or rng.random() < 0.7 or kind == "scalar")
        t = self.fill(([B] if batched else []) + shape)
        full = t if batched else torch.stack([t] * B)
        # Other memory layouts of the same tensor
        if rng.random() < 0.3 and t.dim() > 1:
            t = t.transpose(-1, -2).contiguous().transpose(-1, -2)
        elif rng.random() < 0.2:
            t = torch.stack([t, t + 1], -1)[..., 0]
        given = t
        before = t.clone()
        if kind == "mat":
            x = C.SingleMat(given)
        elif kind == "core":
            x = C.OutputCore(given)
        elif kind in ("left", "right"):
            x = C.EdgeVec(given, kind == "left")
        elif kind in ("oleft", "oright"):
            x = C.OutputMat(given, kind == "oleft")
        elif kind == "scalar":
            x = C.Scalar(given)
        elif kind == "reg":
            x = C.MatRegion(given)
        else:
            x = C.Contractable(given, ("b" if batched or rng.random() < 0.5 else "") + labels)
        # The same by hand
        if kind == "reg":
            val = dict(kind=kind, l=l, r=l, outs=[], mats=table(full))
        else:
            lab = {"mat": "lr", "left": "r", "right": "l", "scalar": ""}.get(kind, labels)
            ll, rr = (l if "l" in lab else 0), (r if "r" in lab else 0)
            os_ = [i for i, ch in enumerate(lab) if ch not in "lr"]
            ends = [lab.index(ch) for ch in "lr" if ch in lab]
            dims = [shape[i] for i in os_]
            n = 1
            for d in dims:
                n *= d
            val = dict(kind=kind, l=ll, r=rr, outs=dims,
                       v=table(full.permute([0] + [1 + i for i in os_ + ends]).reshape(B, n, ll or 1, rr or 1)))
        self.vals.append(x)
        self.c.ev("make", val=val, res=view(x))
        self.c.ev("fact", holds=torch.equal(before, given), what="the tensor was changed")
        return len(self.vals)

    def result(self, run):
        try:
            with torch.no_grad():
                x = run()
        except Exception:
            return dict(kind="refused")
        if not isinstance(x, self.C.Contractable):
            return dict(kind="not a contractable")
        self.vals.append(x)
        return view(x)

    def mul(self, a, b):
        x, y = self.vals[a - 1], self.vals[b - 1]
        res = self.result(lambda: x * y)
        self.c.ev("mul", a=a, b=b, res=res)
        return None if res["kind"] == "refused" else len(self.vals)

    def tree(self, items):
        """Numbers and nested lists as contractables, and as sent to TLC"""
        objs, enc = [], []
        for it in items:
            if isinstance(it, list):
                o, e = self.tree(it)
                objs.append(self.C.ContractableList(o))
                enc.append(dict(n=0, items=e))
            else:
                objs.append(self.vals[it - 1])
                enc.append(dict(n=it, items=[]))
        return objs, enc

    def reduce(self, items, parallel):
        objs, enc = self.tree(items)
        lst = self.C.ContractableList(objs)
        if parallel:
            res = self.result(lambda: lst.reduce(parallel_eval=True))
        else:
            res = self.result(lambda: lst.reduce() if self.rng.random() < 0.7 else lst.reduce(False))
        self.c.ev("reduce", items=enc, parallel=parallel, res=res)

    def listmul(self, items, x, side):
        objs, enc = self.tree(items)
        lst = self.C.ContractableList(objs)
        y = self.vals[x - 1]
        res = self.result((lambda: lst * y) if side == "right" else (lambda: y * lst))
        self.c.ev("listmul", items=enc, x=x, side=side, res=res)

    def single(self, a):
        """Reducing one contractable"""
        x = self.vals[a - 1]
        res = self.result(lambda: x.reduce())
        self.c.ev("reduce", items=[dict(n=a, items=[])], parallel=True, res=res)

    def same(self, many=3):
        for a in self.rng.sample(range(1, len(self.vals) + 1), min(many, len(self.vals))):
            self.c.ev("same", a=a, res=view(self.vals[a - 1]))


MIDDLE = ["mat", "core", "reg", "scalar", "gen"]
KINDS = ["left", "right", "oleft", "oright", "mat", "core", "reg", "scalar", "gen", "genl", "genr"]


def element(w, kind, l, r):
    """Make something with these bonds; the bonds it doesn't have are dropped"""
    rng = w.rng
    dim = lambda: rng.choice([1, 2, 2, 3])
    if kind in ("gen", "genl", "genr"):
        outs = [dim() for _ in range(rng.choice([1, 2, 2, 3]))]
        if kind == "gen" and len(outs) == 1:
            outs.append(1)
        return w.make("gen", l if kind != "genr" else 0, r if kind != "genl" else 0, outs)
    if kind == "reg":
        return w.make("reg", l, l, num=rng.choice([0, 1, 1, 2, 2, 3, 4, 5]))
    return w.make(kind, l, r, [dim()])


def chain(w, n, left=None, right=None, mids=None, dims=(1, 2, 3), scal=0.1):
    """Numbers of a well-formed chain of n middle elements"""
    rng = w.rng
    D = rng.choice(dims)
    out = []
    if left:
        out.append(element(w, left, 0, D))
    for _ in range(n):
        k = rng.choice(mids or MIDDLE)
        if k == "scalar":
            out.append(element(w, k, 0, 0))
            continue
        E = D if k == "reg" else rng.choice(dims)
        out.append(element(w, k, D, E))
        D = E
    if right:
        out.append(element(w, right, D, 0))
    while rng.random() < scal:
        out.insert(rng.randint(0, len(out)), w.make("scalar"))
    return out


def small(w):
    """Number of outputs grows with the product, keep the entries few"""
    return [k for k in MIDDLE if k != "gen"]


def nest(rng, items, depth=1):
    """Put some neighbours into lists of their own"""
    out, i = [], 0
    while i < len(items):
        n = rng.choice([1, 1, 2, 3])
        if n > 1 and i + n <= len(items):
            out.append(items[i:i + n])
            i += n
        else:
            out.append(items[i])
            i += 1
    return out


def promised(w, rng):
    """Chains as the models have them"""
    form = rng.choice(["LR", "LR", "L1R", "L1R", "L*OR", "OL*R", "L", "R"])
    mids = ["mat", "reg", "reg", "scalar"]
    n = rng.choice([0, 1, 2, 3, 4])
    left = {"OL*R": "oleft", "R": None}.get(form, "left")
    right = {"L*OR": "oright", "L": None}.get(form, "right")
    if form == "OL*R":
        mids = ["mat", "reg", "reg"]
    items = chain(w, n, left, right, mids, scal=0)
    if form == "L1R":
        # One core among them
        i = rng.randint(1, len(items) - 1)
        ys = [w.vals[j - 1] for j in items[:i]]
        D = next(y.tensor.shape[y.bond_str.index("r")] for y in reversed(ys) if "r" in y.bond_str)
        items.insert(i, element(w, "core", D, D))
    return items


def drive(rec):
    # All pairs of kinds
    pairs = [(a, b) for a in KINDS for b in KINDS]
    for i in rec.cases("pair", 4 * len(pairs), 30 * len(pairs)):
        with rec.case("pair", i) as c:
            w = Algebra(c)
            a, b = pairs[i % len(pairs)]
            D = c.rng.choice([1, 2, 3, 4])
            what = (i // len(pairs)) % 4
            x = element(w, a, c.rng.choice([1, 2, 3]) if a != "reg" else D, D)
            if what == 3 and c.rng.random() < 0.5:
                # Other batch size (1 may be expanded)
                w.B = {1: 1, 2: 3, 3: 2}[w.B]
                y = element(w, b, D, c.rng.choice([1, 2, 3]))
            elif what == 3 and D > 1:
                y = element(w, b, {2: 3, 3: 2, 4: 3}[D], c.rng.choice([1, 2, 3]))
            else:
                y = element(w, b, D, c.rng.choice([1, 2, 3]))
            z = w.mul(x, y)
            if z is not None and what == 1:
                s = w.make("scalar")
                w.mul(s, z)
                w.mul(z, s)
            w.single(x)
            w.same(2)
    # Every order of multiplication
    for i in rec.cases("order", 250, 4000):
        with rec.case("order", i) as c:
            w, rng = Algebra(c), c.rng
            items = chain(w, rng.choice([1, 2, 3, 4]), rng.choice([None, "left", "left", "oleft"]),
                          rng.choice([None, "right", "right", "oright"]), dims=(1, 2, 2, 3))
            for _ in range(3):
                seq = list(items)
                tries = 0
                while len(seq) > 1 and tries < 8:
                    j = rng.randrange(len(seq) - 1)
                    z = w.mul(seq[j], seq[j + 1])
                    if z is None:
                        tries += 1
                    else:
                        seq[j:j + 2] = [z]
            w.same()
    # Reductions
    for i in rec.cases("reduce", 300, 5000):
        with rec.case("reduce", i) as c:
            w, rng = Algebra(c), c.rng
            if i % 2:
                items = promised(w, rng)
            else:
                items = chain(w, rng.choice([1, 2, 3, 4]), rng.choice([None, "left", "left", "oleft"]),
                              rng.choice([None, "right", "right", "oright"]), dims=(1, 2, 2))
            w.reduce(items, False)
            w.reduce(items, True)
            nested = nest(rng, items)
            if len(nested) > 1:
                w.reduce(nested, False)
            w.reduce(nested, True)
            w.same()
    for i in rec.cases("listmul", 200, 3000):
        with rec.case("listmul", i) as c:
            w, rng = Algebra(c), c.rng
            side = rng.choice(["left", "right"])
            ends = dict(left=None, right="right") if side == "right" else dict(left="left", right=None)
            if rng.random() < 0.6:
                items = chain(w, rng.choice([1, 2, 3, 4]), mids=["mat", "reg", "core"], **ends)
            else:
                ends = {k: v and rng.choice([None, "left" if k == "left" else "right", "o" + k])
                        for k, v in ends.items()}
                items = chain(w, rng.choice([2, 3]), **ends)
            x = items.pop() if side == "right" else items.pop(0)
            if not items:
                items = [w.make("scalar")]
            w.listmul(items, x, side)
            w.listmul(items if rng.random() < 0.5 else nest(rng, items), x, side)
            s = w.make("scalar")
            w.listmul(items, s, side)
            w.same()
    # Large: many matrices, large dimensions, many outputs
    for i in rec.cases("large", 40, 400):
        with rec.case("large", i) as c:
            w, rng = Algebra(c), c.rng
            w.dtype, w.amp = f64, 1
            what = i % 4
            if what == 0:
                # Regions of up to some dozens of (signed permutation like) matrices
                D, n = rng.choice([1, 2, 3]), rng.choice([6, 7, 9, 15, 16, 17, 23, 31, 33])
                a = w.make("left", 0, D)
                w.amp = 1
                r = w.make("reg", D, D, num=n) if n < 20 else None
                if r is None:
                    keep, w.fill = w.fill, lambda shape: torch.stack(
                        [torch.stack([signed(rng, D, w.dtype) for _ in range(shape[-3])])
                         for _ in range(shape[0] if len(shape) == 4 else 1)]).reshape(shape)
                    r = w.make("reg", D, D, num=n)
                    w.fill = keep
                b = w.make("right", D, 0)
                w.single(r)
                w.mul(a, r)
                w.mul(r, b)
                w.reduce([a, r, b], False)
                w.reduce([a, r, b], True)
            elif what == 1:
                D = rng.choice([9, 17, 20])
                items = [w.make("left", 0, D), w.make("reg", D, D, num=2), w.make("core", D, 5, [3]),
                         w.make("mat", 5, D), w.make("right", D, 0)]
                w.reduce(items, False)
                w.reduce(items, True)
            elif what == 2:
                n = rng.choice([5, 8, 10])
                outs = lambda: [rng.choice([1, 1, 1, 2]) for _ in range(n)]
                a = w.make("gen", rng.choice([0, 2]), 2, outs())
                b = w.make("gen", 2, rng.choice([0, 2]), outs())
                z = w.mul(a, b)
                if z is not None and "l" in w.vals[z - 1].bond_str:
                    y = w.make("left", 0, 2)
                    w.mul(y, z)
            else:
                w.B = rng.choice([16, 33, 64])
                items = promised(w, rng)
                w.reduce(items, False)
                w.reduce(items, True)
            w.same()


def signed(rng, D, dtype):
    p = list(range(D))
    rng.shuffle(p)
    m = torch.zeros(D, D, dtype=dtype)
    for i, j in enumerate(p):
        m[i, j] = rng.choice([-1.0, 1.0])
    return m
