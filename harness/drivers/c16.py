"""C16: raw inputs are embedded by the feature map which is registered"""
import copy
import functools

import torch

from drivers import fresh
from drivers.chain import TI, PolyMap, Sup, features, poly_map, rows_event
from drivers.lib import mod, rint

f32, f64 = torch.float32, torch.float64


class Callable:
    def __init__(self, coefs):
        self.coefs = coefs

    def __call__(self, x):
        return poly_map(self.coefs)(x)

    def method(self, x):
        return poly_map(self.coefs)(x)


def functions(coefs, zoom=1):
    out = [poly_map(coefs), Callable(coefs), Callable(coefs).method,
           functools.partial(lambda cs, x: poly_map(cs)(x), coefs)]
    return out if zoom == 1 else [functools.partial(lambda f, x: f(zoom * x), f) for f in out]


class ZoomMap(PolyMap):
    zoom = 1

    def forward(self, x):
        return super().forward(self.zoom * x)


class World:
    """The instances, and the maps as numbered objects"""

    def __init__(self, c, fam, dtype=f64):
        rng = c.rng
        self.c, self.rng, self.fam, self.dtype = c, rng, fam, dtype
        d = rng.choice([2, 2, 2, 1, 3])
        if fam == "sup":
            N = rng.choice([1, 2, 3])
            path, total = None, None
            if rng.random() < 0.3:
                total = rng.randint(1, 4)
                path = [rng.randrange(total) for _ in range(N)]
            self.sc = Sup(rng, N, rng.choice([1, 2]), fmap=None, d=d, O=rng.choice([1, 2]), raw=d == 2,
                          bias=rng.random() < 0.5, periodic=rng.random() < 0.3, parallel=rng.random() < 0.5,
                          label=rng.choice([None, 0, N]), path=path, total=total, amp=1, xamp=1, rows=3,
                          dtype=dtype)
            self.lens = [self.sc.L]
        else:
            self.lens = rng.choice([(1, 2), (2,), (3, 1)])
            self.sc = TI(rng, rng.choice([1, 2]), d=d, O=rng.choice([1, 2]), raw=d == 2, lengths=self.lens,
                         bias="fixed" if len(self.lens) > 1 else rng.choice(["fixed", "none", "trainable"]),
                         fixed_ends=False, parallel=rng.random() < 0.5, amp=1, xamp=1, dtype=dtype)
        self.d = d
        self.models = [self.sc.make()]
        self.objs, self.coefs, self.cur = [], [], [0]
        # Data which hardly differ, for maps which tell them apart
        self.zoom = rng.choice([1, 1, 1, 2 ** 7, 2 ** 14])
        specs = []
        for kind in ("fun", "fun", "mod", "mod"):
            deg = rng.choice([2, 3])
            cs = [[rng.randint(-1, 2) for _ in range(deg)] for _ in range(d)]
            if kind == "mod":
                torch.set_default_dtype(dtype)
                self.objs.append(ZoomMap(cs))
                self.objs[-1].zoom = self.zoom
                torch.set_default_dtype(f32)
            else:
                self.objs.append(rng.choice(functions(cs, self.zoom)))
            self.coefs.append(cs)
            specs.append(dict(kind=kind, coefs=[[v % 46337 for v in r] for r in cs]))
        c.set(judge="J_Map", models=[self.sc.spec()], maps=specs, d=d, family=fam, dtype=str(dtype))

    # -- data

    def raw_row(self):
        return rint(self.rng, [self.rng.choice(self.lens)], -1, 2, self.dtype)

    def rows(self, make, same=False):
        out = [make() for _ in range(self.rng.choice([1, 2, 3]))]
        if self.fam == "sup":
            return out, torch.stack(out)
        if self.sc.bias != "fixed" or self.rng.random() < 0.5:
            out = [r for r in out if len(r) == len(out[0])]
            if self.rng.random() < 0.5:
                return out, torch.stack(out)
        return out, [r.clone() for r in out]

    def raw(self, m):
        rows, x = self.rows(self.raw_row)
        model = self.models[m - 1]
        v = self.cur[m - 1]
        if v == 0 and self.d != 2:
            try:
                with torch.no_grad():
                    out = model(x)
            except Exception:
                self.c.ev("noraw", m=m)
                return
        else:
            if v != 0:
                x = [t / self.zoom for t in x] if isinstance(x, list) else x / self.zoom
            with torch.no_grad():
                out = model(x)
        rows_event(self.c, m, rows, list(range(len(rows))), out, "raw")
        # The same data, embedded by hand
        if v != 0 or self.d == 2:
            fmap = None if v == 0 else self.coefs[v - 1]
            emb = [features(r, True, fmap) for r in rows]
            with torch.no_grad():
                out = model(emb if isinstance(x, list) else torch.stack(emb))
            rows_event(self.c, m, emb, list(range(len(emb))), out, "embedded by hand")

    def embedded(self, m):
        rows, x = self.rows(lambda: rint(self.rng, [self.rng.choice(self.lens), self.d], -1, 1, self.dtype))
        with torch.no_grad():
            out = self.models[m - 1](x)
        rows_event(self.c, m, rows, list(range(len(rows))), out, "embedded")

    # -- maps

    def register(self, m, v):
        raised = False
        try:
            self.models[m - 1].register_feature_map(None if v == 0 else self.objs[v - 1])
        except Exception:
            raised = True
        self.cur[m - 1] = v
        self.c.ev("register", m=m, v=v, raised=raised)

    def reject(self, m, how):
        d, rng = self.d, self.rng

        def boom(x):
            raise ValueError("no")

        if how == "raises":
            bad = rng.choice([boom, 5, "map", lambda: torch.zeros(d), lambda x: None, lambda x: [0.0] * d])
        else:
            torch.set_default_dtype(self.dtype)
            bad = rng.choice([
                lambda x: torch.zeros(d + 1), lambda x: torch.zeros(1, d), lambda x: torch.zeros(d, 1),
                lambda x: torch.tensor(1.0), lambda x: torch.zeros(0), PolyMap([[1, 1]] * (d + 1)),
                PolyMap([[1, 1]] * (d + 2)), lambda x: torch.zeros(1, d, 1)])
            torch.set_default_dtype(f32)
        raised = False
        try:
            self.models[m - 1].register_feature_map(bad)
        except Exception:
            raised = True
        self.c.ev("reject", m=m, raised=raised)

    def params(self, m):
        model = self.models[m - 1]
        mine = {id(p) for p in model.parameters()}
        ids = [v for v, o in enumerate(self.objs, 1)
               if isinstance(o, PolyMap) and {id(p) for p in o.parameters()} & mine]
        now = model.feature_map
        current = 0 if now is None else next((v for v, o in enumerate(self.objs, 1) if o is now), -1)
        self.c.ev("owned", m=m, ids=ids, current=current)
        extra = [k for k in model.state_dict() if "feature_map" in k]
        self.c.ev("fact", holds=len(extra) == len(ids), what="feature map in the state dictionary")

    def train(self, m):
        """New coefficients, by way of the parameters of the model"""
        rng = self.rng
        named = dict(self.models[m - 1].named_parameters())
        p = named.get("feature_map.coefs")
        if p is None:
            return
        new = rint(rng, list(p.shape), -1, 2, p.dtype)
        if rng.random() < 0.5:
            with torch.no_grad():
                p.copy_(new)
        else:
            self.models[m - 1].zero_grad()
            p.grad = p.detach() - new
            torch.optim.SGD(self.models[m - 1].parameters(), lr=1.0).step()
            self.models[m - 1].zero_grad()
        v = self.cur[m - 1]
        if v:
            self.coefs[v - 1] = new.long().tolist()
            self.c.ev("coefs", v=v, coefs=mod(new))

    def copy(self, m, how):
        new = copy.deepcopy(self.models[m - 1])
        self.models.append(new)
        v = self.cur[m - 1]
        if v and isinstance(self.objs[v - 1], PolyMap):
            self.objs.append(new.feature_map)
            self.coefs.append(copy.deepcopy(self.coefs[v - 1]))
            self.cur.append(len(self.objs))
            self.c.ev("fact", holds=new.feature_map is not self.objs[v - 1],
                      what="a copy shares the feature map of the original")
        else:
            # Objects which aren't modules may be copied or shared
            self.cur.append(v)
            if v:
                self.models[-1].register_feature_map(self.objs[v - 1])
        self.c.ev("copy", m=m)

    def do(self, a):
        op = a["op"]
        if op == "register":
            self.register(a["m"], a["v"])
        elif op == "reject":
            self.reject(a["m"], a["how"])
        elif op == "copy":
            self.copy(a["m"], a["how"])
        else:
            getattr(self, op)(a["m"])

    def finish(self):
        for m in range(1, len(self.models) + 1):
            self.raw(m)
            self.params(m)
            self.embedded(m)


def replay(c, fam, beh):
    w = World(c, fam, f64 if c.rng.random() < 0.85 else f32)
    c.set(history=beh)
    # Behaviours of the exhaustive exploration have one map of each kind
    ids = {1: c.rng.choice([1, 2]), 2: c.rng.choice([3, 4])} if c.kind.startswith("short") else {}
    for a in beh:
        if "v" in a:
            a = dict(a, v=ids.get(a["v"], a["v"]))
        w.do(a)
        if a["op"] in ("register", "reject", "copy") and c.rng.random() < 0.4:
            w.raw(a["m"])
    w.finish()


def drive(rec):
    for name in ("short", "long"):
        hs = rec.behaviours[name]
        for fam in ("sup", "ti"):
            for i in rec.cases(f"{name}-{fam}", len(hs), len(hs)):
                with rec.case(f"{name}-{fam}", i) as c:
                    replay(c, fam, hs[i])
    # Every map after every map, with rejections between them
    pairs = [(a, r, b, r2) for a in range(5) for r in (None, "size", "raises") for b in range(5)
             for r2 in (None, "size")]
    for fam in ("sup", "ti"):
        for i in rec.cases(f"pairs-{fam}", len(pairs), 4 * len(pairs)):
            with rec.case(f"pairs-{fam}", i) as c:
                a, r, b, r2 = pairs[i % len(pairs)]
                w = World(c, fam)
                for v, rj in ((a, r), (b, r2)):
                    w.register(1, v)
                    if rj:
                        w.reject(1, rj)
                    if c.rng.random() < 0.5:
                        w.raw(1)
                    if c.rng.random() < 0.5:
                        w.train(1)
                w.finish()
    # One module registered with two models, and state dictionaries
    for fam in ("sup", "ti"):
        for i in rec.cases(f"shared-{fam}", 24, 200):
            with rec.case(f"shared-{fam}", i) as c:
                rng = c.rng
                w = World(c, fam)
                w.copy(1, "deepcopy")
                v = rng.choice([3, 4])
                w.register(1, v)
                w.register(2, v if rng.random() < 0.5 else 7 - v)
                if w.cur[0] == w.cur[1] or len(w.coefs[2][0]) == len(w.coefs[3][0]):
                    w.train(rng.choice([1, 2]))
                    w.raw(1)
                    w.raw(2)
                    w.models[0].load_state_dict(w.models[1].state_dict())
                    w.coefs[w.cur[0] - 1] = copy.deepcopy(w.coefs[w.cur[1] - 1])
                    c.ev("assign", m=1, **{"from": 2})
                w.train(1)
                w.finish()
                # Independent parameters of the instances
                w.register(1, 0)
                w.params(2)
                w.finish()
    fresh.drive(rec, dict(mapped=fresh.mapped))
