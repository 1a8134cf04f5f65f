"""C13: adaptive switches keep optimizers attached to the model"""
import torch

from drivers.adapt import HOWS, Adapt, Inst, params_of, random_adapt


class Watch:
    """Identity, names and shapes of the parameters"""

    def __init__(self, c, model):
        self.c, self.model = c, model
        self.ps = list(model.parameters())
        self.ids = sorted(id(p) for p in self.ps)
        self.shapes = [list(p.shape) for p in self.ps]
        self.lists = [[id(p) for p in params_of(model, o)] for o in (0, 1)]

    def check(self):
        m = self.model
        self.c.ev("fact", holds=sorted(id(p) for p in m.parameters()) == self.ids,
                  what="the set of parameter objects changed")
        self.c.ev("fact", holds=[list(p.shape) for p in self.ps] == self.shapes
                  and all(p.requires_grad for p in self.ps) and all(p.is_leaf for p in self.ps),
                  what="shape or kind of the parameters changed")
        self.c.ev("fact", holds=[[id(p) for p in params_of(m, o)] for o in (0, 1)] == self.lists,
                  what="names of the parameters changed")


def replay(c, beh, **kw):
    rng = c.rng
    args = dict(N=beh["N"], label=beh["label"], T=beh["T"], cut2=0, dtype=torch.float64, train=True,
                D=rng.choice([1, 2, 2, 3]), d=rng.choice([1, 2, 2]))
    args.update(kw)
    ac = random_adapt(rng, **args)
    c.set(**ac.config(), history=beh["ev"])
    inst = Inst(c, ac, ac.build(), 1)
    watch = Watch(c, inst.model)
    inst.set(rng.choice(["copy", "load", "data", "step"]))
    for a in beh["ev"]:
        if a["op"] == "call":
            inst.call(a["size"], rng.choice(HOWS))
        elif a["op"] == "train":
            inst.call(a["size"], "backward", step=True)
        elif a["op"] == "set":
            inst.set(rng.choice(["copy", "load", "data", "step"]))
        if rng.random() < 0.2:
            inst.spoil()
        if rng.random() < 0.2:
            # An optimizer which is created on the way
            inst.opt = torch.optim.SGD(list(inst.model.parameters()), lr=1.0)
        watch.check()
    inst.call(1, "backward")
    inst.call(ac.T, "plain")
    inst.call(1, "plain")
    watch.check()


def drive(rec):
    train = rec.behaviours["train"]
    for i in rec.cases("train", len(train), len(train)):
        with rec.case("train", i) as c:
            replay(c, train[i])
    # Directed: steps in both patterns, each followed by a switch
    combos = [(N, lab, per) for N in (1, 2, 3, 4, 5) for lab in range(N + 1) for per in (False, True)]
    for i in rec.cases("steps", 2 * len(combos), 12 * len(combos)):
        with rec.case("steps", i) as c:
            rng = c.rng
            N, lab, per = combos[i % len(combos)]
            ac = random_adapt(rng, N=N, label=lab, periodic=per, T=2, cut2=0, dtype=torch.float64, train=True,
                              D=rng.choice([2, 2, 3]), d=rng.choice([1, 2]))
            c.set(**ac.config())
            inst = Inst(c, ac, ac.build(), 1)
            watch = Watch(c, inst.model)
            inst.set()
            for rnd in range(3):
                inst.call(1, "backward", step=True)
                inst.call(1, rng.choice(["plain", "no_grad"]))
                watch.check()
                inst.call(1, "backward")   # switches
                inst.set("copy")
                inst.call(1, "backward", step=rng.random() < 0.5)
                watch.check()
