"""C20: saving, loading and copying preserve the function computed"""
import copy

import torch

from drivers import c09, life
from drivers.adapt import HOWS, Inst, copy_of, random_adapt
from drivers.life import must_raise


def adaptive(c, beh, **kw):
    """Copies of adaptive models in the middle of their schedule"""
    rng = c.rng
    args = dict(N=beh["N"], label=beh["label"], T=beh["T"], dtype=torch.float64, D=rng.choice([1, 2, 2, 3]),
                cut2=rng.choice([0, 0, 0, 3]))
    args["train"] = args["cut2"] == 0
    args.update(kw)
    ac = random_adapt(rng, **args)
    c.set(**ac.config(), history=beh["ev"])
    insts = [Inst(c, ac, ac.build(), 1)]
    insts[0].set()
    for a in beh["ev"]:
        inst = insts[a["m"] - 1]
        if a["op"] == "call":
            inst.call(a["size"], rng.choice(HOWS))
        elif a["op"] == "train":
            inst.call(a["size"], "backward", step=ac.train)
        elif a["op"] == "set":
            inst.set(rng.choice(["copy", "load", "data", "step"]))
        elif a["op"] == "copy":
            insts.append(copy_of(c, inst, a["how"], len(insts) + 1))
            if rng.random() < 0.5:
                insts[-1].shapes()
        elif a["op"] == "assign":
            src = insts[a["from"] - 1]
            inst.model.load_state_dict(src.model.state_dict())
            inst.follow(src)
            c.ev("assign", m=a["m"], **{"from": a["from"]})
    # All of them go on by themselves
    order = list(insts) * 3
    rng.shuffle(order)
    for inst in order:
        inst.call(rng.choice([1, 2, ac.T]), rng.choice(HOWS))
    for inst in insts:
        inst.shapes()


def directed(c, how):
    """A copy at every point of the schedule has the same future"""
    rng = c.rng
    ac = random_adapt(rng, T=rng.choice([2, 3, 4]), cut2=0, dtype=torch.float64, D=rng.choice([1, 2, 3]))
    c.set(**ac.config())
    inst = Inst(c, ac, ac.build(), 1)
    inst.set()
    for _ in range(rng.randint(0, 6)):
        inst.call(rng.choice([1, 2, 3]), rng.choice(HOWS))
    new = copy_of(c, inst, how, 2)
    if rng.random() < 0.5:
        # Saved states without the merge state are for models which are new
        sd = {k: v for k, v in ac.build().state_dict().items()}
        c.ev("fact", holds=set(sd) == set(inst.model.state_dict()) or inst.off == 1,
             what="names in the state dictionary of a new model")
    for _ in range(6):
        size = rng.choice([1, 2, 3])
        a, b = (inst, new) if rng.random() < 0.5 else (new, inst)
        a.call(size, rng.choice(HOWS))
        b.call(size, rng.choice(HOWS))
    if rng.random() < 0.7:
        # They are independent
        new.set()
        new.call(1)
        inst.call(1, "backward")
        new.call(1, "backward")


def counters(c, how):
    """Copies with counters of all magnitudes, the last input before a switch"""
    rng = c.rng
    T = rng.choice([257, 1000, 2050, 2050, 4100, 33000, 66000, 10 ** 5])
    ac = random_adapt(rng, N=rng.choice([2, 3]), T=T, cut2=0, dtype=torch.float64, D=rng.choice([1, 2]))
    c.set(**ac.config())
    inst = Inst(c, ac, ac.build(), 1)
    inst.set()
    left = rng.choice([1, 1, 2, 3])
    inst.call(T - left, "no_grad")
    new = copy_of(c, inst, how, 2)
    for size in [left, 1, 2]:
        for x in (inst, new):
            x.call(size, rng.choice(HOWS))


def drive(rec):
    hs = rec.behaviours["adaptive"]
    for i in rec.cases("adaptive", len(hs), len(hs)):
        with rec.case("adaptive", i) as c:
            adaptive(c, hs[i])
    hows = ["deepcopy", "pickle", "state", "file"]
    for i in rec.cases("directed", 60, 600):
        with rec.case("directed", i) as c:
            directed(c, hows[i % 4])
    for i in rec.cases("counters", 16, 160):
        with rec.case("counters", i) as c:
            counters(c, hows[i % 4])
    for name in ("short", "long"):
        hs = rec.behaviours[name]
        for fam in ("sup", "ti", "born", "buffers"):
            for i in rec.cases(f"{name}-{fam}", len(hs), len(hs)):
                with rec.case(f"{name}-{fam}", i) as c:
                    life.replay(c, fam, hs[i])
    hs = rec.behaviours["embed"]
    for kind in ("table", "interval"):
        for i in rec.cases(f"embed-{kind}", len(hs), len(hs)):
            with rec.case(f"embed-{kind}", i) as c:
                c.set(judge="J_Born")
                c09.replay(c, rec, hs[i], kind)
