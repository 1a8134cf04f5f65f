"""C10: adaptive training alternates merge patterns exactly on schedule"""
import torch

from drivers.adapt import HOWS, Adapt, Inst, random_adapt


def replay(c, beh, **kw):
    rng = c.rng
    args = dict(N=beh["N"], label=beh["label"], T=beh["T"])
    args.update(kw)
    ac = random_adapt(rng, **args)
    c.set(**ac.config(), history=beh["ev"])
    inst = Inst(c, ac, ac.build(), 1)
    inst.shapes()
    if rng.random() < 0.8:
        inst.set(rng.choice(["copy", "load"]))
    for a in beh["ev"]:
        if rng.random() < 0.3:
            inst.spoil()
        inst.call(a["size"], rng.choice(HOWS))
    inst.call(1, "backward")
    inst.shapes()


def drive(rec):
    short, walk = rec.behaviours["short"], rec.behaviours["walk"]
    for i in rec.cases("short", len(short), len(short)):
        with rec.case("short", i) as c:
            replay(c, short[i])
    for i in rec.cases("walk", len(walk), len(walk)):
        with rec.case("walk", i) as c:
            N = walk[i]["N"]
            replay(c, walk[i], d=c.rng.choice([1, 2]), D=c.rng.choice([1, 2]) if N > 5 else c.rng.choice([1, 2, 3]))
    # All chains up to a length, through some switches
    combos = [(N, label, per) for N in range(1, 9) for label in range(N + 1) for per in (False, True)]
    for i in rec.cases("chains", len(combos), 6 * len(combos)):
        with rec.case("chains", i) as c:
            rng = c.rng
            N, label, per = combos[i % len(combos)]
            ac = random_adapt(rng, N=N, D=rng.choice([1, 2, 2, 3]), label=label, periodic=per, T=rng.choice([1, 2, 4]),
                              cut2=0, d=rng.choice([1, 2]), dtype=torch.float64)
            c.set(**ac.config())
            inst = Inst(c, ac, ac.build(), 1)
            inst.shapes()
            inst.set()
            for _ in range(5):
                inst.call(rng.choice([ac.T, ac.T, 2 * ac.T, 1]), rng.choice(["backward", "plain", "no_grad"]))
    # Thresholds of the size used in practice, and large batches
    for i in rec.cases("large", 16, 80):
        with rec.case("large", i) as c:
            rng = c.rng
            T = rng.choice([100, 255, 256, 1000, 2000, 5000, 30000])
            ac = random_adapt(rng, T=T, cut2=0)
            c.set(**ac.config())
            inst = Inst(c, ac, ac.build(), 1)
            inst.set()
            for _ in range(8):
                inst.call(rng.choice([T // 2, T, T - 1, 1, T + 1, 3 * T, 64, 128]), rng.choice(["no_grad", "backward"]))
