"""C11: switching the merge pattern changes the function only by the truncation"""
import itertools

import torch

from drivers.adapt import HOWS, Adapt, Inst, random_adapt


def words(ac):
    """All inputs of unit vectors, which determine the function"""
    rows = []
    for w in itertools.product(range(ac.d), repeat=ac.N):
        x = torch.zeros(ac.N, ac.d, dtype=ac.dtype)
        for n, i in enumerate(w):
            x[n, i] = 1
        rows.append(x)
    return rows


def all_rows(c, inst, how="no_grad"):
    """One call with all rows"""
    ac, rng = inst.ac, c.rng
    inst.call(len(ac.rows), how, idx=list(range(len(ac.rows))))


def drive(rec):
    f32, f64 = torch.float32, torch.float64
    # The whole function, before and after one switch, with all truncations
    combos = [(N, lab, per, cut) for N in (1, 2, 3, 4) for lab in range(N + 1)
              for per in (False, True) for cut in (0, 3, 7)]
    for i in rec.cases("whole", 2 * len(combos), 12 * len(combos)):
        with rec.case("whole", i) as c:
            rng = c.rng
            N, lab, per, cut = combos[i % len(combos)]
            ac = Adapt(rng, N, rng.choice([1, 2, 2, 3, 4]), d=2 if N > 2 else rng.choice([1, 2, 3]),
                       O=rng.choice([1, 2, 3]), label=lab, periodic=per, parallel=rng.random() < 0.5, T=1, cut2=cut,
                       dtype=f64 if rng.random() < 0.85 else f32)
            ac.rows = words(ac)
            c.set(**ac.config())
            inst = Inst(c, ac, ac.build(), 1)
            if rng.random() < 0.5:  # start in the other pattern
                inst.call(1)
                inst.call(0)
            for rnd in range(2):
                if inst.due():
                    inst.call(0)
                    if inst.due():
                        continue
                inst.set(rng.choice(["copy", "load", "data", "step"]))
                all_rows(c, inst, rng.choice(["no_grad", "backward"]))
                all_rows(c, inst, rng.choice(["no_grad", "backward", "eval"]))
                if cut == 0:
                    all_rows(c, inst)
    # Many switches in a row without truncation
    for i in rec.cases("many", 60, 500):
        with rec.case("many", i) as c:
            rng = c.rng
            ac = random_adapt(rng, T=rng.choice([1, 2, 3]), cut2=0, N=rng.choice([2, 3, 4, 5, 6]),
                              D=rng.choice([1, 2, 3]), dtype=f64)
            c.set(**ac.config())
            inst = Inst(c, ac, ac.build(), 1)
            inst.set()
            inst.call(3, "backward")
            for _ in range(rng.choice([4, 7, 12])):
                inst.call(rng.choice([1, 2, 3, ac.T, 4]), rng.choice(HOWS))
    # Truncations at every switch, set anew in each pattern
    for i in rec.cases("cuts", 60, 500):
        with rec.case("cuts", i) as c:
            rng = c.rng
            ac = random_adapt(rng, T=2, cut2=rng.choice([3, 5, 9, 15, 41]), N=rng.choice([1, 2, 3, 4, 5, 6]),
                              D=rng.choice([1, 2, 3, 4]))
            c.set(**ac.config())
            inst = Inst(c, ac, ac.build(), 1)
            for _ in range(5):
                inst.set(rng.choice(["copy", "load"]))
                inst.call(2, rng.choice(HOWS))
                inst.call(2, rng.choice(HOWS))
                inst.call(0)
    # Blocks of very different norms
    for i in rec.cases("gauge", 40, 400):
        with rec.case("gauge", i) as c:
            rng = c.rng
            ac = random_adapt(rng, T=1, cut2=rng.choice([0, 0, 5]), N=rng.choice([1, 2, 3, 4, 5, 6]),
                              D=rng.choice([1, 2, 3]), dtype=f64 if rng.random() < 0.8 else f32)
            c.set(**ac.config())
            inst = Inst(c, ac, ac.build(), 1)
            for _ in range(3):
                inst.set(rng.choice(["copy", "load", "data"]), gauge=True)
                inst.call(1, rng.choice(HOWS))
                inst.call(2, rng.choice(HOWS))
                if ac.cut2 == 0:
                    inst.call(1, rng.choice(HOWS))
                    inst.call(2, rng.choice(HOWS))
    # Singular values close to the cutoff
    for i in rec.cases("fine", 30, 300):
        with rec.case("fine", i) as c:
            rng = c.rng
            ac = random_adapt(rng, T=1, cut2=rng.choice([41, 201, 999, 1999]), N=rng.choice([1, 2, 2, 3]),
                              D=rng.choice([1, 2, 3, 4]), dtype=f64)
            ac.small = True
            ac.limit = 1e11
            ac.rows = ac.rows[:2]
            c.set(**ac.config())
            inst = Inst(c, ac, ac.build(), 1)
            for _ in range(4):
                inst.set()
                inst.call(1, rng.choice(HOWS))
                if rng.random() < 0.5:
                    inst.call(0)
    # Larger bond dimensions and longer chains
    for i in rec.cases("large", 24, 160):
        with rec.case("large", i) as c:
            rng = c.rng
            N, D = rng.choice([(3, 8), (3, 9), (4, 16), (3, 17), (9, 2), (12, 2), (16, 2), (2, 32), (20, 1)])
            # Chains of one-dimensional values grow quickly: few distinct values
            ac = random_adapt(rng, T=1, cut2=rng.choice([0, 3]), N=N, D=D, d=rng.choice([1, 2]), O=rng.choice([1, 2]),
                              dtype=f64, raw=False, path=None, total=None)
            ac.rows = ac.rows[:2]
            ac.small = N > 6 or D > 6
            c.set(**ac.config())
            inst = Inst(c, ac, ac.build(), 1)
            inst.set()
            inst.call(1, "no_grad")
            inst.call(1, "no_grad")
            if ac.cut2 == 0:
                inst.call(1, "no_grad")
            inst.set()
            inst.call(2, "no_grad")
