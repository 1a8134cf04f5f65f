"""C12: reported bond dimensions and singular values are truthful"""
import torch

from drivers.adapt import HOWS, Adapt, Inst, random_adapt


def initial(c, ac, model):
    N, D = ac.N, ac.D
    want = [D] * (N + 2)
    if not ac.periodic:
        want[0] = want[-1] = 1
    c.ev("fact", holds=model.bond_list.tolist() == want, what="initial bond dimensions")
    c.ev("fact", holds=bool((model.sv_list < 0).all()) and list(model.sv_list.shape) == [N + 2, D],
         what="initial singular values")


def drive(rec):
    f32, f64 = torch.float32, torch.float64
    combos = [(N, lab, per, cut) for N in (1, 2, 3, 4, 5) for lab in range(N + 1)
              for per in (False, True) for cut in (0, 3, 9)]
    for i in rec.cases("reports", 2 * len(combos), 12 * len(combos)):
        with rec.case("reports", i) as c:
            rng = c.rng
            N, lab, per, cut = combos[i % len(combos)]
            ac = Adapt(rng, N, rng.choice([1, 2, 3, 4, 5]), d=rng.choice([1, 2, 2, 3]), O=rng.choice([1, 2, 3]),
                       label=lab, periodic=per, parallel=rng.random() < 0.5, T=1, cut2=cut,
                       dtype=f64 if rng.random() < 0.85 else f32, nrows=2)
            c.set(**ac.config())
            model = ac.build()
            initial(c, ac, model)
            inst = Inst(c, ac, model, 1)
            for _ in range(4):
                inst.set(rng.choice(["copy", "load"]))
                inst.call(1, rng.choice(HOWS))
                if rng.random() < 0.3 and cut == 0:
                    inst.call(1, rng.choice(HOWS))
    # Singular values close to the cutoff
    for i in rec.cases("fine", 30, 300):
        with rec.case("fine", i) as c:
            rng = c.rng
            ac = random_adapt(rng, T=1, cut2=rng.choice([41, 201, 999, 1999]), N=rng.choice([1, 2, 2, 3]),
                              D=rng.choice([1, 2, 3, 4]), dtype=f64)
            ac.small = True
            ac.limit = 1e11
            ac.rows = ac.rows[:2]
            c.set(**ac.config())
            inst = Inst(c, ac, ac.build(), 1)
            for _ in range(4):
                inst.set()
                inst.call(1, rng.choice(HOWS))
                if rng.random() < 0.5:
                    inst.call(0)
    for i in rec.cases("large", 24, 160):
        with rec.case("large", i) as c:
            rng = c.rng
            N, D = rng.choice([(3, 8), (3, 9), (4, 16), (3, 17), (9, 2), (12, 2), (2, 32), (20, 1)])
            ac = random_adapt(rng, T=1, cut2=rng.choice([0, 3, 5]), N=N, D=D, d=rng.choice([1, 2]),
                              O=rng.choice([1, 2, 9]), dtype=f64, raw=False, path=None, total=None)
            ac.rows = ac.rows[:1]
            ac.small = N > 6 or D > 6
            c.set(**ac.config())
            inst = Inst(c, ac, ac.build(), 1)
            for _ in range(3):
                inst.set()
                inst.call(1, "no_grad")
    # Along training
    for i in rec.cases("training", 40, 300):
        with rec.case("training", i) as c:
            rng = c.rng
            ac = random_adapt(rng, T=rng.choice([2, 3]), cut2=0, dtype=f64, D=rng.choice([2, 3]), train=True,
                              N=rng.choice([1, 2, 3, 4]))
            c.set(**ac.config())
            inst = Inst(c, ac, ac.build(), 1)
            inst.set()
            for _ in range(8):
                inst.call(rng.choice([1, 1, 2, 3]), "backward", step=rng.random() < 0.5)
