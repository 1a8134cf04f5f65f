"""C03: forward evaluations are isolated from one another"""
import threading

import torch
from torch.overrides import TorchFunctionMode

from drivers import fresh, life
from drivers.born import BornCase, OPTIONS, build, enc_row, lognorm, options
from drivers.chain import TI, rows_event
from drivers.lib import Skip, enc1
import math


# ---- Concurrency: a schedule of segments, enforced on threads ----------------


class Gate(TorchFunctionMode):
    """Pauses the calling thread before given operations on tensors"""

    def __init__(self, stops, wait):
        super().__init__()
        self.stops, self.wait, self.n = set(stops), wait, 0

    def __torch_function__(self, func, types, args=(), kwargs=None):
        if self.n in self.stops:
            self.wait()
        self.n += 1
        return func(*args, **(kwargs or {}))


def count_ops(fun):
    g = Gate([], None)
    with torch.no_grad(), g:
        fun()
    return g.n


def run_schedule(rng, jobs, schedule):
    """Evaluate the jobs in one thread each. schedule is the sequence of the
    threads (from 1) whose next segment runs"""
    segments = {t: schedule.count(t) for t in range(1, len(jobs) + 1)}
    cond = threading.Condition()
    state = dict(turn=0, free=False)
    results = {}

    def wait(t):
        with cond:
            # Give the turn back, wait for the next one
            state["turn"] = 0
            cond.notify_all()
            if not cond.wait_for(lambda: state["turn"] == t or state["free"], timeout=20):
                state["free"] = True

    def worker(t, job, stops):
        try:
            wait(t)
            with Gate(stops, lambda: wait(t)):
                results[t] = ("ok", job())
        except Exception as e:
            results[t] = ("raised", f"{type(e).__name__}: {e}"[:200])
        with cond:
            done.add(t)
            state["turn"] = 0
            cond.notify_all()

    done = set()
    threads = []
    for t, job in enumerate(jobs, 1):
        total = count_ops(job)
        k = min(segments[t] - 1, max(total - 1, 0))
        stops = rng.sample(range(total), k) if total else []
        th = threading.Thread(target=worker, args=(t, job, stops), daemon=True)
        threads.append(th)
    for th in threads:
        th.start()
    for t in list(schedule) + [0]:
        if t == 0:
            with cond:
                state["free"] = True
                cond.notify_all()
            break
        with cond:
            if t in done:
                continue
            cond.wait_for(lambda: state["turn"] == 0 or state["free"], timeout=20)
            if state["free"]:
                break
            state["turn"] = t
            cond.notify_all()
            # Wait until that segment is over; a thread which is blocked
            # otherwise ends the schedule
            if not cond.wait_for(lambda: state["turn"] == 0, timeout=5):
                state["free"] = True
                cond.notify_all()
    for th in threads:
        th.join(timeout=30)
    return [results.get(t, ("raised", "no result")) for t in range(1, len(jobs) + 1)]


def concurrent_chain(c, schedule, threads):
    rng = c.rng
    # Models: the same one for all threads, or others
    cases = []
    for t in range(threads):
        if cases and rng.random() < 0.4:
            cases.append(cases[0])
        else:
            sc = life.random_sup(rng) if rng.random() < 0.75 else life.random_ti(rng)
            cases.append((sc, sc.make()))
    c.set(judge="J_Chain", models=[sc.spec() for sc, _ in cases], schedule=schedule)
    for rnd in range(2):
        jobs, data = [], []
        for t, (sc, model) in enumerate(cases):
            x, idx = sc.batch(rng.choice([1, 2, 3, 5]) if not isinstance(sc, TI) else None)
            data.append((sc, idx))
            jobs.append(lambda model=model, x=x: model(x))
        outs = run_schedule(rng, jobs, schedule)
        for t, ((sc, idx), (kind, out)) in enumerate(zip(data, outs), 1):
            c.ev("fact", holds=kind == "ok", what=f"a concurrent evaluation raised: {out if kind != 'ok' else ''}")
            if kind == "ok":
                rows_event(c, t, sc.rows, idx, out, "concurrent")


def concurrent_born(c, schedule, threads):
    """One recorded probabilistic model, evaluated by all threads, which may
    also evaluate models of other kinds"""
    rng = c.rng
    bc = life.random_born(rng)
    model = build(c, bc)
    bc.par.install(model, "load")
    c.set(judge="J_Born", model=bc.par.spec(), schedule=schedule)
    for rnd in range(2):
        jobs, data = [], []
        for t in range(threads):
            if t == 1 and rng.random() < 0.4:
                sc = life.random_sup(rng)
                other = sc.make()
                x, _ = sc.batch(4)
                jobs.append(lambda other=other, x=x: other(x))
                data.append(None)
                continue
            n = rng.choice(bc.lengths)
            opt = rng.choice(options(bc.bias))
            rows = bc.index_rows(n, rng.choice([1, 2, 3, 5]))
            x = bc.tensor(rows)
            jobs.append(lambda x=x, opt=opt: model(x, **OPTIONS[opt]))
            data.append((n, rows, opt))
        outs = run_schedule(rng, jobs, schedule)
        for d, (kind, out) in zip(data, outs):
            c.ev("fact", holds=kind == "ok", what=f"a concurrent evaluation raised: {out if kind != 'ok' else ''}")
            if kind != "ok" or d is None:
                continue
            n, rows, opt = d
            ln = float(lognorm(model, n))
            pairs = []
            for r, v in zip(rows, out.detach().double().tolist()):
                w = 0 if v == -math.inf else enc1(math.exp(v + ln), tol=bc.tol) if math.isfinite(v) and v + ln < 60 else -1
                pairs.append(dict(x=enc_row(r, False), w=w))
            c.ev("weights", m=1, n=n, vec=False, rows=pairs, shape=list(out.shape) == [len(rows)],
                 how=f"concurrent {opt}")


# ---- Rows ---------------------------------------------------------------------


def layout(rng, x):
    """The same tensor in another memory layout"""
    kind = rng.choice(["same", "batch last", "reversed", "strided", "offset"])
    if kind == "batch last":
        return x.movedim(0, -1).contiguous().movedim(-1, 0)
    if kind == "reversed":
        order = list(range(x.ndim))[::-1]
        return x.permute(order).contiguous().permute(order)
    if kind == "strided":
        y = torch.full((2 * x.shape[0],) + x.shape[1:], 7.0, dtype=x.dtype)
        y[::2] = x
        return y[::2]
    if kind == "offset":
        return torch.cat([x[:1] + 5, x])[1:]
    return x


def row_session(c):
    """The same rows in batches of all kinds"""
    rng = c.rng
    sc = life.random_sup(rng, rows=rng.choice([2, 3, 4])) if rng.random() < 0.7 else life.random_ti(rng)
    model = sc.make()
    c.set(judge="J_Chain", models=[sc.spec()])
    for size in [1] + [rng.choice([1, 2, 3, 4, 8, 16, 17, 32, 33, 64, 65, 100, 129, 257, 1000, 1025]) for _ in range(5)]:
        x, idx = sc.batch(size)
        if isinstance(x, torch.Tensor):
            x = layout(rng, x)
        rows_event(c, 1, sc.rows, idx, life.call(model, x, rng.choice(["plain", "no_grad", "eval"])), f"size {size}")
    if not isinstance(sc, TI):
        x, idx = sc.batch(6)
        y = model(x)
        # Views of a larger batch
        for sl in (slice(0, 3), slice(1, 6, 2), slice(5, 6)):
            rows_event(c, 1, sc.rows, idx[sl], model(x[sl]), "slice")
        e = x[:1].expand(4, *x.shape[1:])
        rows_event(c, 1, sc.rows, [idx[0]] * 4, model(e), "expanded")
        out0 = model(x[:0]) if sc.fmap is None and rng.random() < 0.5 else None
        if out0 is not None:
            c.ev("fact", holds=list(out0.shape) == [0, sc.width()], what="empty batch")
        rows_event(c, 1, sc.rows, idx, model(x), "after an empty batch")


def exponents(rng, n, lim):
    """Exponents of n factors whose partial sums are bounded"""
    out = []
    for _ in range(n):
        e = rng.randint(-lim, lim)
        out.append(e if abs(sum(out) + e) <= 3 * lim else -e)
    return out


def wild_chain(c):
    """Batches with rows of very different sizes, and with rows which aren't
    numbers or are too large to be evaluated"""
    rng = c.rng
    sup = rng.random() < 0.6
    scaled = rng.random() < 0.6
    kw = dict(raw=False, fmap=None) if scaled else {}
    if sup:
        sc = life.random_sup(rng, **kw, **(dict(bias=False) if scaled else {}))
    else:
        sc = life.random_ti(rng, **kw, **(dict(bias="none") if scaled else {}))
    model = sc.make()
    c.set(judge="J_Chain", models=[sc.spec()])
    for _ in range(4):
        size = rng.choice([2, 3, 5, 9, 33])
        x, idx = sc.batch(size) if sup else sc.batch(size, same=True, as_list=False)
        size = len(idx)
        x, total, keep = x.clone(), [0] * size, []
        for b in range(size):
            if rng.random() < 0.3:
                x[b] = rng.choice([float("nan"), float("inf"), -float("inf"), 1e30, 0.0])
                continue
            keep.append(b)
            if scaled and rng.random() < 0.7:
                es = exponents(rng, x.shape[1], 30 if sc.dtype == torch.float32 else 200)
                if sup and sc.path is not None:
                    es = [e // 4 for e in es]
                    total[b] = sum(es[p] for p in sc.path)
                else:
                    total[b] = sum(es)
                x[b] *= torch.tensor([2.0 ** e for e in es], dtype=x.dtype)[:, None]
        if not keep:
            continue
        out = life.call(model, x, rng.choice(["plain", "no_grad", "eval", "inference"]))
        ok = list(out.shape) == [size, sc.width()]
        c.ev("fact", holds=ok, what="shape of the output")
        if ok:
            y = out.detach().double()[keep] * torch.tensor([2.0 ** -total[b] for b in keep],
                                                           dtype=torch.float64)[:, None]
            rows_event(c, 1, sc.rows, [idx[b] for b in keep], y, "wild batch")


def wild_born(c):
    """The same for probabilistic models with vectors as inputs"""
    rng = c.rng
    scaled = rng.random() < 0.8
    small = torch.float32 if rng.random() < 0.3 else torch.float64
    for _ in range(30):
        n = rng.choice([1, 2, 3, 4, 6, 8, 9])
        bc = BornCase(rng, n, rng.choice([1, 2, 3]), rng.choice([1, 2, 3]), uniform=rng.random() < 0.5,
                      cplx=rng.random() < 0.4, bias=not scaled and rng.random() < 0.5, dtype=small)
        rows = bc.vec_rows(bc.par, n, 6)
        if small == torch.float32:
            # The logarithms are large, and their rounding errors too
            rows = [r for r in rows if abs(bc.par.amplitude(r)) ** 2 < 300]
        if rows:
            break
    else:
        raise Skip("no rows")
    model = build(c, bc)
    bc.par.install(model, "load")
    c.set(judge="J_Born", model=bc.par.spec())
    for _ in range(4):
        size = rng.choice([2, 3, 5, 9, 33])
        idx = [rng.randrange(len(rows)) for _ in range(size)]
        x, total, keep = torch.stack([rows[i] for i in idx]), [0] * size, []
        for b in range(size):
            if rng.random() < 0.2:
                x[b] = 0  # probability zero, in general; others are refused
                continue
            keep.append(b)
            if scaled and rng.random() < 0.7:
                # Any number of factors which are small, or large, or both
                lim = 25 if bc.dtype == torch.float32 else 200
                drift = rng.choice([-1, 0, 1])
                es = [rng.randint(-lim, lim) if not drift else drift * rng.randint(lim // 2, lim) for _ in range(n)]
                total[b] = sum(es)
                x[b] *= torch.tensor([2.0 ** e for e in es], dtype=x.dtype)[:, None]
        if not keep:
            continue
        opt = rng.choice(options(bc.bias))
        with torch.no_grad():
            out = model(x, **OPTIONS[opt])
        ln = float(lognorm(model, n))
        pairs, ok = [], list(out.shape) == [size]
        for b in keep if ok else []:
            v = float(out[b]) + ln - 2 * total[b] * math.log(2)
            w = 0 if v == -math.inf else enc1(math.exp(v), tol=bc.tol) if math.isfinite(v) and v < 60 else -1
            pairs.append(dict(x=enc_row(rows[idx[b]], True), w=w))
        pairs = [p for i, p in enumerate(pairs) if p not in pairs[:i]]
        c.ev("weights", m=1, n=n, vec=True, rows=pairs, shape=ok, how=f"{opt} wild batch")


def drive(rec):
    for name in ("two", "three"):
        hs = rec.behaviours[name]
        t = 2 if name == "two" else 3
        for i in rec.cases(f"concurrent-{name}", len(hs), 4 * len(hs)):
            with rec.case(f"concurrent-{name}", i) as c:
                concurrent_chain(c, hs[i % len(hs)], t)
        for i in rec.cases(f"concurrent-born-{name}", len(hs) // 2, 4 * len(hs)):
            with rec.case(f"concurrent-born-{name}", i) as c:
                concurrent_born(c, hs[(2 * i) % len(hs)], t)
    for name in ("life", "long"):
        hs = rec.behaviours[name]
        for fam in ("sup", "ti", "born"):
            for i in rec.cases(f"{name}-{fam}", len(hs), len(hs)):
                with rec.case(f"{name}-{fam}", i) as c:
                    life.replay(c, fam, hs[i])
    for i in rec.cases("rows", 60, 1000):
        with rec.case("rows", i) as c:
            row_session(c)
    for i in rec.cases("wild", 40, 600):
        with rec.case("wild", i) as c:
            wild_chain(c)
    for i in rec.cases("wild-born", 40, 600):
        with rec.case("wild-born", i) as c:
            wild_born(c)
    fresh.drive(rec, dict(sup=fresh.sup, ti=fresh.ti, born=fresh.born), 18)
