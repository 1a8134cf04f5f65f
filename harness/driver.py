"""Child side of every check: runs the real code and records traces.

A trace is a file with one session per line: {"kind", "key", <configuration>,
"ev": [<events>]}. Sessions are what TLC validates against the specification.
"""
import importlib
import json
import os
import random
import signal
import sys
import traceback
import warnings
import zlib

P = 46337  # prime below sqrt(2^31), so products fit into the integers of TLC


class CaseTimeout(Exception):
    pass


def _alarm(signum, frame):
    raise CaseTimeout("evaluation did not terminate")


class Case:
    def __init__(self, rec, kind, idx):
        self.rec, self.kind, self.idx = rec, kind, idx
        self.key = f"{kind}-{idx}"
        self.rng = random.Random(f"{rec.seed}/{rec.pid}/{self.key}")
        self.data = {"kind": kind, "key": self.key}
        self.events = []

    def set(self, **kw):
        self.data.update(kw)

    def ev(self, op, **kw):
        e = {"op": op}
        e.update(kw)
        self.events.append(e)
        return e

    def __enter__(self):
        import numpy as np
        import torch

        s = self.rng.randrange(2 ** 31)
        torch.manual_seed(s)
        np.random.seed(s)
        with open(self.rec.out + ".current", "w") as f:
            json.dump({"kind": self.kind, "key": self.key, "ev": []}, f)
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(self.rec.case_limit)
        return self

    def __exit__(self, typ, val, tb):
        signal.alarm(0)
        import torch

        torch.set_default_dtype(torch.float32)
        torch.set_grad_enabled(True)
        if typ is not None:
            if not issubclass(typ, Exception):
                return False
            if typ.__name__ == "Skip":
                os.remove(self.rec.out + ".current")
                self.rec.skipped += 1
                return True
            text = "".join(traceback.format_exception(typ, val, tb))
            if os.environ.get("TM_DEBUG"):
                print(self.key, text, file=sys.stderr)
            self.ev("raised", exc=f"{typ.__name__}: {val}"[:300], where=text[-900:])
        self.data["ev"] = self.events
        self.rec.write(self.data)
        os.remove(self.rec.out + ".current")
        return True


class Rec:
    def __init__(self, cfg):
        self.pid, self.tier, self.seed = cfg["pid"], cfg["tier"], cfg["seed"]
        self.shard, self.nshards = cfg["shard"], cfg["nshards"]
        self.out, self.only = cfg["out"], cfg.get("only")
        self.behaviours = cfg.get("behaviours")
        self.case_limit = 150
        self.file = open(self.out, "w")
        self.n = 0
        self.skipped = 0

    @property
    def quick(self):
        return self.tier != "thorough"

    def write(self, data):
        self.file.write(json.dumps(data, separators=(",", ":")) + "\n")
        self.file.flush()

    def cases(self, kind, quick, thorough=None):
        """Indices of the cases of some kind which belong to this shard"""
        total = quick if self.quick else (thorough or 10 * quick)
        for i in range(total):
            self.n += 1
            if self.only is not None:
                if self.only == f"{kind}-{i}" and self.shard == 0:
                    yield i
            elif zlib.crc32(f"{kind}-{i}".encode()) % self.nshards == self.shard:
                yield i

    def case(self, kind, idx):
        return Case(self, kind, idx)


def main():
    warnings.simplefilter("ignore")
    cfg = json.load(open(sys.argv[1]))
    import torch

    torch.set_num_threads(1)
    rec = Rec(cfg)
    mod = importlib.import_module("drivers." + cfg["pid"].lower())
    mod.drive(rec)
    rec.file.close()
    if rec.skipped > 0.2 * rec.n + 2:
        raise SystemExit(f"too many cases were dropped: {rec.skipped}")


if __name__ == "__main__":
    main()
