"""Parent side of every check: runs TLC on the design models, runs the driver
(real code) in child processes, lets TLC validate the recorded traces, writes
the evidence and reports violations.

Only exit codes 0 (held) and 1 (VIOLATION line printed) are outcomes, every
other exit code means that the machinery itself failed.
"""
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
OUT = os.path.join(VERIF, "out")
REPO = os.environ.get("TM_REPO", "/repo")
PY = "/opt/venv/bin/python"
JARS = (
    "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
)


class MachineryError(Exception):
    pass


def child_env(extra=None):
    env = dict(os.environ)
    env.update(
        PYTHONPATH=os.pathsep.join([REPO, os.path.join(VERIF, "harness")]),
        PYTHONDONTWRITEBYTECODE="1",
        OMP_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        CUDA_VISIBLE_DEVICES="",
        PYTHONHASHSEED="0",
        VERIF_DIR=VERIF,
    )
    env.update(extra or {})
    return env


class TLCResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", out)
        self.transitions = int(m[-1][0].replace(",", "")) if m else 0
        self.states = int(m[-1][1].replace(",", "")) if m else 0
        self.ok = rc == 0 and "Model checking completed. No error" in out
        self.lines = out.splitlines()

    def prints(self, tag):
        """Values printed by PrintT(<<tag, ...>>), as lists of TLA+ atoms"""
        found = []
        for line in self.lines:
            if line.startswith(f'<<"{tag}",') and line.endswith(">>"):
                found.append(parse_tuple(line))
        return found


def parse_tuple(line):
    """Parse a flat TLA+ tuple of strings, integers and booleans"""
    body = line.strip()[2:-2]
    vals = []
    for tok in re.findall(r'"((?:[^"\\]|\\.)*)"|(-?\d+)|(TRUE|FALSE)', body):
        if tok[1]:
            vals.append(int(tok[1]))
        elif tok[2]:
            vals.append(tok[2] == "TRUE")
        else:
            vals.append(re.sub(r"\\(.)", r"\1", tok[0]))
    return vals


def run_tlc(module, cfg, env=None, workers=4, timeout=600, deadlock=False, mem="3g",
            simulate=None, seed=1):
    """Run TLC on spec/<module>.tla with configuration file spec/<cfg>.cfg"""
    tmp = tempfile.mkdtemp(prefix="tlc_")
    cmd = [
        "java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:CICompilerCount=2", f"-Xmx{mem}", "-Xss256m",
        "-Djava.io.tmpdir=" + tmp,
        "-cp", JARS, "tlc2.TLC",
        "-metadir", os.path.join(tmp, "meta"),
        "-workers", str(workers),
        "-config", os.path.join(SPEC, cfg + ".cfg"),
        "-noGenerateSpecTE",
    ]
    if not deadlock:
        cmd.append("-deadlock")
    if simulate:
        cmd += ["-simulate", f"num={simulate[0]}", "-depth", str(simulate[1]),
                "-seed", str(seed)]
    cmd.append(os.path.join(SPEC, module + ".tla"))
    try:
        proc = subprocess.run(
            cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
            timeout=timeout, cwd=tmp, env=dict(os.environ, **(env or {})),
        )
    except subprocess.TimeoutExpired as e:
        raise MachineryError(f"TLC timed out on {module}/{cfg}")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return TLCResult(proc.stdout, proc.returncode)


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.dir = os.path.join(OUT, f"{pid}-{os.getpid()}")
        os.makedirs(self.dir, exist_ok=True)
        self.states = self.transitions = 0
        self.traces = self.events = 0
        self.samples = []
        self.notes = {}
        self.failures = []  # dicts with clause, session, event
        self.model_runs = []
        self.counters = {}

    # ---- design models -------------------------------------------------

    def model(self, module, cfg, workers=4, timeout=600, expect_fail=None, **kw):
        """Model check a design model. It has to hold (it's our specification,
        so an error in it is a defect of the machinery), or has to fail for
        deliberately broken variants of the design (expect_fail = name)"""
        res = run_tlc(module, cfg, workers=workers, timeout=timeout, **kw)
        if expect_fail is None and not res.ok:
            raise MachineryError(f"design model {module}/{cfg}:\n{res.out[-3000:]}")
        if expect_fail is not None:
            bad = (f"Invariant {expect_fail} is violated" in res.out
                   or f"Action property {expect_fail} is violated" in res.out
                   or "Temporal properties were violated" in res.out
                   or f"Assumption" in res.out and expect_fail == "ASSUME")
            if not bad:
                raise MachineryError(
                    f"broken variant {module}/{cfg} wasn't detected:\n{res.out[-3000:]}"
                )
        self.states += res.states
        self.transitions += res.transitions
        self.model_runs.append(
            dict(module=module, cfg=cfg, states=res.states, transitions=res.transitions,
                 broken_variant=expect_fail is not None)
        )
        return res

    # ---- behaviours generated by the specification ----

    def behaviours(self, module, cfg, count, simulate=None, timeout=600, workers=4, name=None):
        """Behaviours (sequences of actions) which TLC prints while exploring
        spec/<module>.tla, exhaustively or by random simulation. Returns at most
        `count` of them, chosen by the seed"""
        res = run_tlc(module, cfg, workers=1 if simulate else workers, timeout=timeout,
                      simulate=simulate, seed=self.seed)
        found = []
        for line in res.lines:
            if line.startswith('<<"BEH", "') and line.endswith('">>'):
                text = line[len('<<"BEH", "'):-len('">>')]
                found.append(json.loads(re.sub(r"\\(.)", r"\1", text)))
        if not found or "Error:" in res.out:
            raise MachineryError(f"no behaviours from {module}/{cfg}:\n{res.out[-3000:]}")
        uniq = sorted({json.dumps(b, sort_keys=True) for b in found})
        total = len(uniq)
        if total > count:
            uniq = random.Random(f"{self.seed}/{module}/{cfg}").sample(uniq, count)
        self.states += res.states
        self.transitions += res.transitions
        self.model_runs.append(dict(module=module, cfg=cfg, states=res.states,
                                    transitions=res.transitions, behaviours=total,
                                    behaviours_replayed=len(uniq), simulated=bool(simulate)))
        return [json.loads(b) for b in uniq]

    # ---- driver --------------------------------------------------------

    def drive(self, shard, nshards, only=None, timeout=600, behaviours=None):
        """Run the driver of this property in a child process, returning the
        path of the trace which it recorded"""
        name = f"trace-{shard}"
        path = os.path.join(self.dir, name + ".ndjson")
        cfg = dict(pid=self.pid, tier=self.tier, seed=self.seed, shard=shard,
                   nshards=nshards, out=path, only=only, behaviours=behaviours)
        cfg_path = os.path.join(self.dir, name + ".cfg.json")
        with open(cfg_path, "w") as f:
            json.dump(cfg, f)
        err_path = os.path.join(self.dir, name + ".err")
        scratch = os.path.join(self.dir, name + ".tmp")
        os.makedirs(scratch, exist_ok=True)
        with open(err_path, "w") as err:
            proc = subprocess.Popen(
                [PY, "-B", os.path.join(VERIF, "harness", "driver.py"), cfg_path],
                stdout=err, stderr=err, env=child_env({"TMPDIR": scratch}),
                cwd=scratch, start_new_session=True,
            )
            hung = False
            try:
                rc = proc.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                hung = True
                os.killpg(proc.pid, signal.SIGKILL)
                rc = proc.wait()
        current = None
        if os.path.exists(path + ".current"):
            with open(path + ".current") as f:
                current = f.read()
        if rc == 0:
            return path
        text = open(err_path).read()[-3000:]
        if current and (hung or rc < 0):
            # The code under test made its process hang or die
            clause = "evaluation did not terminate" if hung else f"process died (signal {-rc})"
            self.failures.append(
                dict(clause=clause, session=json.loads(current), event=0, shard=shard,
                     nshards=nshards))
            return path
        raise MachineryError(f"driver shard {shard} failed ({rc}):\n{text}")

    def judge(self, module, path, workers=2, timeout=800, cfg="Trace"):
        """Validate a recorded trace against the specification"""
        groups = {}
        with open(path) as f:
            for line in f:
                if line.strip():
                    ses = json.loads(line)
                    groups.setdefault(ses.get("judge") or module, []).append((line, ses))
        if len(groups) > 1:
            # Sessions for different specifications
            for name, group in sorted(groups.items()):
                part = path + "." + name
                with open(part, "w") as f:
                    f.writelines(line for line, _ in group)
                self.judge(module, part, workers, timeout, cfg)
            return
        if not groups:
            return
        module = next(iter(groups))
        sessions = [ses for _, ses in groups[module]]
        res = run_tlc(module, cfg, env={"TRACE": path}, workers=workers,
                      timeout=timeout)
        if not res.ok:
            raise MachineryError(f"trace validation {module}:\n{res.out[-4000:]}")
        self.states += res.states
        self.transitions += res.transitions
        done = {t[1] for t in res.prints("DONE")}
        fails = {}
        for m in re.finditer(r'^"FAIL (\d+) (\d+) (.*)"$', res.out, re.M):
            fails.setdefault(int(m.group(1)), (None, int(m.group(1)), int(m.group(2)), m.group(3)))
        for i, ses in enumerate(sessions, 1):
            self.events += len(ses["ev"])
            if i in fails:
                t = fails[i]
                self.failures.append(
                    dict(clause=t[3], session=ses, event=t[2], trace=path))
            elif i in done:
                self.traces += 1
            else:
                raise MachineryError(f"session {i} of {path} was not decided")
        self.samples += [trim(s) for s in sessions[:2]]
        for s in sessions:
            k = s.get("kind", "?")
            self.counters[k] = self.counters.get(k, 0) + 1

    def run(self, module, shards=2, workers=2, timeout=700, behaviours=None, models=(),
            only=None, judge_timeout=800):
        """Model runs, drivers and trace validations, run side by side"""

        def one(shard):
            t0 = time.time()
            path = self.drive(shard, shards, timeout=timeout, behaviours=behaviours,
                              only=only)
            t1 = time.time()
            if os.path.exists(path):
                self.judge(module, path, workers=workers, timeout=judge_timeout)
            if os.environ.get("TM_DEBUG"):
                print(f"shard {shard}: driver {t1 - t0:.1f}s judge {time.time() - t1:.1f}s")

        with cf.ThreadPoolExecutor(max_workers=8) as ex:
            futs = [ex.submit(one, i) for i in range(shards)]
            futs += [ex.submit(lambda kw=kw: self.model(**kw)) for kw in models]
            errs = []
            for fut in futs:
                try:
                    fut.result()
                except MachineryError as e:
                    errs.append(e)
            if errs and not self.failures:
                raise errs[0]

    # ---- outcome -------------------------------------------------------

    def finish(self):
        known = load_known(self.pid)
        new, shown = [], set()
        for fail in self.failures:
            entry = next((k for k in known if matches(k, fail)), None)
            if entry is None:
                new.append(fail)
            elif entry["id"] not in shown:
                shown.add(entry["id"])
                print(f"KNOWN-FINDING: property={self.pid} {entry['what']}")
        evidence = dict(
            property=self.pid, tier=self.tier, seed=self.seed, level="model_checking",
            coverage=dict(
                states=self.states, transitions=self.transitions,
                traces_validated_against_impl=self.traces,
                implementation_events=self.events,
                sessions_by_kind=self.counters,
                model_runs=self.model_runs,
                samples=self.samples[:4],
                **self.notes,
            ),
            assumptions=ASSUMPTIONS,
            wall_s=round(time.time() - self.t0, 2),
            violations=len(new),
        )
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
        rc = 0
        os.makedirs(os.path.join(OUT, "replay"), exist_ok=True)
        if os.environ.get("TM_ALL"):
            for fail in new:
                ev = fail["session"].get("ev", [])
                k = fail["event"]
                print("ALL", fail["clause"], json.dumps(ev[k - 1] if 0 < k <= len(ev) else {})[:400])
        for i, fail in enumerate(new[:5]):
            rep = os.path.join(OUT, "replay", f"{self.pid}-{i}.json")
            with open(rep, "w") as f:
                json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed,
                               **fail), f, indent=1)
            ses = fail["session"]
            print(f"  clause: {fail['clause']}; kind: {ses.get('kind')}; "
                  f"case: {ses.get('key')}; event: {fail['event']}")
            ev = ses.get("ev", [])
            k = fail["event"]
            if 0 < k <= len(ev) and "exc" in ev[k - 1]:
                print("  exception:", ev[k - 1]["exc"])
            print(f"VIOLATION property={self.pid} replay={rep}")
            rc = 1
        if rc == 0 and self.traces == 0:
            raise MachineryError("no trace was validated")
        print(f"{self.pid} {self.tier}: states={self.states} transitions="
              f"{self.transitions} traces={self.traces} events={self.events} "
              f"violations={len(new)} wall={time.time() - self.t0:.1f}s")
        if rc == 0 and not os.environ.get("TM_KEEP"):
            shutil.rmtree(self.dir, ignore_errors=True)
        return rc


ASSUMPTIONS = [
    "TLC evaluates the specification correctly; values are compared as exact integers "
    "modulo the prime 46337, so two different values coincide with probability 1/46337",
    "the driver records faithfully the arguments it passes and the results it gets",
    "CPU execution; CUDA code paths can't run in this sandbox",
]


def trim(ses, limit=1500):
    text = json.dumps(ses)
    if len(text) <= limit:
        return ses
    return dict(kind=ses.get("kind"), key=ses.get("key"), n_events=len(ses["ev"]),
                head=text[:limit])


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.txt")
    found = []
    if os.path.exists(path):
        for line in open(path):
            # finding: property=<id> id=<name> kind=<kind> clause=<regex> | what fails
            m = re.match(r"finding: property=(\S+) id=(\S+) kind=(\S+) key=(\S+) clause=(\S+) \| (.*)", line)
            if m and m.group(1) == pid:
                found.append(dict(id=m.group(2), kind=m.group(3), key=m.group(4),
                                  clause=m.group(5), what=m.group(6).strip()))
    return found


def matches(known, fail):
    ses = fail["session"]
    return (ses.get("kind") == known["kind"]
            and re.fullmatch(known["key"], str(ses.get("key"))) is not None
            and re.search(known["clause"], fail["clause"].replace(" ", "_")) is not None)
