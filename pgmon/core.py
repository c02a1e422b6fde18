"""Check runner: verdict discipline, evidence, replay files, known findings, reach counters."""
import contextlib
import faulthandler
import io
import json
import logging
import math
import os
import pickle
import random
import signal
import sys
import tempfile
import threading
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PYGMM_REPO", "/repo")
SRC = os.path.join(REPO, "src")
MAX_REPORT = 8


class Inconclusive(Exception):
    """The deciding monitor was not reached: neither held nor violated."""


def jsonable(x):
    import numpy as np

    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (set, frozenset)):
        return len(x)
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        y = x.item()
        return jsonable(float(y) if type(y) is type(x) else y)
    if isinstance(x, float) and not math.isfinite(x):
        return repr(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


# size of the workload of a check, in multiples of the numbers in its code; three where not given
SCALE = {"C01": 5, "C02": 6, "C06": 6, "C07": 6, "C25": 6, "C31": 6, "C34": 8, "C09": 2, "C10": 1, "C11": 1, "C32": 2, "C33": 1, "C35": 1, "C37": 1}


class Ctx:
    """Collects what the monitors of one check observed."""

    def __init__(self, pid, tier, seed, shard=0, nshards=1):
        self.pid, self.tier, self.shard, self.nshards = pid, tier, shard, nshards
        # every shard explores another part of the inputs
        self.seed = seed + 100000 * shard
        self.rng = random.Random("%s/%s" % (pid, self.seed))
        self.evaluations = 0
        self.keys = set()
        self.samples = []
        self.counters = {}
        self.violations = []
        self.seen_viol = {}
        self.rule = ""
        self.assumptions = []
        self.known_hits = {}
        self.t0 = time.time()
        with open(os.path.join(ROOT, "known_findings.json")) as fh:
            self.known = [k for k in json.load(fh)["findings"] if k["property"] == pid]

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough=None):
        """Workload size for the tier."""
        k = (thorough if thorough is not None else quick * 10) if self.thorough else quick
        return k * SCALE.get(self.pid, 3)

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def case(self, key, nontrivial=True, sample=None):
        """Record one evaluation the oracle decided."""
        self.evaluations += 1
        if nontrivial:
            self.keys.add(hash(key))
        if sample is not None and len(self.samples) < 6:
            self.samples.append(jsonable(sample))

    def violation(self, mechanism, message, witness):
        """Report one violated observation; `mechanism` identifies the kind of failure."""
        for k in self.known:
            if k["mechanism"] == mechanism:
                self.known_hits[mechanism] = self.known_hits.get(mechanism, 0) + 1
                return
        n = self.seen_viol.get(mechanism, 0)
        self.seen_viol[mechanism] = n + 1
        if n < 2 and len(self.violations) < MAX_REPORT:
            self.violations.append(
                dict(mechanism=mechanism, message=message, witness=jsonable(witness))
            )

    def require(self, cond, what):
        if not cond and not self.seen_viol:
            raise Inconclusive(what)


    FIELDS = ("evaluations", "keys", "samples", "counters", "violations", "seen_viol", "rule", "assumptions", "known_hits")

    def dump(self):
        d = {k: getattr(self, k) for k in self.FIELDS}
        d["samples"], d["violations"] = jsonable(self.samples), jsonable(self.violations)
        return d

    def merge(self, d):
        """Add what another shard observed."""
        self.evaluations += d["evaluations"]
        self.keys |= d["keys"]
        self.samples = (self.samples + d["samples"])[:6]
        self.rule = self.rule or d["rule"]
        self.assumptions = self.assumptions or d["assumptions"]
        add(self.counters, d["counters"])
        add(self.seen_viol, d["seen_viol"])
        add(self.known_hits, d["known_hits"])
        have = {v["mechanism"] for v in self.violations}
        self.violations = (self.violations + [v for v in d["violations"] if v["mechanism"] not in have])[:MAX_REPORT]


def add(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            add(a.setdefault(k, {}), v)
        elif isinstance(v, set):
            a.setdefault(k, set()).update(v)
        elif isinstance(v, (int, float)):
            a[k] = a.get(k, 0) + v
        else:
            a.setdefault(k, v)


def attempt(ctx, fn, need=True):
    """Run the check; returns (status, message)."""
    try:
        fn(ctx)
        ctx.require(not need or ctx.evaluations > 0, "no evaluation was decided by the oracle")
    except Inconclusive as e:
        return 3, "INCONCLUSIVE property=%s %s" % (ctx.pid, e)
    except Exception as e:
        frames = traceback.extract_tb(e.__traceback__)
        if any(os.path.realpath(f.filename).startswith(os.path.realpath(SRC) + os.sep) for f in frames):
            # the package failed on input the property covers
            ctx.violation("raised/" + type(e).__name__, "%r" % e, dict(traceback=traceback.format_exc()[-1500:]))
        else:
            return 4, "ERROR property=%s\n%s" % (ctx.pid, traceback.format_exc())
    return 0, ""


def descendants(pid):
    """Processes started by a worker, itself first."""
    out, todo = [], [pid]
    while todo:
        p = todo.pop()
        out.append(p)
        try:
            for tid in os.listdir("/proc/%d/task" % p):
                with open("/proc/%d/task/%s/children" % (p, tid)) as fh:
                    todo.extend(int(c) for c in fh.read().split())
        except OSError:
            pass
    return out


def work(pids):
    """What the processes did so far: time on the processor, and who they are."""
    total = 0
    for p in pids:
        try:
            with open("/proc/%d/stat" % p) as fh:
                f = fh.read().rpartition(")")[2].split()
            total += sum(int(x) for x in f[11:15])
        except (OSError, ValueError, IndexError):
            pass
    return total, tuple(sorted(pids))


IDLE_STEP, IDLE_STEPS = 5.0, 18


def watch(children, done):
    """End workers that wait for ever: nothing runs in them for a minute and a half."""
    idle = {c: (None, 0) for c in children}
    while not done.wait(IDLE_STEP):
        for c in list(idle):
            pids = descendants(c)
            now, (before, n) = work(pids), idle[c]
            same = before is not None and now[1] == before[1] and now[0] - before[0] <= 1
            idle[c] = (now, n + 1 if same else 0)
            if idle[c][1] < IDLE_STEPS:
                continue
            del idle[c]
            # where they are goes to the file the worker was given
            for p, s in [(p, signal.SIGUSR2) for p in pids] + [(p, signal.SIGKILL) for p in reversed(pids)]:
                if s == signal.SIGKILL and p == pids[-1]:
                    time.sleep(1.0)
                with contextlib.suppress(OSError):
                    os.kill(p, s)


def sharded(pid, tier, seed, fn, n):
    """Run the check in n forked processes over different inputs and merge what they observed."""
    procs = []
    sys.stdout.flush()
    sys.stderr.flush()
    for i in range(n):
        r, w = os.pipe()
        where = tempfile.TemporaryFile()
        child = os.fork()
        if child == 0:
            code = 1
            try:
                os.close(r)
                for q, _, _ in procs:
                    q.close()
                faulthandler.register(signal.SIGUSR2, file=where, all_threads=True)
                c = Ctx(pid, tier, seed, i, n)
                res = attempt(c, fn)
                with os.fdopen(w, "wb") as fh:
                    pickle.dump((res, c.dump()), fh, pickle.HIGHEST_PROTOCOL)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(w)
        procs.append((os.fdopen(r, "rb"), child, where))
    ctx = Ctx(pid, tier, seed, 0, n)
    status, msg = 0, ""
    done = threading.Event()
    watcher = threading.Thread(target=watch, args=([c for _, c, _ in procs], done), daemon=True)
    watcher.start()
    for fh, child, where in procs:
        data = fh.read()
        fh.close()
        os.waitpid(child, 0)
        try:
            (st, m), d = pickle.loads(data)
        except Exception:
            st, m, d = 4, "ERROR property=%s a worker process ended without a result" % pid, None
            where.seek(0)
            trace = where.read().decode(errors="replace")
            if any('"%s%s' % (s, os.sep) in trace for s in (SRC, os.path.realpath(SRC))):
                # it was ended because nothing ran in it any more
                ctx.violation("hangs", "an evaluation does not come back: it waits for ever", dict(threads=trace[:1500]))
                st, m = 0, ""
        where.close()
        if d is not None:
            ctx.merge(d)
        if st > status:
            status, msg = st, m
    done.set()
    watcher.join()
    ctx.counters["worker_processes"] = n
    return ctx, status, msg


def setup_repo():
    """Import pygmm from the working tree (no bytecode is written there)."""
    sys.dont_write_bytecode = True
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    if SRC in sys.path:
        sys.path.remove(SRC)
    sys.path.insert(0, SRC)
    import pygmm

    got = os.path.realpath(pygmm.__file__)
    if not got.startswith(os.path.realpath(SRC) + os.sep):
        raise Inconclusive("pygmm imported from %s, not from %s" % (got, SRC))
    logging.getLogger().addHandler(logging.NullHandler())
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")


def run(pid, tier, seed, replay=None):
    from . import registry

    t0 = time.time()
    level = "exploration"
    ctx = Ctx(pid, tier, seed)
    status, msg = attempt(ctx, lambda c: setup_repo(), need=False)
    if not status and not ctx.seen_viol:
        fn = registry.get(pid)
        n = min(registry.shards(pid), len(os.sched_getaffinity(0)))
        if n > 1:
            ctx, status, msg = sharded(pid, tier, seed, fn, n)
        else:
            status, msg = attempt(ctx, fn)
    if ctx.seen_viol:
        status = 1
    if not ctx.samples:
        ctx.samples.append("none recorded")
    ev = dict(
        property=pid,
        tier=tier,
        seed=seed,
        level=level,
        coverage=dict(
            evaluations=ctx.evaluations,
            distinct_nontrivial=len(ctx.keys),
            rule=ctx.rule,
            samples=ctx.samples,
            observed=jsonable(ctx.counters),
            known_findings_reproduced=ctx.known_hits,
            outcome={0: "held on everything observed", 1: "violated"}.get(status, "inconclusive: " + msg[:400]),
        ),
        assumptions=ctx.assumptions,
        wall_s=round(time.time() - t0, 3),
        violations=sum(ctx.seen_viol.values()),
    )
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for k in ctx.known:
        if k.get("mechanism") in ctx.known_hits:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if status == 1:
        path = os.path.join(ROOT, "evidence", "replay-%s.json" % pid)
        with open(path, "w") as fh:
            json.dump(
                dict(property=pid, tier=tier, seed=seed, command="python run.py %s --tier %s --seed %d" % (pid, tier, seed), violations=ctx.violations, counts=ctx.seen_viol),
                fh,
                indent=1,
            )
        for v in ctx.violations:
            print("  [%s] %s\n    witness: %s" % (v["mechanism"], v["message"], json.dumps(v["witness"])[:1500]))
        if msg:
            print(msg)
        print("VIOLATION property=%s replay=%s" % (pid, path))
    elif status:
        print(msg)
    else:
        print(
            "OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs"
            % (pid, tier, seed, ctx.evaluations, len(ctx.keys), time.time() - t0)
        )
    return status
