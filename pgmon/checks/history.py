"""Results do not depend on what ran before, on other threads, or on the process."""
import collections
import copy
import gc
import json
import os
import pickle
import random
import select
import signal
import subprocess
import sys
import tempfile
import threading
import time

from .. import core, gen, models, sut, workload
from ..reach import Reach


def arrays_of(spec, m, np):
    """Arrays handed out by the public interface of one model."""
    out = []
    if spec.kind == "gmm":
        out += [m.periods, m.spec_accels, m.ln_stds, m.interp_spec_accels(m.periods), m.interp_ln_stds([0.2, 0.5])]
    elif spec.kind == "ratio":
        out += [m.ratio, m.ln_std, m.interp_ratio([0.1, 1.0])]
    elif spec.kind == "eas":
        out += [m.freqs, m.eas, m.ln_eas, m.ln_std]
    elif spec.kind == "durvec":
        out += [m.duration, m.std_err]
    elif spec.kind == "as96":
        out += [m.interp([0.3, 0.8])]
    if hasattr(m, "adjust_c1"):
        out.append(m.adjust_c1)
    return out


def scribble(a, np):
    try:
        if getattr(a, "dtype", None) is not None and a.dtype.names:
            for n in a.dtype.names:
                a[n][...] = -7.5
        else:
            a[...] = -7.5
        return True
    except (TypeError, ValueError, IndexError):
        return False


def usable(ctx, jobs, live, base):
    """Jobs that complete (what they raise otherwise is judged by the checks of the values)."""
    ok = [j for j in jobs if live[j[0]] is not None and not base[j[0]].startswith("raised")]
    ctx.count("jobs_raising", len(jobs) - len(ok))
    ctx.require(len(ok) > len(jobs) * 0.7, "too many jobs of the workload raise")
    return ok


def forked(fn, timeout=300):
    """What fn() returns in a child forked from the present state of the package (None if it did not finish)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                d = pickle.dumps(fn())
            except BaseException as e:
                d = pickle.dumps("raised " + type(e).__name__)
            with os.fdopen(w, "wb") as fh:
                fh.write(d)
        finally:
            os._exit(0)
    os.close(w)
    d, end = b"", time.monotonic() + timeout
    with os.fdopen(r, "rb", 0) as fh:
        while True:
            if not select.select([fh], [], [], max(0, end - time.monotonic()))[0]:
                os.kill(pid, signal.SIGKILL)
                break
            more = fh.read(1 << 16)
            if not more:
                break
            d += more
    os.waitpid(pid, 0)
    try:
        return pickle.loads(d)
    except Exception:
        return None


def pristine(thunks):
    """Results of the thunks, each in a child forked from the present (unused) state of the package."""
    return [forked(fn) for fn in thunks]


def relatives(spec, s, rng):
    """The scenario, and the scenario with one of the choices or unset inputs changed and every number kept."""
    out = [s]
    for _ in range(3):
        ps = [p for p in spec.params if p.cat or not p.req]
        t = dict(s)
        for p in rng.sample(ps, min(len(ps), rng.choice([1, 1, 2]))):
            opts = [v for v in p.options if v != t[p.name]] if p.cat else []
            if opts:
                t[p.name] = rng.choice(opts)
            elif not p.req and not p.cat and spec.fix is None:
                t[p.name] = None
        gen.domain(spec, t)
        if spec.fix:
            spec.fix(t, rng)
        if t not in out:
            out.append(t)
    return out


def instances(ctx, np):
    """One instance asked many things in a row reports each time what a new instance reports."""
    rng = ctx.rng
    for name in models.ORDER:
        spec = models.SPECS[name]
        for _ in range(ctx.n(2, 20)):
            s, o = gen.scenario(spec, rng, "limits", rng.random()), sut.ctor_options(spec, rng)
            make = lambda: sut.build(spec, s, "scenario", o)
            try:
                m = make()
            except Exception:
                continue  # judged by the checks of the values
            ops = workload.operations(spec, rng, np, 6, True)
            want = [fn(make()) for _, fn in ops]
            done = []
            i = 0
            for _ in range(rng.randint(5, 25)):
                # often its twin, which lies next to it
                i = rng.choice([max(i - 1, 0), min(i + 1, len(ops) - 1)]) if rng.random() < 0.4 else rng.randrange(len(ops))
                got = ops[i][1](m)
                done.append(ops[i][0])
                ctx.case((name, "instance", gen.key(s), tuple(done)))
                ctx.count("instance_operations")
                if got != want[i]:
                    ctx.violation(name + "/instance", "%s gives another result than on a new instance" % ops[i][0], dict(model=name, inputs=gen.clean(s), operations=done))
                    break


def orders(ctx, np, jobs, fjobs):
    """Long series of fresh evaluations, many of them relatives of each other, give the same values in any order."""
    rng = ctx.rng
    todo = []
    names = models.ORDER if ctx.thorough else rng.sample(models.ORDER, 12)
    for name in names:
        sp = models.SPECS[name]
        series = []
        for _ in range(rng.choice([30, 90, 180]) if not ctx.thorough else rng.choice([90, 400])):
            s = gen.scenario(sp, rng, "limits", rng.choice([0.3, 0.8]))
            o = sut.ctor_options(sp, rng)
            near = relatives(sp, s, rng)
            for t in rng.sample(near, min(len(near), 2)) if rng.random() < 0.8 else [s]:
                series.append((t, lambda sp=sp, t=t, o=o: workload.observe_all(sp, t, o, np)[1]))
        todo.append((name, series))
    kinds = {}
    for k, fn in fjobs:
        kinds.setdefault(k.split("/")[0], []).append((k, fn))
    for kind, fs in sorted(kinds.items()):
        series = []
        for _ in range(rng.choice([60, 150, 600])):
            k, fn = rng.choice(fs)
            seed = rng.random()
            for other in rng.sample([False, True], 2) if rng.random() < 0.8 else [rng.random() < 0.5]:
                series.append(((k, seed, other), lambda fn=fn, seed=seed, other=other: fn(random.Random(seed), other)))
        todo.append((kind, series))
    for name, series in todo:
        n = len(series)
        ways = [list(range(n)), rng.choice([list(range(n))[::-1], rng.sample(range(n), n)])]
        got = []
        for way in ways:
            d = forked(lambda: [series[i][1]() for i in way])
            if not isinstance(d, list):
                ctx.violation(name + "/series", "a series of evaluations did not complete: %s" % d, dict(name=name))
                break
            got.append({i: x for i, x in zip(way, d)})
            ctx.count("evaluations_in_series", n)
        for i in range(n):
            ctx.case((name, "series", i, rng.random()))
            ds = [g[i] for g in got]
            if len(set(ds)) > 1:
                ctx.violation(name + "/order", "the value depends on the order of the evaluations of a series of %d" % n, dict(name=name, evaluation=series[i][0]))


def nudged(spec, s, rng):
    """The same inputs, each of them up to rounding."""
    t = dict(s)
    for p in spec.params:
        v = t.get(p.name)
        if not p.cat and isinstance(v, (int, float)) and rng.random() < 0.7:
            t[p.name] = float(v) * (1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-9, -2.5))
    gen.domain(spec, t)
    return t


def history(ctx):
    """A construction reports bit for bit the same values whatever was evaluated, edited or failed before."""
    import numpy as np
    import pygmm

    rng = ctx.rng
    ctx.rule = (
        "a fixed set of constructions and function calls covering every model is evaluated first in forked children of the unused package, "
        "then again after random histories: other scenarios (some equal up to rounding) and options, failed constructions and calls, overwritten returned arrays, edited scenarios, pickle/deepcopy, estimator and "
        "correlation calls, interpolation; live instances are read again as well. Distinct by job and preceding history"
    )
    jobs = workload.model_jobs(ctx.seed, ctx.n(6, 12))
    fjobs = workload.function_jobs(ctx.seed, np)
    refused = workload.failing_jobs(ctx.seed, np)
    base, live = {}, {}
    with Reach() as reach:
        first = [(k, lambda sp=sp, s=s, o=o: workload.observe_all(sp, s, o, np)[1]) for k, sp, s, o in jobs] + list(fjobs)
        for (k, _), d in zip(first, pristine([fn for _, fn in first])):
            base[k] = d
            ctx.count("pristine_evaluations")
        orders(ctx, np, jobs, fjobs)
        for k, sp, s, o in jobs:
            for _ in range(2):  # neighbours first: they must leave no trace
                t = nudged(sp, s, rng) if rng.random() < 0.7 else gen.neighbour(sp, s, rng, "limits")
                workload.observe_all(sp, t, o, np)
            live[k], d = workload.observe_all(sp, s, o, np)
            ctx.case((k, "neighbours"))
            if d != base[k]:
                ctx.violation(sp.name + "/history", "other values than in an unused process after evaluating a scenario close by", dict(model=sp.name, inputs=gen.clean(s), other=gen.clean(t), options=o))
        for k, fn in fjobs:
            ctx.case((k, "first"))
            fn(rng)  # arguments close by
            if fn() != base[k]:
                ctx.violation(k.split("/")[0] + "/history", "%s returns other values than in an unused process" % k, {})
        jobs = usable(ctx, jobs, live, base)
        byname = {}
        for j in jobs:
            byname.setdefault(j[1].name, []).append(j)

        def perturb():
            """One random operation; returns its description."""
            sp = models.SPECS[rng.choice(models.ORDER)]
            op = rng.choice(["refused", "nudge", "nudge", "build", "build", "fail", "scribble", "scribble", "scenario", "pickle", "deepcopy", "function", "interp", "same", "garbage"])
            cls = sp.load()
            try:
                if op == "build":
                    s = gen.scenario(sp, rng, "mix", rng.random())
                    workload.observe_all(sp, s, sut.ctor_options(sp, rng), np)
                elif op == "nudge":
                    k, sp, s, o = rng.choice(byname[sp.name])
                    workload.observe_all(sp, nudged(sp, s, rng), o, np)
                elif op == "fail":
                    s = gen.clean(gen.scenario(sp, rng, "mix"))
                    s.pop(rng.choice(sorted(s)))
                    if rng.random() < 0.3:
                        s["not_an_input"] = 1
                    cls(dict(s))
                elif op == "refused":
                    k, fn = rng.choice(refused)
                    op = k
                    fn()
                elif op == "scribble":
                    s = gen.scenario(sp, rng, "limits", rng.random())
                    m = sut.build(sp, s, "scenario", None, cls)
                    ctx.count("arrays_overwritten", sum(scribble(a, np) for a in arrays_of(sp, m, np)))
                elif op == "scenario":
                    k, sp, s, o = rng.choice(byname[sp.name])
                    sc = sut.scen(s)
                    m = cls(sc, **o)
                    for key in list(sc):
                        sc[key] = None
                    for key in list(m.scenario):
                        m.scenario[key] = rng.choice([None, 1.0, "x"])
                elif op in ("pickle", "deepcopy"):
                    k = rng.choice(byname[sp.name])[0]
                    m = live[k]
                    c = pickle.loads(pickle.dumps(m)) if op == "pickle" else copy.deepcopy(m)
                    ctx.case((k, op, ctx.evaluations))
                    if workload.read(sp, c, np) != base[k]:
                        ctx.violation(sp.name + "/" + op, "a %s of the model reports other values" % op, dict(job=k, inputs=gen.clean(rng.choice(byname[sp.name])[2])))
                    for a in arrays_of(sp, c, np):
                        scribble(a, np)
                elif op == "function":
                    k, fn = rng.choice(fjobs)
                    fn(rng if rng.random() < 0.5 else None)
                    op = k
                elif op == "interp":
                    k = rng.choice(byname[sp.name])[0]
                    if sp.kind == "gmm":
                        live[k].interp_spec_accels([0.01, 0.3, 99.0], rng.choice(["linear", "cubic", "nearest"]))
                elif op == "same":
                    k, sp, s, o = rng.choice(byname[sp.name])
                    m, _ = workload.observe_all(sp, s, o, np)
                    for a in arrays_of(sp, m, np):
                        scribble(a, np)
                elif op == "garbage":
                    gc.collect()
            except Exception as e:
                ctx.count("operations_raising")
                return "%s %s: %s" % (op, sp.name, type(e).__name__)
            return "%s %s" % (op, sp.name)

        instances(ctx, np)
        for rnd in range(ctx.n(30, 400)):
            hist = []
            for _ in range(rng.randint(1, 25)):
                hist.append(perturb())
                ctx.count("history_operations")
            sample = rng.sample(jobs, min(len(jobs), 40)) if rnd % 10 else jobs
            for k, sp, s, o in sample:
                wit = dict(model=sp.name, inputs=gen.clean(s), options=o, history=hist[-25:])
                ctx.case((k, rnd), sample=dict(model=sp.name, history=hist[:4]))
                try:
                    m, d = workload.observe_all(sp, s, o, np)
                except Exception as e:
                    d = repr(e)
                if d != base[k]:
                    ctx.violation(sp.name + "/history", "the same construction reports other values after other operations", wit)
                if workload.read(sp, live[k], np) != base[k]:
                    ctx.violation(sp.name + "/live", "a live model reports other values after other operations", wit)
            for k, fn in rng.sample(fjobs, 20):
                ctx.case((k, rnd))
                try:
                    if fn() != base[k]:
                        ctx.violation(k.split("/")[0] + "/history", "%s returns other values after other operations" % k, dict(history=hist[-25:]))
                except Exception as e:
                    ctx.violation(k.split("/")[0] + "/raised", "%r" % e, dict(history=hist[-25:]))
    ctx.counters["reach"] = reach.report()
    ctx.require(ctx.counters.get("arrays_overwritten", 0) > 30 and ctx.counters.get("operations_raising", 0) > 0, "hostile operations did not run")


class Switcher:
    """Gives up the interpreter at random lines of the package and records the thread switches seen inside it."""

    TOOL = 4

    def __init__(self, p, seed, src=core.SRC):
        # the mapping behind Scenario lives in collections
        self.prefix = (os.path.join(src, "pygmm") + os.sep, collections.__file__)
        self.p, self.rng = p, random.Random(seed)
        self.last = (None, None)
        self.switches = set()
        self.events = self.yields = self.nswitch = 0
        self.on = False

    def _line(self, code, line):
        if not code.co_filename.startswith(self.prefix):
            return sys.monitoring.DISABLE
        me = threading.get_ident()
        here = (code.co_name, line)
        self.events += 1
        who, where = self.last
        if who is not None and who != me:
            self.nswitch += 1
            if len(self.switches) < 200000:
                self.switches.add((where, here))
        self.last = (me, here)
        if self.rng.random() < self.p:
            self.yields += 1
            time.sleep(0 if self.rng.random() < 0.9 else 0.0002)

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "pgmon-switch")
        m.register_callback(self.TOOL, m.events.LINE, self._line)
        m.set_events(self.TOOL, m.events.LINE)
        self.old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        m.free_tool_id(self.TOOL)
        sys.setswitchinterval(self.old)


def in_threads(nthread, work, limit=300):
    """Run work(i) in n threads started together; returns the errors raised."""
    errs = []
    bar = threading.Barrier(nthread)

    def go(i):
        try:
            bar.wait(30)
            work(i)
        except Exception as e:
            errs.append("%s: %s" % (type(e).__name__, e))

    ts = [threading.Thread(target=go, args=(i,), daemon=True) for i in range(nthread)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(limit)
    if any(t.is_alive() for t in ts):
        errs.append("a thread did not finish")
    return errs


class Pause:
    """Runs a function in a thread that stops at chosen instructions of the package, where others run meanwhile."""

    TOOL = 3
    PREFIX = os.path.join(core.SRC, "pygmm") + os.sep
    active = {}
    lines = {}

    def __init__(self, fn, at=()):
        self.fn, self.at = fn, sorted(at)
        self.count, self.where, self.result = 0, [], None
        self.stopped, self.go = threading.Event(), threading.Event()
        self.thread = threading.Thread(target=self._run, daemon=True)
        m = sys.monitoring
        if m.get_tool(self.TOOL) is None:
            m.use_tool_id(self.TOOL, "pgmon-pause")
            m.register_callback(self.TOOL, m.events.INSTRUCTION, self._step)
            m.set_events(self.TOOL, m.events.INSTRUCTION)

    def _run(self):
        Pause.active[threading.get_ident()] = self
        try:
            self.result = self.fn()
        except BaseException as e:
            self.result = "raised %s: %s" % (type(e).__name__, e)
        finally:
            Pause.active.pop(threading.get_ident(), None)
            self.stopped.set()

    @classmethod
    def _step(cls, code, offset):
        if not code.co_filename.startswith(cls.PREFIX):
            return sys.monitoring.DISABLE
        self = cls.active.get(threading.get_ident())
        if self is None:
            return
        self.where.append((code, offset))
        if self.at and self.count == self.at[0]:
            self.at.pop(0)
            self.stopped.set()
            self.go.wait(20)
            self.go.clear()
        self.count += 1

    @classmethod
    def line(cls, code, offset):
        if code not in cls.lines:
            cls.lines[code] = [x for x in code.co_lines() if x[2] is not None]
        return code.co_name, next((n for a, b, n in cls.lines[code] if a <= offset < b), 0)

    def start(self):
        self.thread.start()
        self.stopped.wait(30)
        return self

    def resume(self):
        """To the next point, or the end."""
        self.stopped.clear()
        self.go.set()
        if self.at:
            self.stopped.wait(3)
        return self

    def finish(self):
        self.at.clear()
        self.go.set()
        self.thread.join(30)
        return self.result if not self.thread.is_alive() else "did not finish"

    @property
    def done(self):
        return not self.thread.is_alive()


def instructions(fn):
    """Where the instructions are that run only the first time, and how many there are at all."""
    a = Pause(fn).start()
    a.finish()
    b = Pause(fn).start()
    b.finish()
    again = collections.Counter(b.where)
    first = []
    for i, w in enumerate(a.where):
        if again[w] <= 0:
            first.append((i, Pause.line(*w)))
        else:
            again[w] -= 1
    return first, a.count, b.count


def preempted(ctx, first, base, bad, total):
    """One evaluation stopped at an instruction while others run, and continued; the first use and later."""
    rng = ctx.rng
    groups = {}
    for k, fn in first:
        groups.setdefault(k.split("#")[0].split("/")[0], []).append((k, fn))
    for g, (name, fs) in enumerate(sorted(groups.items())):
        if g % ctx.nshards != ctx.shard and not ctx.thorough:
            continue
        for rnd in range(ctx.n(1, 3)):
            a = rng.choice(fs)
            found = forked(lambda: instructions(a[1]), 120)
            if not isinstance(found, tuple):
                bad.append(("stopped-first-use", a[0], "no result: %s" % found))
                continue
            once, n1, n2 = found
            ctx.count("first_use_instructions", len(once))
            # a point on every line that runs only once, then anywhere
            lines = {}
            for i, w in once:
                lines.setdefault(w, []).append(i)
            points = [rng.choice(v) for v in lines.values()]
            rng.shuffle(points)
            points = points[: ctx.n(8, 40)] + [i for i, _ in rng.sample(once, min(len(once), ctx.n(4, 20)))] + [rng.randrange(max(n1, 1)) for _ in range(ctx.n(2, 10))]
            for i in points:
                bs = rng.sample(fs, min(len(fs), 6))
                two = rng.random() < 0.3

                def child():
                    p = Pause(a[1], [i]).start()
                    out = []
                    if two:  # the other one is stopped too, and finishes last
                        q = Pause(bs[0][1], [rng.randrange(i + 1)]).start()
                        one = p.finish()
                        return one, [q.finish()]
                    t = threading.Thread(target=lambda: [out.append(fn()) for _, fn in bs], daemon=True)
                    t.start()
                    t.join(2)  # waits for the first one where that holds a lock
                    one = p.finish()
                    t.join(60)
                    return one, out

                res = forked(child, 120)
                if not isinstance(res, tuple):
                    bad.append(("stopped-first-use", a[0], "no result: %s" % res))
                    continue
                ctx.count("first_uses_stopped_midway")
                total["yields"] += 1
                bs = bs[:1] if two else bs
                if len(res[1]) != len(bs):
                    bad.append(("stopped-first-use", name, "a thread did not finish"))
                for (k, _), d in zip([a] + bs, [res[0]] + res[1]):
                    ctx.case(("stopped-first-use", k, i, rnd, two))
                    if d != base[k]:
                        bad.append(("stopped-first-use", k, d if str(d).startswith(("raised", "did not")) else "other values"))


def midway(ctx, np, jobs, fjobs, bad, total):
    """One evaluation stopped at an instruction, a similar one run in another thread, and continued."""
    rng = ctx.rng
    groups = {}
    for k, sp, s, o in jobs:
        def fn(shift=None, sp=sp, s=s, o=o):
            return workload.observe_all(sp, s if shift is None else nudged(sp, s, shift), o, np)[1]

        groups.setdefault(sp.name, []).append((k, fn))
    for k, fn in fjobs:
        groups.setdefault(k.split("/")[0], []).append((k, fn))

    def trial(kind, k, a, want, other, expected, i):
        p = Pause(a, [i]).start()
        out = []
        t = threading.Thread(target=lambda: out.append(other()), daemon=True)
        t.start()
        t.join(2)
        one = p.finish()
        t.join(60)
        ctx.case((kind, k, i, rng.random()))
        ctx.count("evaluations_stopped_midway")
        total["yields"] += 1
        if one != want:
            bad.append((kind, k, one if str(one).startswith(("raised", "did not")) else "other values"))
        if out != [expected]:
            bad.append((kind, k, "other values in the thread that overtook it"))

    for name, fs in sorted(groups.items()):
        for _ in range(ctx.n(1, 6)):
            k, a = rng.choice(fs)
            want = a()
            probe = Pause(a).start()
            probe.finish()
            lines = {}
            for i, w in enumerate(probe.where):
                lines.setdefault(Pause.line(*w), []).append(i)
            if not lines:
                continue
            for i in [rng.choice(v) for v in rng.sample(list(lines.values()), min(len(lines), ctx.n(4, 20)))]:
                b, seed = (a, rng.random()) if rng.random() < 0.6 else (rng.choice(fs)[1], None)
                other = (lambda b=b, seed=seed: b() if seed is None else b(random.Random(seed)))
                trial("midway", k, a, want, other, other(), i)
    # one instance asked one thing in the middle of another
    for name in sorted({j[1].name for j in jobs}):
        k, sp, s, o = rng.choice([j for j in jobs if j[1].name == name])
        ops = workload.operations(sp, rng, np, 5)
        wants = [fn(sut.build(sp, s, "scenario", o)) for _, fn in ops]
        for _ in range(ctx.n(1, 6)):
            x = rng.randrange(len(ops))
            lines = {}
            probe = Pause(lambda: ops[x][1](sut.build(sp, s, "scenario", o))).start()
            probe.finish()
            fresh = Pause(lambda: sut.build(sp, s, "scenario", o)).start()
            fresh.finish()
            for i, w in enumerate(probe.where[fresh.count :]):
                lines.setdefault(Pause.line(*w), []).append(i)
            for i in [rng.choice(v) for v in rng.sample(list(lines.values()), min(len(lines), ctx.n(3, 12)))]:
                y = rng.randrange(len(ops))
                shared = sut.build(sp, s, "scenario", o)
                if rng.random() < 0.5:
                    ops[rng.randrange(len(ops))][1](shared)
                trial("midway-shared", "%s/%s" % (name, ops[x][0]), lambda: ops[x][1](shared), wants[x], lambda: ops[y][1](shared), wants[y], i)
    m = sys.monitoring
    if m.get_tool(Pause.TOOL) is not None:
        m.set_events(Pause.TOOL, 0)
        m.free_tool_id(Pause.TOOL)


def together(ctx, first, base, bad, total, seen):
    """First use of every model and function from several threads at once, each in a child of the unused package."""
    rng = ctx.rng
    groups = {}
    for k, fn in first:
        groups.setdefault(k.split("#")[0].split("/")[0], []).append((k, fn))
    for name, fs in sorted(groups.items()):
        for _ in range(ctx.n(1, 6)):
            plan = [[rng.choice(fs) for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(2, 6))]
            seed = rng.random()

            def child():
                out = [[] for _ in plan]

                def work(i):
                    for k, fn in plan[i]:
                        out[i].append(fn())

                with Switcher(random.Random(seed).choice([0.1, 0.4, 0.8]), seed) as sw:
                    errs = in_threads(len(plan), work, 60)
                return out, errs, dict(events=sw.events, yields=sw.yields, nswitch=sw.nswitch), sw.switches

            res = forked(child, 120)
            if not isinstance(res, tuple):
                bad.append(("first-use", name, "no result: %s" % res))
                continue
            out, errs, tot, sws = res
            for t in total:
                total[t] += tot[t]
            seen.update(sws)
            ctx.count("first_uses_from_threads")
            for e in errs:
                bad.append(("first-use", name, e))
            for p, o in zip(plan, out):
                for (k, _), d in zip(p, o):
                    ctx.case(("first-use", k, total["events"], rng.random()))
                    if d != base[k]:
                        bad.append(("first-use", k, d if d.startswith("raised") else "other values"))


def threads(ctx):
    """Concurrent use gives the serial results."""
    import numpy as np
    from pygmm import Scenario

    rng = ctx.rng
    ctx.rule = (
        "threads evaluating shuffled construction and function jobs, several threads working on the same model class at a time, "
        "reading shared instances, copying shared scenarios, with the interpreter given up at random lines of the package; every digest "
        "must be the serial one. Distinct by job, round and thread"
    )
    jobs = workload.model_jobs(ctx.seed, ctx.n(4, 8))
    fjobs = workload.function_jobs(ctx.seed, np)
    base, live = {}, {}
    nth = 6
    seen, total = set(), dict(events=0, yields=0, nswitch=0)
    bad = []
    first = [(k, lambda sp=sp, s=s, o=o: workload.observe_all(sp, s, o, np)[1]) for k, sp, s, o in jobs] + list(fjobs)
    base.update((k, d) for (k, _), d in zip(first, pristine([fn for _, fn in first])))
    together(ctx, first, base, bad, total, seen)
    preempted(ctx, first, base, bad, total)
    for k, sp, s, o in jobs:
        live[k], d = workload.observe_all(sp, s, o, np)
        if d != base[k]:
            bad.append(("serial", k, "other values than in an unused process"))
    jobs = usable(ctx, jobs, live, base)
    byname = {}
    for j in jobs:
        byname.setdefault(j[1].name, []).append(j)

    def run(kind, plan):
        """plan[i] = list of (key, thunk); all thunks return a digest."""

        def work(i):
            for k, fn in plan[i]:
                try:
                    d = fn()
                except Exception as e:
                    d = "raised %r" % e
                if d != base[k]:
                    bad.append((kind, k, d if d.startswith("raised") else "other values"))

        with Switcher(0.15, rng.random()) as sw:
            errs = in_threads(len(plan), work)
        for e in errs:
            bad.append((kind, "thread", e))
        for t in total:
            total[t] += getattr(sw, t)
        seen.update(sw.switches)
        for i, p in enumerate(plan):
            for k, _ in p:
                ctx.case((kind, k, i, total["events"]), sample=dict(kind=kind, job=k, thread=i))

    def thunk(j):
        k, sp, s, o = j
        return (k, lambda: workload.observe_all(sp, s, o, np)[1])

    def reader(j):
        k, sp, s, o = j
        return (k, lambda: workload.read(sp, live[k], np))

    for _ in range(ctx.n(1, 8)):
        # all threads on one class, different scenarios
        for name in models.ORDER:
            js = byname[name]
            plan = []
            for i in range(nth):
                p = [thunk(j) for j in js] + [reader(rng.choice(js))]
                rng.shuffle(p)
                plan.append(p)
            run("same-model", plan)
        # a mix of everything
        plan = []
        for i in range(nth):
            p = [thunk(j) for j in rng.sample(jobs, 12)] + rng.sample(fjobs, 12) + [reader(j) for j in rng.sample(jobs, 12)]
            rng.shuffle(p)
            plan.append(p)
        run("mixed", plan)
        # one stand-alone function at a time
        kinds = sorted({k.split("/")[0] for k, _ in fjobs})
        for kd in kinds:
            fs = [f for f in fjobs if f[0].startswith(kd + "/")]
            run("same-function", [[rng.choice(fs) for _ in range(4)] for _ in range(4)])
        # one instance asked different things
        for name in models.ORDER:
            k, sp, s, o = rng.choice(byname[name])
            ops = workload.operations(sp, rng, np, 5)
            shared = sut.build(sp, s, "scenario", o)
            js = []
            for i, (n, fn) in enumerate(ops):
                key = "%s/%s/%d/%r" % (name, n, i, rng.random())
                base[key] = fn(sut.build(sp, s, "scenario", o))
                js.append((key, lambda fn=fn: fn(shared)))
            run("shared-instance", [[rng.choice(js) for _ in range(10)] for _ in range(4)])
        # a scenario shared by threads constructing models and copies from it
        for name in rng.sample(models.ORDER, 5):
            k, sp, s, o = rng.choice(byname[name])
            sc = Scenario(**gen.clean(s))
            cls = sp.load()
            snap = dict(sc)
            run("shared-scenario", [[(k, lambda: workload.read(sp, cls(sc.copy_with(mag=s["mag"])), np) if not o else base[k])] * 3 + [(k, lambda: workload.read(sp, cls(sc.copy(), **o), np))] * 2 + [(k, lambda: workload.read(sp, cls(sc, **o), np))] * 3 for _ in range(4)])
            if dict(sc) != snap:
                bad.append(("shared-scenario", name, "the shared scenario was modified"))
    # operations on one scenario that do not change it
    for rnd in range(ctx.n(2, 12)):
        k, sp, s, o = rng.choice(jobs)
        want = gen.clean(s)
        sc = Scenario(**want)
        name = next(iter(want))
        other = dict(want, **{name: want[name]})
        ops = [
            ("get", lambda: {q: sc.get(q) for q in want}), ("dict", lambda: dict(sc)), ("attr", lambda: {q: getattr(sc, q) for q in want}),
            ("copy", lambda: dict(sc.copy())), ("copy_with", lambda: dict(sc.copy_with(**{name: want[name]}))), ("copy.copy", lambda: dict(copy.copy(sc))),
            ("deepcopy", lambda: dict(copy.deepcopy(sc))), ("pickle", lambda: dict(pickle.loads(pickle.dumps(sc)))), ("len", lambda: other if len(sc) == len(want) and name in sc else {}),
        ]

        def work(i):
            r = random.Random(i)
            for _ in range(25):
                n, op = r.choice(ops)
                try:
                    ok = op() == want
                except Exception as e:
                    ok = "raised %r" % e
                if ok is not True:
                    bad.append(("scenario-operations", n, ok if ok else "other inputs"))

        with Switcher(0.3, rng.random()) as sw:
            for e in in_threads(nth, work):
                bad.append(("scenario-operations", "thread", e))
        for t in total:
            total[t] += getattr(sw, t)
        seen.update(sw.switches)
        ctx.case(("scenario-operations", rnd))
    midway(ctx, np, jobs, fjobs, bad, total)
    hermkes_lazy(ctx, np, bad, total, seen)
    for kind, k, what in bad:
        ctx.violation("%s/%s" % (kind, k.split("#")[0].split("/")[0]), "concurrent evaluation of %s gave %s" % (k, what), dict(kind=kind, job=k))
    ctx.counters.update(line_events=total["events"], injected_yields=total["yields"], thread_switches_inside_pygmm=total["nswitch"], distinct_switch_points=seen)
    ctx.require(total["nswitch"] > 500 and len(seen) > 200, "hardly any thread switch was observed inside the package")


def hermkes_lazy(ctx, np, bad, total, seen):
    """First use of the lazily loaded HKR14 data from several threads at once."""
    from . import hermkes

    rng = ctx.rng
    for rnd in range(ctx.n(3, 20)):
        with hermkes.standin(np, rng, 60) as (mod, events, preds):
            cls = mod.HermkesKuehnRiggelsen2014
            q = [hermkes.query(rng, events) for _ in range(6)]
            want = [hermkes.predict(x, events, preds) for x in q]

            def work(i):
                for s, (w, d1, d2) in list(zip(q, want))[i % 3 :]:
                    if d2 - d1 < 1e-6:
                        continue
                    m = cls(hermkes.scen(s))
                    got = np.r_[np.log(m.pgv), np.log(m.spec_accels)]
                    if not np.allclose(got, w[0::2], atol=1e-6):
                        bad.append(("hermkes-first-use", "HKR14", "other values"))

            with Switcher(0.3, rng.random(), os.path.dirname(os.path.dirname(mod.__file__))) as sw:
                for e in in_threads(6, work):
                    bad.append(("hermkes-first-use", "HKR14", e))
            for t in total:
                total[t] += getattr(sw, t)
            seen.update(sw.switches)
            ctx.case(("hermkes", rnd))
            ctx.count("hermkes_first_uses")


def processes(ctx):
    """The same evaluation gives the same numbers in every process, import order and environment."""
    import numpy as np

    rng = ctx.rng
    ctx.rule = (
        "the workload of the history monitor evaluated in fresh interpreters with other hash seeds, import orders, evaluation orders, "
        "optimisation levels, locales, working directories (also with files named as the package's data), clocks, numbers of processors, "
        "other modules and arguments and bare environments, and with a single model per process; "
        "every digest must equal this process's. Distinct by configuration and job"
    )
    n = ctx.n(8, 14)
    base, made = {}, {}
    for k, sp, s, o in workload.model_jobs(ctx.seed, n):
        m, base[k] = workload.observe_all(sp, s, o, np)
        if m is not None:
            made[k] = pickle.dumps(m, rng.choice([2, 4, 5]))
    for k, fn in workload.function_jobs(ctx.seed, np) + workload.interface_jobs(ctx.seed, np):
        base[k] = fn()
    expected = set(base)
    base.update({"unpickled " + k: base[k] for k in made})
    mods = ["pygmm." + models.SPECS[m].module for m in models.ORDER]
    confs = []
    for i in range(ctx.n(14, 40)):
        imp = rng.sample(mods, rng.randint(0, len(mods)))
        confs.append(dict(order=rng.choice(["reverse", rng.randrange(1, 10**6)]), imports=imp, flags=rng.choice([[], ["-O"], ["-OO"], ["-X", "utf8=0"]]),
                          env=rng.choice([{}, {"LC_ALL": "C"}, {"TZ": "Asia/Tokyo"}, {"HOME": "/nonexistent"}, {"PYTHONDEVMODE": "1"}, {"LANG": "tr_TR.UTF-8", "LC_NUMERIC": "de_DE.UTF-8"}, {"PYTHONWARNINGS": "always"}, {"COLUMNS": "20"}])))
    odd = [
        dict(clock=rng.choice([-9e8, 1.2e9])), dict(clock=rng.choice([86400.0 * rng.randint(1, 365), 3.2e8])), dict(processors=1), dict(processors=64),
        dict(modules=["pytest", "unittest", "doctest", "multiprocessing", "asyncio", "pandas", "matplotlib", "scipy.interpolate"]), dict(arguments=["--verbose", "--debug", "-v"]),
        dict(depth=10**5),
    ]
    for o in odd:
        confs.append(dict(order=rng.choice([None, "reverse", rng.randrange(1, 10**6)]), imports=rng.sample(mods, rng.randint(0, 3)), flags=[], env={}, strange=o))
    for c in rng.sample(confs, 5):
        c["decoys"] = True
    for name in rng.sample(models.ORDER, ctx.n(12, len(models.ORDER))):
        confs.append(dict(only=name + "#", imports=["pygmm." + models.SPECS[name].module], flags=[], env={}))
    for i, c in enumerate(confs[: ctx.n(6, 16)]):
        c["pickles"] = True
        if i % 2:
            c["order"], c["imports"] = "reverse", []
    child = os.path.join(core.ROOT, "pgmon", "child.py")

    with tempfile.TemporaryDirectory(prefix="pgmon-") as tmp:
        path = os.path.join(tmp, "made.pickle")
        with open(path, "wb") as fh:
            pickle.dump(made, fh)

        # a working directory and home with files of the names the package keeps its data under
        decoy = os.path.join(tmp, "decoy")
        for d, _, files in os.walk(os.path.join(core.SRC, "pygmm")):
            for f in files:
                if f.endswith((".py", ".pyc")):
                    continue
                rel = os.path.relpath(os.path.join(d, f), core.SRC)
                homes = [os.path.join(h, "pygmm") for h in (".config", ".cache", os.path.join(".local", "share"))] + [".pygmm"]
                for q in [rel, os.path.relpath(rel, "pygmm"), f] + [os.path.join(h, x) for h in homes for x in (f, os.path.join("data", f))]:
                    os.makedirs(os.path.dirname(os.path.join(decoy, q)), exist_ok=True)
                    with open(os.path.join(decoy, q), "w") as fh:
                        fh.write("decoy\n")
        for q in (".pygmmrc", "pygmm.json", "pygmm.cfg", "pygmm.ini", "pygmm.toml", os.path.join(".config", "pygmm", "config")):
            os.makedirs(os.path.dirname(os.path.join(decoy, q)), exist_ok=True)
            with open(os.path.join(decoy, q), "w") as fh:
                fh.write("decoy\n")

        def launch(i, c):
            env = {"PATH": os.environ.get("PATH", ""), "PYTHONHASHSEED": str(rng.randrange(1, 4294967295)), "OMP_NUM_THREADS": "1",
                   "OPENBLAS_NUM_THREADS": "1", "PYGMM_REPO": core.REPO, "PYTHONDONTWRITEBYTECODE": "1"}
            if c.get("decoys"):
                env["HOME"] = decoy
            env.update(c["env"])
            cfg = dict(seed=ctx.seed, n=n, strange=c.get("strange"), order=c.get("order"), imports=c["imports"], only=c.get("only"), pickles=c.get("pickles") and path)
            out = open(os.path.join(tmp, "%d.out" % i), "w+")
            return out, subprocess.Popen([sys.executable, "-s", "-P"] + c["flags"] + [child, json.dumps(cfg)], cwd=decoy if c.get("decoys") else tmp, env=env, stdout=out, stderr=subprocess.STDOUT)

        pending = list(enumerate(confs))
        running, asked = [], set()
        while pending or running:
            while pending and len(running) < 8:
                i, c = pending.pop(0)
                running.append((c,) + launch(i, c))
            c, out, p = running.pop(0)
            try:
                p.wait(240)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            out.seek(0)
            text = out.read()
            out.close()
            for x in text.splitlines():
                if x.startswith("READ "):
                    for key in sorted(set(json.loads(x[5:])) - asked):
                        if len(asked) >= 12:
                            break
                        # the package looks at the environment: it must not matter what is there
                        asked.add(key)
                        ctx.count("variables_read")
                        for v in ("1", "0", "", "x", "/nonexistent"):
                            k = len(confs)
                            confs.append(dict(order=None, imports=[], flags=[], env={key: v}))
                            pending.append((k, confs[-1]))
            lines = [x for x in text.splitlines() if x.startswith("DIGESTS ")]
            conf = {k: v for k, v in c.items()}
            if not lines:
                ctx.count("process_without_result")
                ctx.violation("process/no-result", "a fresh process did not complete: %s" % text[-300:], conf)
                continue
            got = json.loads(lines[-1][8:])
            ctx.count("processes")
            for k, d in got.items():
                ctx.case((json.dumps(conf, sort_keys=True), k), sample=dict(configuration=conf, job=k))
                if d != base.get(k):
                    ctx.violation("process/" + k.split(" ")[-1].split("#")[0].split("/")[0], "%s differs in a fresh process%s" % (k, ": " + d if d.startswith("raised") else ""), dict(configuration=conf, job=k))
            ctx.count("models_read_in_another_process", sum(k.startswith("unpickled ") for k in got))
            want = set(base) - expected if c.get("pickles") and c.get("order") == "reverse" else set(base) if c.get("pickles") else expected
            if not c.get("only") and set(got) != want:
                ctx.violation("process/jobs", "jobs missing: %s" % sorted(want ^ set(got))[:5], conf)
    ctx.require(ctx.counters.get("processes", 0) >= 6, "too few processes completed")
