"""Evaluations stopped at any line, or run in the middle of another one, leave everything else as it is."""
import ast
import importlib
import os
import pickle
import random
import select
import signal
import sys
import time

from .. import core, gen, models, sut, workload
from ..effects_child import snapshot
from . import hermkes

SILENT = 100  # seconds without a word from a worker: it hangs


class Stop(BaseException):
    """Something the package knows nothing about."""


STOPS = (KeyboardInterrupt, MemoryError, Stop, SystemExit)


def guarded(path, cache={}):
    """Lines where Python itself would lose an exception arriving there: heads of with and try statements, their handlers and clean-up."""
    if path not in cache:
        out = set()
        try:
            with open(path, encoding="utf-8") as fh:
                tree = ast.parse(fh.read())
        except (OSError, SyntaxError):
            tree = ast.Module([], [])
        for n in ast.walk(tree):
            if isinstance(n, ast.With):
                out.update(range(n.lineno, n.items[-1].context_expr.end_lineno + 1))
            elif isinstance(n, ast.Try):
                out.add(n.lineno)
                for b in [x for h in n.handlers for x in h.body] + n.finalbody + n.handlers:
                    out.update(range(b.lineno, b.end_lineno + 1))
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)):
                out.update(range(n.lineno, n.end_lineno + 1))  # body of a context manager
        cache[path] = out
    return cache[path]


class Lines:
    """Calls `at(event number)` at every line of the package that is executed while active."""

    TOOL = 5

    src = core.SRC

    def __init__(self, at=None):
        self.prefix = os.path.join(self.src, "pygmm") + os.sep
        self.at, self.n, self.busy = at, 0, False
        self.trace = []

    def _line(self, code, line):
        if not code.co_filename.startswith(self.prefix):
            return sys.monitoring.DISABLE
        if self.busy or line in guarded(code.co_filename):
            return
        k = self.n
        self.n += 1
        if self.at is None:
            self.trace.append((code.co_filename[len(self.prefix) :], line))
            return
        self.busy = True
        try:
            self.at(k, code, line)
        finally:
            self.busy = False

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "pgmon-lines")
        m.register_callback(self.TOOL, m.events.LINE, self._line)
        m.set_events(self.TOOL, m.events.LINE)
        m.restart_events()
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        m.free_tool_id(self.TOOL)


def lines_of(fn):
    """Lines of the package executed by fn, in order."""
    with Lines() as ln:
        d = fn()
    return d, ln.trace


def moment(rng, trace):
    """A point of the execution: any event, or an event of a line drawn evenly from those executed."""
    if rng.random() < 0.4:
        return rng.randrange(len(trace))
    at = {}
    for i, s in enumerate(trace):
        at.setdefault(s, []).append(i)
    evs = at[rng.choice(sorted(at))]
    return rng.choice([evs[0], evs[-1], rng.choice(evs)])


def stopped(fn, k, exc):
    """Run fn with exc raised at event k; whether that happened."""
    hit = []

    def at(n, code, line):
        if n == k:
            hit.append(1)
            raise exc("stopped by the monitor")

    try:
        with Lines(at):
            fn()
    except BaseException as e:
        if "stopped by the monitor" not in str(e) and hit:
            return None
    return bool(hit)


def nested(fn, k, other):
    """Run fn with other() run at event k; digests of both."""
    got = []

    def at(n, code, line):
        if n == k:
            got.append(other())

    try:
        with Lines(at):
            d = fn()
    except Exception as e:
        d = "raised " + type(e).__name__
    return d, got[0] if got else None


def worker(ctx, op):
    """Run the generator function op(say) in a forked child; yields what it says, or ("silent", last) when it hangs or dies."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, "wb") as fh:

                def say(*x):
                    pickle.dump(x, fh)
                    fh.flush()

                op(say)
                say("end")
            code = 0
        except BaseException:
            import traceback

            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    last = None
    buf = b""
    try:
        while True:
            ready, _, _ = select.select([r], [], [], SILENT)
            if not ready:
                yield "silent", last
                return
            data = os.read(r, 1 << 16)
            if not data:
                yield "silent", last
                return
            buf += data
            while buf:
                import io

                fh = io.BytesIO(buf)
                try:
                    x = pickle.load(fh)
                except (EOFError, pickle.UnpicklingError):
                    break
                buf = buf[fh.tell() :]
                if x == ("end",):
                    return
                if x[0] == "begin":
                    last = x[1]
                yield x
    finally:
        os.close(r)
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)


def mend():
    """Forget the package, as if it had not been imported."""
    for k in [k for k in sys.modules if k == "pygmm" or k.startswith("pygmm.")]:
        del sys.modules[k]


def same(a, b):
    return [k for k in a if a[k] != b.get(k)]


def frozen(x, np):
    """A value to compare objects by."""
    if isinstance(x, np.ndarray):
        return workload._h(np, np.ma.getdata(x), np.ma.getmaskarray(x))
    if hasattr(x, "copy_with"):
        return repr(sorted(dict(x).items()))
    return repr([frozen(v, np) for v in x]) if isinstance(x, tuple) else repr(x)


def owned(rng, np):
    """(name, call, the caller's objects in it, another call of the same kind)."""
    import copy

    import pygmm
    from pygmm.baker_jayaram_2008 import calc_cond_mean_spectrum, calc_correls
    from pygmm.kishida_2017 import calc_cond_mean_spectrum_vector

    spec = models.SPECS[rng.choice(models.ORDER)]
    sc, s2 = (sut.scen(gen.clean(gen.scenario(spec, rng, "limits", rng.random()))) for _ in range(2))
    new = {k: rng.choice([1.0, None, rng.uniform(0, 9)]) for k in rng.sample(["mag", "dist_rup", "v_s30", "depth_tor", "dist_x", "width"], rng.randint(1, 4))}
    form = rng.choice([list, np.array])
    n = rng.randint(2, 9)
    T = sorted({round(10 ** rng.uniform(-2, 1), 4) for _ in range(n)})
    vals = lambda lo, hi: form([rng.uniform(lo, hi) for _ in T])
    a, b, c, d = form(T), vals(-4, 0), vals(0.3, 0.9), vals(-4, 0)
    tgt = np.ma.array([rng.uniform(-4, 0) for _ in T], mask=[i > 0 and rng.random() < 0.6 for i in range(len(T))])
    A, S, B = pygmm.AbrahamsonSilva1996, pygmm.Stafford2017, pygmm.BaylessAbrahamson2018
    sa = models.SPECS["AS96"]
    m = A(sut.scen(gen.clean(gen.scenario(sa, rng, "limits"))))
    ia, ns = form([rng.uniform(0.1, 0.95) for _ in T]), form([-1.0, 0.0, 2.0])
    f = vals(0.2, 20)
    live = sut.build(spec, dict(sc))
    ops = workload.operations(spec, rng, np, 2)
    return 3 * [("%s.%s" % (spec.name, ops[0][0]), lambda: ops[0][1](live), [], lambda: ops[-1][1](live))] + [
        ("Scenario.copy_with", lambda: sc.copy_with(**new), [sc], lambda: sc.copy_with(mag=2.0, dist_jb=3.0)),
        ("Scenario.copy", lambda: sc.copy(), [sc], lambda: sc.copy()),
        ("Scenario.union", lambda: sc | s2, [sc, s2], lambda: sc | new),
        ("Scenario.deepcopy", lambda: copy.deepcopy(sc), [sc], lambda: copy.copy(sc)),
        ("Scenario.pickle", lambda: pickle.loads(pickle.dumps(sc)), [sc], lambda: sc.copy_with(mag=1.0)),
        ("Scenario.attributes", lambda: [getattr(sc, k, None) for k in sc.KNOWN_KEYS] + [repr(sc)], [sc], lambda: sc.copy_with(**new)),
        ("calc_correls", lambda: calc_correls(a, 0.3), [a], lambda: calc_correls(a, 1.0)),
        ("calc_cond_mean_spectrum", lambda: calc_cond_mean_spectrum(a, b, c, T[0], -1.0), [a, b, c], lambda: calc_cond_mean_spectrum(a, d, c, 0.3, -2.0)),
        ("calc_cond_mean_spectrum_vector", lambda: calc_cond_mean_spectrum_vector(a, b, c, tgt), [a, b, c, tgt], lambda: calc_cond_mean_spectrum_vector(a, d, c, tgt)),
        ("AS96.interp", lambda: m.interp(ia, ns), [ia, ns], lambda: m.interp(ns[:0] if form is list else ia, ns)),
        ("Stafford.cov", lambda: S.cov(f, c, c, c), [f, c], lambda: S.cor(f)),
        ("BA18.cov", lambda: B.cov(f, std=c), [f, c], lambda: B.corr(f)),
    ]


def interrupt(ctx):
    """Evaluations can be stopped or nested at any line."""
    import numpy as np

    rng = ctx.rng
    ctx.rule = (
        "constructions with reads of every value, reads of live models, and function calls, executed with an exception (KeyboardInterrupt, MemoryError, SystemExit, unknown) "
        "raised at one executed line of the package, or with another evaluation run at that line as a signal handler would; in children of the unused package (first use) and in used ones, "
        "and during the import. Afterwards the same and other evaluations must report the values of an undisturbed process, process-wide state and the caller's scenario are compared. "
        "Distinct by evaluation, line and kind"
    )
    jobs = {}
    for k, sp, s, o in workload.model_jobs(ctx.seed, ctx.n(1, 3)):
        jobs[k] = (sp, lambda sp=sp, s=s, o=o: workload.observe_all(sp, s, o, np)[1], (s, o))
    for k, fn in workload.function_jobs(ctx.seed, np):
        jobs[k] = (None, fn, None)
    refused = dict(workload.failing_jobs(ctx.seed, np))
    base, traces = {}, {}

    # values and lines of each evaluation in an unused process
    for k, (sp, fn, _) in jobs.items():
        for x in worker(ctx, lambda say: say("is", *lines_of(fn))):
            if x[0] == "is":
                base[k], traces[k] = x[1], x[2]
    keys = [k for k in jobs if k in base and base[k] is not None and not base[k].startswith("raised") and traces[k]]
    ctx.count("evaluations_that_raise", len(jobs) - len(keys))
    ctx.require(len(keys) > 0.7 * len(jobs), "too many evaluations of the workload raise")
    group = {}
    for k in keys:
        group.setdefault(k.split("#")[0].split("/")[0], []).append(k)
    sites = set()

    def follow(rng, k):
        """Evaluations looked at afterwards: the same one, others of the model, any."""
        g = k.split("#")[0].split("/")[0]
        ks = [k] + rng.sample(group[g], min(2, len(group[g]))) + rng.sample(keys, 1)
        rng.shuffle(ks)
        return ks

    def stop_op(say, rng, k, first):
        sp, fn, si = jobs[k]
        trace = traces[k]
        live = sc = None
        if sp is not None and rng.random() < 0.5:
            # the caller's scenario and, at times, a model that is only read
            s, o = si
            sc = sut.scen(gen.clean(s))
            before = dict(sc)
            if not first and rng.random() < 0.6:
                live = sp.load()(sc, **o)
                fn = lambda: workload.read(sp, live, np)
            else:
                fn = lambda: workload.read(sp, sp.load()(sc, **o), np)
            if first:
                ks = moment(rng, trace)
            else:
                d, t = lines_of(fn)
                if not t:
                    return
                ks, trace = moment(rng, t), t
        else:
            ks = moment(rng, trace)
        exc = rng.choice(STOPS)
        desc = dict(job=k, line="%s:%d" % trace[ks], event=ks, exception=exc.__name__, first_use=first, read_only=live is not None)
        say("begin", desc)
        snap = snapshot()
        hit = stopped(fn, ks, exc)
        bad = []
        now = snapshot()
        for x in same(snap, now):
            bad.append(("state/" + x, "process-wide %s changed: %s -> %s" % (x, str(snap[x])[:150], str(now[x])[:150])))
        if sc is not None and dict(sc) != before:
            bad.append(("scenario", "the caller's scenario changed to %r" % dict(sc)))
        if live is not None and workload.read(sp, live, np) != base[k]:
            bad.append(("live", "the model whose reading was stopped reports other values"))
        for j in follow(rng, k):
            if jobs[j][1]() != base[j]:
                bad.append(("later", "%s reports other values afterwards" % j))
        say("stop", desc, trace[ks], hit, bad)

    def nest_op(say, rng, k, first):
        sp, fn, si = jobs[k]
        trace = traces[k]
        r = rng.random()
        g = k.split("#")[0].split("/")[0]
        if r < 0.25:
            j, other = k, fn
        elif r < 0.7:
            j = rng.choice(group[g])
            other = jobs[j][1]
        elif r < 0.9:
            j = rng.choice(keys)
            other = jobs[j][1]
        else:
            j = rng.choice(sorted(refused))

            def other():
                try:
                    refused[j]()
                except Exception:
                    pass

        live = None
        if sp is not None and not first and rng.random() < 0.4:
            s, o = si
            live = sp.load()(sut.scen(gen.clean(s)), **o)
            fn = lambda: workload.read(sp, live, np)
            if r < 0.25:
                other = fn
            d, trace = lines_of(fn)
            if not trace:
                return
        ks = moment(rng, trace)
        desc = dict(job=k, line="%s:%d" % trace[ks], event=ks, inside=j, first_use=first, read_only=live is not None)
        say("begin", desc)
        d, e = nested(fn, ks, other)
        bad = []
        if d != base[k]:
            bad.append(("outer", "reports other values (%s) when %s is evaluated in the middle of it" % (d[:30], j)))
        if j in base and e is not None and e != base[j]:
            bad.append(("inner", "%s reports other values (%s) in the middle of it" % (j, e[:30])))
        if fn() != base[k]:
            bad.append(("later", "reports other values after %s was evaluated in the middle of it" % j))
        say("nest", desc, trace[ks], e is not None or j in refused, bad)

    def owned_op(say, rng, first):
        """The caller's own objects (scenarios, lists, arrays) after a call on them was stopped or disturbed."""
        name, fn, own, other = rng.choice(owned(rng, np))
        d, trace = lines_of(lambda: frozen(fn(), np))
        if not trace:
            return
        k = moment(rng, trace)
        before = [frozen(x, np) for x in own]
        exc = rng.choice(STOPS)
        stop = rng.random() < 0.5
        desc = dict(job=name, line="%s:%d" % trace[k], event=k, exception=exc.__name__ if stop else None, objects=before)
        say("begin", desc)
        bad = []
        if stop:
            hit = stopped(fn, k, exc)
        else:
            e, hit = nested(lambda: frozen(fn(), np), k, lambda: frozen(other(), np))
            if e != d:
                bad.append(("outer", "gives another result when called again in the middle of the call"))
        if [frozen(x, np) for x in own] != before:
            bad.append(("arguments", "changed the caller's objects to %s" % [frozen(x, np) for x in own]))
        elif frozen(fn(), np) != d:
            bad.append(("later", "gives another result afterwards"))
        say("stop" if stop else "nest", desc, trace[k], bool(hit), bad)

    def import_op(say, rng):
        mods = ["pygmm"] + ["pygmm." + models.SPECS[n].module for n in models.ORDER] + ["pygmm.baker_jayaram_2008", "pygmm.kishida_2017"]
        order = rng.sample(mods, len(mods)) if rng.random() < 0.5 else ["pygmm"] + rng.sample(mods, len(mods))

        def load():
            for m in order:
                importlib.import_module(m)

        mend()
        _, trace = lines_of(load)
        mend()
        ks = moment(rng, trace)
        exc = rng.choice(STOPS[:3])
        desc = dict(importing=order[:3], line="%s:%d" % trace[ks], event=ks, exception=exc.__name__)
        say("begin", desc)
        hit = stopped(load, ks, exc)
        bad = []
        try:
            load()
        except BaseException as e:
            bad.append(("import", "importing again raised %r" % e))
        else:
            for j in rng.sample(keys, min(25, len(keys))):
                if jobs[j][1]() != base[j]:
                    bad.append(("later", "%s reports other values after an import that was stopped" % j))
        say("stop", desc, trace[ks], hit, bad)

    def judge(gen_):
        if ctx.counters.get("hangs"):
            return  # one is enough: each costs minutes
        for x in gen_:
            if x[0] == "begin":
                continue
            if x[0] == "silent":
                desc = x[1] or {}
                ctx.count("hangs")
                ctx.violation("%s/hangs" % str(desc.get("job")).split("#")[0].split("/")[0], "an evaluation does not come back (or ends the process) when disturbed", desc)
                continue
            kind, desc, site, hit, bad = x
            ctx.count("%s_%s" % (kind, "reached" if hit else "passed_over" if hit is False else "other_exception"))
            if not hit:
                continue
            sites.add(tuple(site))
            ctx.case((kind, str(sorted(desc.items(), key=str))), sample=desc)
            name = str(desc.get("job", "import")).split("#")[0].split("/")[0]
            for what, msg in bad:
                ctx.violation("%s/%s/%s" % (name, kind, what), msg, desc)

    t0 = time.time()
    # first use: a child per disturbance
    for k in keys:
        for _ in range(ctx.n(1, 6)):
            r = random.Random(rng.random())
            op = stop_op if r.random() < 0.55 else nest_op
            judge(worker(ctx, lambda say: op(say, r, k, True)))
    # used: many disturbances in one child, one upon the other
    for _ in range(ctx.n(4, 40)):
        r = random.Random(rng.random())

        def many(say):
            for k in r.sample(keys, len(keys)):
                (stop_op if r.random() < 0.5 else nest_op)(say, r, k, False)
                if r.random() < 0.5:
                    owned_op(say, r, False)

        judge(worker(ctx, many))
    for _ in range(ctx.n(4, 40)):
        r = random.Random(rng.random())
        judge(worker(ctx, lambda say: import_op(say, r)))
    # first use of the lazily loaded data of HKR14
    for _ in range(ctx.n(2, 12)):
        with hermkes.standin(np, rng, 40) as (mod, events, preds):
            cls = mod.HermkesKuehnRiggelsen2014
            Lines.src = os.path.dirname(os.path.dirname(mod.__file__))
            qs = []
            while len(qs) < 4:
                q = hermkes.query(rng, events)
                rec, d1, d2 = hermkes.predict(q, events, preds)
                if d2 - d1 > 1e-6:
                    qs.append((q, rec))

            def value(q):
                m = cls(hermkes.scen(q))
                return np.log(np.append(m.spec_accels, m.pgv)), np.append(m.ln_stds, m.ln_std_pgv)

            def right(v, rec):
                return np.allclose(v[0], np.append(rec[0::2][1:], rec[0]), rtol=0, atol=1e-9) and np.allclose(v[1], np.sqrt(np.append(rec[1::2][1:], rec[1])), rtol=0, atol=1e-9)

            def lazy_op(say, rng):
                exc, stop = rng.choice(STOPS), rng.random() < 0.5
                _, trace = subtrace
                k = moment(rng, trace)
                desc = dict(job="HKR14", line="%s:%d" % trace[k], event=k, exception=exc.__name__ if stop else None, first_use=True)
                say("begin", desc)
                bad = []
                (q, rec), (q2, rec2) = rng.sample(qs, 2)
                if stop:
                    hit = stopped(lambda: value(q), k, exc)
                else:
                    got = []
                    hit = nested(lambda: got.append(value(q)) or "", k, lambda: got.append(value(q2)) or "")[1] is not None
                    if not (len(got) == 2 and right(got[0], rec2) and right(got[1], rec)):
                        bad.append(("outer", "reports other values when evaluated again in the middle of its first use"))
                for q3, rec3 in qs:
                    if not right(value(q3), rec3):
                        bad.append(("later", "reports other values after its first use was disturbed"))
                say("stop" if stop else "nest", desc, trace[k], hit, bad)

            for x in worker(ctx, lambda say: say("is", *lines_of(lambda: bool(value(qs[0][0]))))):
                if x[0] == "is":
                    subtrace = x[1:]
                    for _ in range(10):
                        r = random.Random(rng.random())
                        judge(worker(ctx, lambda say: lazy_op(say, r)))
            Lines.src = core.SRC
    ctx.counters["lines_disturbed"] = sites
    ctx.counters["seconds"] = round(time.time() - t0, 1)
    ctx.require(ctx.counters.get("stop_reached", 0) > 20 and ctx.counters.get("nest_reached", 0) > 20, "too few disturbances reached the package")
