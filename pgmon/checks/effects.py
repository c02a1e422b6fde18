"""Importing and evaluating leave the rest of the process alone."""
import io
import json
import logging
import os
import random
import subprocess
import sys
import tempfile
import threading
import warnings

from .. import core, gen, models, sut, workload

WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
BAD = (
    "socket.", "subprocess.", "os.remove", "os.rename", "os.rmdir", "os.mkdir", "os.truncate", "os.chmod", "os.chown", "os.link", "os.symlink",
    "os.utime", "os.putenv", "os.unsetenv", "os.chdir", "os.system", "os.exec", "os.fork", "os.posix_spawn", "os.spawn", "os.kill", "os.startfile",
    "shutil.", "tempfile.", "urllib.", "http.", "ftplib.", "smtplib.", "webbrowser.", "pty.", "signal.", "syslog.", "resource.setrlimit",
    "sqlite3.", "mmap.__new__", "time.sleep",
)


def forbidden(ev, args):
    """Description of an audit event that reaches outside the process, or None."""
    if ev == "open":
        path, mode, flags = (tuple(args) + (None, None, None))[:3]
        w = any(c in mode for c in "wax+") if isinstance(mode, str) else bool(isinstance(flags, int) and flags & WRITE)
        if w and str(path) not in ("/dev/null",):
            return "open %r for writing" % (path,)
        return None
    if ev.startswith(BAD):
        return "%s%s" % (ev, tuple(str(a)[:80] for a in args))
    return None


class Audit:
    """Audit hook with an on/off switch (hooks cannot be removed)."""

    hook = None
    on = False
    events = []
    seen = 0

    @classmethod
    def install(cls):
        if cls.hook is None:

            def hook(ev, args):
                if cls.on:
                    cls.seen += 1
                    f = forbidden(ev, args)
                    if f:
                        cls.events.append(f)

            cls.hook = hook
            sys.addaudithook(hook)


class Stream(io.TextIOBase):
    def __init__(self):
        self.text = []

    def write(self, s):
        self.text.append(s)
        return len(s)

    def writable(self):
        return True


def state(np):
    from ..effects_child import snapshot

    s = snapshot()
    s["disabled_logging"] = logging.root.manager.disable
    s["pygmm_handlers"] = [repr(h) for h in logging.getLogger("pygmm").handlers]
    return s


def first_use(ctx, np):
    """The first evaluation of everything, each in a child forked from the unused package."""
    from .history import forked

    rng = ctx.rng
    work = []
    for k, sp, s, o in workload.model_jobs(ctx.seed, 1):
        odd = gen.clean(gen.scenario(sp, rng, "mix", 1.0))
        for p in sp.params:
            if p.cat and rng.random() < 0.5:
                odd[p.name] = "unheard of"
            elif not p.cat and rng.random() < 0.3:
                odd[p.name] = rng.choice([-1.0, 1e4, 0.0])
        lacking = gen.clean(s)
        lacking.pop(rng.choice(sorted(lacking)))
        for kind, t in (("model", s), ("limits", odd), ("fails", lacking)):
            work.append((kind, sp.name, t, lambda sp=sp, t=t, o=o: workload.read(sp, sut.build(sp, t, "scenario", o), np)))
    work += [("function", k, None, fn) for k, fn in workload.function_jobs(ctx.seed, np)]
    work += [("refused", k, None, fn) for k, fn in workload.failing_jobs(ctx.seed, np)]

    def child(fn):
        out = Stream()
        Audit.install()
        warnings.simplefilter("always")
        warnings.showwarning = lambda *a, **k: None
        np.seterr(divide="warn", invalid="warn", over="warn", under="ignore")
        logging.disable(logging.NOTSET)
        for h in list(logging.root.handlers):
            logging.root.removeHandler(h)
        sys.stdout = sys.stderr = out
        before = state(np)
        Audit.events, Audit.on = [], True
        try:
            fn()
        except Exception:
            pass
        Audit.on = False
        after = state(np)
        # scipy draws the seed of its own generators when it is imported
        return Audit.events, {k: (str(before[k])[:200], str(after[k])[:200]) for k in before if before[k] != after[k]}, out.text

    for kind, name, s, fn in work:
        res = forked(lambda: child(fn), 120)
        ctx.case(("first", kind, name, ctx.evaluations))
        wit = dict(kind=kind, name=name, inputs=s)
        if not isinstance(res, tuple):
            ctx.violation("first/%s" % name, "the first evaluation in a process did not complete: %s" % res, wit)
            continue
        ctx.count("first_evaluations")
        for e in res[0]:
            ctx.violation("first-event/%s" % name, "the first evaluation of %s caused: %s" % (name, e), wit)
        for k, (a, b) in res[1].items():
            ctx.violation("first-state/%s" % k, "the first evaluation of %s changed %s: %s -> %s" % (name, k, a, b), wit)
        if res[2]:
            ctx.violation("first-output/%s" % name, "the first evaluation of %s printed %r" % (name, res[2][:3]), wit)


def bulk(ctx, np, out, err):
    """Many more evaluations, looked at a handful at a time."""
    rng = ctx.rng

    def once(spec, s, o, seed):
        try:
            if spec == "function":
                return s()
            r = random.Random(seed)
            m = sut.build(spec, s, "scenario", o)
            for _, op in workload.operations(spec, r, np, 2):
                op(m)
        except Exception:
            ctx.count("raising_evaluations")

    def watched(todo):
        """What the evaluations did to the process."""
        Audit.events = []
        ne, no = len(err.text), len(out.text)
        before = state(np)
        Audit.on = True
        try:
            for job in todo:
                once(*job)
        finally:
            Audit.on = False
        after = state(np)
        return list(Audit.events), {k: (before[k], after[k]) for k in before if before[k] != after[k]}, out.text[no:] + err.text[ne:]

    def restore():
        np.seterr(divide="warn", invalid="warn", over="warn", under="ignore")

    def report(name, ev, diff, text, wit):
        for e in ev:
            ctx.violation("event/%s" % name, "evaluating %s caused: %s" % (name, e), wit)
        for k, (a, b) in diff.items():
            ctx.violation("state/%s" % k, "evaluating %s changed %s: %s -> %s" % (name, k, str(a)[:200], str(b)[:200]), wit)
        if text:
            ctx.violation("output/%s" % name, "evaluating %s printed %r" % (name, text[:3]), wit)
        restore()

    for _ in range(ctx.n(12, 120)):
        seed = rng.random()
        todo = [("function", fn, k, None) for k, fn in workload.function_jobs(seed, np) + workload.failing_jobs(seed, np)]
        ctx.count("functions_in_bulk", len(todo))
        ev, diff, text = watched(todo)
        for _, _, k, _ in todo:
            ctx.case(("bulk", k, seed))
        if ev or diff or text:
            for job in todo:
                restore()
                e1, d1, t1 = watched([job])
                if e1 or d1 or t1:
                    ev, diff, text, todo = e1, d1, t1, [job]
                    break
            report(todo[0][2].split("/")[0], ev, diff, text, dict(seed=seed, function=[j[2] for j in todo][:3]))
    for name in models.ORDER:
        spec = models.SPECS[name]
        for _ in range(ctx.n(12, 100)):
            todo = []
            for _ in range(30):
                s = gen.scenario(spec, rng, rng.choice(["mix", "limits"]), rng.choice([0.2, 0.6, 1.0]))
                if rng.random() < 0.1:
                    s = gen.clean(s)
                    s.pop(rng.choice(sorted(s)), None)
                todo.append((spec, s, sut.ctor_options(spec, rng), rng.random()))
                ctx.case(("bulk", name, gen.key(s)))
            ev, diff, text = watched(todo)
            ctx.count("evaluations_in_bulk", len(todo))
            if not (ev or diff or text):
                continue
            # one of them did it: look at them singly, where that still shows it
            for job in todo:
                restore()
                e1, d1, t1 = watched([job])
                if e1 or d1 or t1:
                    ev, diff, text, todo = e1, d1, t1, [job]
                    break
            report(name, ev, diff, text, dict(model=name, inputs=[gen.clean(j[1]) for j in todo][:3], options=todo[0][2]))


def side_effects(ctx):
    """Evaluations write nothing, call nothing outside, and change no process-wide setting; nor does the import."""
    import numpy as np
    import pygmm

    rng = ctx.rng
    ctx.rule = (
        "every model and function evaluated (also with failing and out-of-limit inputs, pickling, reprs) under an audit hook and captured "
        "streams, process-wide state compared after every evaluation; the import observed in fresh interpreters. Distinct by job"
    )
    ctx.assumptions = ["events that carry no Python audit event (native code) are not seen"]
    first_use(ctx, np)
    # warm up lazily imported third-party code
    for k, sp, s, o in workload.model_jobs(ctx.seed, 1):
        workload.observe_all(sp, s, o, np)
    jobs = workload.model_jobs(ctx.seed + 1, ctx.n(25))
    fjobs = workload.function_jobs(ctx.seed, np)
    for k, fn in fjobs:
        fn()
    for v in (rng, np.random):
        v.random()
    Audit.install()
    out, err = Stream(), Stream()
    so, se = sys.stdout, sys.stderr
    work = [("model", j) for j in jobs] + [("function", j) for j in fjobs] + [("limits", j) for j in jobs] + [("fails", j) for j in jobs]
    work += [("refused", j) for j in workload.failing_jobs(ctx.seed, np)]
    for k, fn in workload.failing_jobs(ctx.seed, np):  # lazily imported error handling
        try:
            fn()
        except Exception:
            pass
    rng.shuffle(work)
    lg = logging.root.manager.disable
    with np.errstate(divide="warn", invalid="warn", over="warn", under="ignore"), warnings.catch_warnings():
        warnings.simplefilter("always")
        warnings.showwarning = lambda *a, **k: None
        logging.disable(logging.NOTSET)
        sys.stdout, sys.stderr = out, err
        handlers = list(logging.root.handlers)
        for h in handlers:  # an application that configured no logging
            logging.root.removeHandler(h)
        try:
            prev = state(np)
            for kind, j in work:
                Audit.events = []
                ne, no = len(err.text), len(out.text)
                Audit.on = True
                try:
                    if kind == "function":
                        name = j[0]
                        j[1]()
                    elif kind == "refused":
                        name = j[0]
                        try:
                            j[1]()
                        except Exception:
                            ctx.count("refused_calls")
                    else:
                        k, sp, s, o = j
                        name = sp.name
                        if kind == "limits":
                            s = gen.scenario(sp, rng, "mix", 0.7)
                        if kind == "fails":
                            s = gen.clean(s)
                            s.pop(sorted(s)[hash(k) % len(s)])
                        try:
                            m = sut.build(sp, s, "scenario", o)
                            repr(m.scenario)
                            workload.read(sp, m, np)
                        except Exception:
                            ctx.count("raising_evaluations")
                finally:
                    Audit.on = False
                now = state(np)
                ctx.case((kind, name, ctx.evaluations), sample=dict(kind=kind, name=name))
                wit = dict(kind=kind, name=name, inputs=gen.clean(s) if kind not in ("function", "refused") else None)
                for e in Audit.events:
                    ctx.violation("event/%s" % name.split("/")[0], "evaluating %s caused: %s" % (name, e), wit)
                for k2 in now:
                    if now[k2] != prev[k2]:
                        ctx.violation("state/%s" % k2, "evaluating %s changed %s: %s -> %s" % (name, k2, str(prev[k2])[:200], str(now[k2])[:200]), wit)
                prev = now
                if len(out.text) > no or len(err.text) > ne:
                    ctx.violation("output/%s" % name.split("/")[0], "evaluating %s printed %r" % (name, (out.text[no:] + err.text[ne:])[:3]), wit)
            bulk(ctx, np, out, err)
        finally:
            sys.stdout, sys.stderr = so, se
            Audit.on = False
            for h in list(logging.root.handlers):
                logging.root.removeHandler(h)
            for h in handlers:
                logging.root.addHandler(h)
            logging.disable(lg)
    ctx.counters["audit_events_seen"] = Audit.seen
    # positive control: the hook sees a write
    with tempfile.TemporaryDirectory(prefix="pgmon-") as tmp:
        Audit.events, Audit.on = [], True
        open(os.path.join(tmp, "x"), "w").close()
        Audit.on = False
        ctx.require(any("for writing" in e for e in Audit.events), "the audit hook does not see a file being written")
        # the import
        src = core.SRC
        env = {"PATH": os.environ.get("PATH", ""), "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "HOME": tmp, "PYGMM_REPO": core.REPO}
        child = os.path.join(core.ROOT, "pgmon", "effects_child.py")

        def run(cfg):
            p = subprocess.run([sys.executable, "-I", child, json.dumps(cfg)], cwd=tmp, env=env, capture_output=True, text=True, timeout=200)
            lines = [x for x in p.stdout.splitlines() if x.startswith("EFFECTS ")]
            if not lines:
                return None, p.stdout + p.stderr
            extra = "".join(x for x in p.stdout.splitlines() if x and not x.startswith("EFFECTS "))
            return json.loads(lines[-1][8:]), extra + p.stderr

        mods = ["pygmm." + models.SPECS[n].module for n in models.ORDER]
        mods += ["pygmm." + x for x in ("baker_jayaram_2008", "kishida_2017", "stafford_2017", "bayless_abrahamson_2018", "abrahamson_bhasin_2020")]
        for i in range(ctx.n(2, 8)):
            order = (["pygmm"] if i == 0 else []) + rng.sample(mods, len(mods))
            a, text = run(dict(src=src, third=[], modules=order, hook=False))
            b = None
            if a is not None:
                b, text = run(dict(src=src, third=a["third"], modules=order, hook=True))
            ctx.case(("import", i))
            if b is None:
                ctx.violation("import/failed", "importing the package failed: %s" % text[-400:], dict(modules=order))
                continue
            ctx.count("imports_observed")
            for e in b["events"]:
                ctx.violation("import/event", "importing caused: %s" % e, dict(modules=order))
            for k2, v in b["changed"].items():
                ctx.violation("import/state/" + k2, "importing changed %s: %s" % (k2, v), dict(modules=order))
            if text.strip():
                ctx.violation("import/output", "importing printed %r" % text[:200], dict(modules=order))
            if os.listdir(tmp) != ["x"]:
                ctx.violation("import/files", "importing left files: %s" % os.listdir(tmp), dict(modules=order))
    ctx.require(ctx.counters.get("raising_evaluations", 0) > 10, "no failing evaluation observed")
