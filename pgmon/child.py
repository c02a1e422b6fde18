"""Subprocess: evaluate the workload in a given order and print the digests (used by the process monitor)."""
import collections.abc
import json
import os
import pickle
import random
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


READ = set()


def watch_environment(prefix):
    """Record the environment variables the package itself asks for."""
    cls = type(os.environ)
    get, has = cls.__getitem__, collections.abc.Mapping.__contains__
    lib = os.path.realpath(os.path.dirname(os.__file__)) + os.sep

    def own(name):  # the standard library asks on behalf of its caller
        name = os.path.realpath(name)
        return name.startswith(lib) and "site-packages" not in name

    def note(key):
        f = sys._getframe(2)
        while f is not None and (f.f_code.co_filename.startswith("<frozen ") or own(f.f_code.co_filename)):
            f = f.f_back
        if f is not None and os.path.realpath(f.f_code.co_filename).startswith(prefix):
            READ.add(str(key))

    def getitem(self, key):
        note(key)
        return get(self, key)

    def contains(self, key):
        note(key)
        return has(self, key)

    cls.__getitem__, cls.__contains__ = getitem, contains


def strange(what):
    """Give the process another clock, other processors or other modules than usual."""
    import datetime
    import time

    if what.get("clock"):
        off = what["clock"]
        for name in ("time", "monotonic", "perf_counter", "process_time"):
            setattr(time, name, lambda f=getattr(time, name): f() + off)
            setattr(time, name + "_ns", lambda f=getattr(time, name + "_ns"): f() + int(off * 10**9))
        for name in ("localtime", "gmtime", "strftime", "ctime"):
            f = getattr(time, name)
            k = 1 if name == "strftime" else 0
            setattr(time, name, lambda *a, f=f, k=k: f(*a) if len(a) > k else f(*a, *([time.gmtime()] if k else [time.time()])))
        base, day = datetime.datetime, datetime.date

        class Moment(base):
            @classmethod
            def now(cls, tz=None):
                return base.now(tz) + datetime.timedelta(seconds=off)

            today = classmethod(lambda cls: cls.now())
            utcnow = classmethod(lambda cls: cls.now(datetime.timezone.utc).replace(tzinfo=None))

        class Day(day):
            today = classmethod(lambda cls: Moment.now().date())

        datetime.datetime, datetime.date = Moment, Day
    if what.get("processors"):
        k = what["processors"]
        try:
            os.sched_setaffinity(0, sorted(os.sched_getaffinity(0))[:k])
        except OSError:
            pass
        os.cpu_count = lambda: k
    for name in what.get("modules", []):
        try:
            __import__(name)
        except Exception:
            pass
    if what.get("arguments"):
        sys.argv[1:] = what["arguments"]
    if what.get("depth"):
        sys.setrecursionlimit(what["depth"])


def main():
    cfg = json.loads(sys.argv[1])
    from pgmon import core

    src = core.SRC
    sys.path.insert(0, src)
    if cfg.get("strange"):
        import numpy  # noqa: F401  (as anywhere else)

        strange(cfg["strange"])
    watch_environment(os.path.realpath(src) + os.sep)
    import importlib

    for mod in cfg.get("imports", []):  # import order
        importlib.import_module(mod)
    core.setup_repo()
    import numpy as np

    from pgmon import workload

    mj = workload.model_jobs(cfg["seed"], cfg["n"])
    fj = workload.function_jobs(cfg["seed"], np)
    jobs = [(k, (lambda sp=sp, s=s, o=o: workload.observe_all(sp, s, o, np)[1])) for k, sp, s, o in mj] + fj + workload.interface_jobs(cfg["seed"], np)
    if cfg.get("pickles"):  # models made in another process
        specs = {k: sp for k, sp, s, o in mj}
        with open(cfg["pickles"], "rb") as fh:
            made = pickle.load(fh)
        jobs += [("unpickled " + k, lambda k=k, d=d: workload.read(specs[k], pickle.loads(d), np)) for k, d in made.items()]
        if cfg.get("order") == "reverse":  # nothing of the package was used before
            jobs = [j for j in jobs if j[0].startswith("unpickled ")]
    only = cfg.get("only")
    if only:
        jobs = [j for j in jobs if j[0].startswith(only)]
    if cfg.get("order") == "reverse":
        jobs.reverse()
    elif cfg.get("order"):
        random.Random(cfg["order"]).shuffle(jobs)
    out = {}
    for k, fn in jobs:
        try:
            out[k] = fn()
        except Exception as e:
            out[k] = "raised %s: %s" % (type(e).__name__, str(e)[:200])
    sys.stdout.write("\nREAD " + json.dumps(sorted(READ)) + "\nDIGESTS " + json.dumps(out) + "\n")


main()
