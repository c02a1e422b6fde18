"""Subprocess: import pygmm under an audit hook and report what the import did to the process."""
import json
import logging
import os
import random
import sys
import warnings

sys.dont_write_bytecode = True


NAMES = {}


def patched():
    """Identity of the functions of the libraries everyone shares, of those present the first time."""
    import builtins
    import math

    import numpy

    mods = [builtins, math, os, warnings, logging, random, numpy, numpy.linalg]
    mods += [m for m in (sys.modules.get("scipy.interpolate"), sys.modules.get("pandas"), sys.modules.get("json")) if m is not None]
    out = []
    for m in mods:
        # a module seen for the first time is taken as it is
        names = NAMES.setdefault(m.__name__, [k for k, v in vars(m).items() if callable(v) and not k.startswith("__warning")])
        for k in names:
            v = vars(m).get(k)
            if NAMES.setdefault((m.__name__, k), v) is not v:
                out.append("%s.%s" % (m.__name__, k))
    return out


def options(d):
    """Nested options as text."""
    return {k: options(v) if isinstance(v, dict) else repr(v) for k, v in d.items()}


def snapshot():
    import atexit
    import copyreg
    import csv
    import decimal
    import faulthandler
    import gc
    import locale
    import pathlib
    import resource
    import signal
    import tempfile
    import threading
    import time

    import numpy as np

    return dict(
        numpy_errors=np.geterr(), numpy_print={k: repr(v) for k, v in np.get_printoptions().items()}, warning_filters=[repr(f) for f in warnings.filters],
        environ=dict(os.environ), cwd=os.getcwd(), path=[p for p in sys.path], random=hash(random.getstate()),
        numpy_random=hash(str(np.random.get_state())), root_handlers=len(logging.getLogger().handlers), root_level=logging.getLogger().level,
        switch=sys.getswitchinterval(), recursion=sys.getrecursionlimit(), decimal=repr(decimal.getcontext()), locale=locale.setlocale(locale.LC_ALL),
        sigint=repr(signal.getsignal(signal.SIGINT)), sigterm=repr(signal.getsignal(signal.SIGTERM)), threads=threading.active_count(),
        excepthook=repr(sys.excepthook), displayhook=repr(sys.displayhook), streams=[id(sys.stdout), id(sys.stderr), id(sys.stdin)], gc=[gc.isenabled(), gc.get_threshold(), gc.get_debug()],
        tracing=[repr(sys.gettrace()), repr(sys.getprofile())], numpy_callback=repr(np.geterrcall()), zone=time.tzname,
        limits=[resource.getrlimit(r) for r in (resource.RLIMIT_AS, resource.RLIMIT_NOFILE, resource.RLIMIT_STACK, resource.RLIMIT_CPU)],
        priority=os.getpriority(os.PRIO_PROCESS, 0), affinity=len(os.sched_getaffinity(0)), warnings_shown_by=repr(warnings.showwarning),
        last_resort=repr(logging.lastResort), logger_class=repr(logging.getLoggerClass()), digits=sys.get_int_max_str_digits(),
        patched=patched(), pandas=options(getattr(getattr(sys.modules.get("pandas"), "options", None), "d", {})), fields=csv.field_size_limit(),
        faults=faulthandler.is_enabled(), exits=atexit._ncallbacks(), reducers=len(copyreg.dispatch_table), tmp=tempfile.tempdir,
        stack=threading.stack_size(), timeout=sys.modules["socket"].getdefaulttimeout() if "socket" in sys.modules else None,
        umask=[x for x in pathlib.Path("/proc/self/status").read_text().splitlines() if x.startswith("Umask")], raising=logging.raiseExceptions, bytecode=sys.dont_write_bytecode,
        warnings_formatted_by=repr(warnings.formatwarning), logging_disabled=logging.root.manager.disable,
        numpy_bufsize=np.getbufsize(), builtins=len(dir(__builtins__)),
        descriptors=len(os.listdir("/proc/self/fd")), hooks=len(sys.meta_path) + len(sys.path_hooks),
    )


def main():
    cfg = json.loads(sys.argv[1])
    sys.path.insert(0, cfg["src"])
    import importlib

    for m in cfg["third"]:
        try:
            importlib.import_module(m)
        except Exception:
            pass
    import numpy  # noqa: F401

    snapshot()
    events = []
    if cfg["hook"]:
        sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        from pgmon.checks.effects import forbidden

        def hook(ev, args):
            f = forbidden(ev, args)
            if f:
                events.append(f)

        a = snapshot()
        old = sys.modules.copy()
        sys.addaudithook(hook)
    for m in cfg["modules"]:
        importlib.import_module(m)
    if cfg["hook"]:
        n = list(events)
        b = snapshot()
        diff = {k: [str(a[k])[:200], str(b[k])[:200]] for k in a if a[k] != b[k]}
        new = [m for m in sys.modules if m not in old and not m.startswith("pygmm")]
        print("\nEFFECTS " + json.dumps(dict(events=n, changed=diff, new_third=new[:20])))
    else:
        print("\nEFFECTS " + json.dumps(dict(third=[m for m in sys.modules if not m.startswith("pygmm") and m != "__main__"])))


if __name__ == "__main__":
    main()
