"""Which lines of the package the workload executed (evidence, never a verdict)."""
import os
import sys

from . import core


class Reach:
    """Counts the distinct lines of pygmm executed while active (sys.monitoring, one event per line)."""

    TOOL = 3

    def __init__(self, modules=None):
        self.prefix = os.path.join(core.SRC, "pygmm") + os.sep
        self.modules = modules
        self.lines = set()
        self.codes = set()
        self.on = False

    def _line(self, code, line):
        fn = code.co_filename
        if fn.startswith(self.prefix):
            self.lines.add((fn[len(self.prefix) :], line))
        return sys.monitoring.DISABLE

    def _start(self, code, off):
        fn = code.co_filename
        if fn.startswith(self.prefix):
            self.codes.add((fn[len(self.prefix) :], code.co_qualname))
        return sys.monitoring.DISABLE

    def __enter__(self):
        try:
            m = sys.monitoring
            m.use_tool_id(self.TOOL, "pgmon")
            m.register_callback(self.TOOL, m.events.LINE, self._line)
            m.register_callback(self.TOOL, m.events.PY_START, self._start)
            m.set_events(self.TOOL, m.events.LINE | m.events.PY_START)
            self.on = True
        except (AttributeError, ValueError):
            pass
        return self

    def __exit__(self, *a):
        if self.on:
            m = sys.monitoring
            m.set_events(self.TOOL, 0)
            m.free_tool_id(self.TOOL)
            self.on = False

    def report(self):
        """Sets, so that what several processes reached can be joined (written as their sizes)."""
        per = {}
        for f, ln in self.lines:
            per.setdefault(f, set()).add(ln)
        if self.modules:
            per = {f: n for f, n in per.items() if f[:-3] in self.modules or f == "model.py"}
        return dict(lines_executed=per, functions_entered=set(self.codes))
