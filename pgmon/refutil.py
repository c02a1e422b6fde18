"""Small helpers for the reference models: snapshot coefficient tables and scalar math."""
import json
import math
import os

HERE = os.path.dirname(os.path.abspath(__file__))
_CACHE = {}


class Row:
    """One row of a coefficient table: attribute access to floats."""

    __slots__ = ("__dict__",)

    def __init__(self, names, values):
        self.__dict__.update(zip(names, values))


def table(name):
    """Rows of the /verif snapshot of a published coefficient table."""
    if name in _CACHE:
        return _CACHE[name]
    names, rows, prev = None, [], None
    with open(os.path.join(HERE, "data", name), encoding="utf-8-sig") as fh:
        for line in fh:
            line = line.strip()
            if not line:
                continue
            if line.startswith("#"):
                prev = line
                continue
            cells = line.split(",")
            try:
                vals = [float(c) if c.strip() else math.nan for c in cells]
            except ValueError:
                prev = line
                continue
            if names is None:
                names = [n.strip() for n in prev.lstrip("#").split(",")]
            rows.append(Row(names, vals))
    _CACHE[name] = rows
    return rows


def jdata(name):
    if name not in _CACHE:
        with open(os.path.join(HERE, "data", name), encoding="utf-8") as fh:
            _CACHE[name] = json.load(fh)
    return _CACHE[name]


def clip(x, lo, hi):
    return lo if x < lo else hi if x > hi else x


def lin(x, xs, ys):
    """Piecewise linear interpolation, constant outside."""
    if x <= xs[0]:
        return ys[0]
    if x >= xs[-1]:
        return ys[-1]
    for i in range(1, len(xs)):
        if x <= xs[i]:
            t = (x - xs[i - 1]) / (xs[i] - xs[i - 1])
            return ys[i - 1] + t * (ys[i] - ys[i - 1])
    raise AssertionError


def rad(deg):
    return deg * math.pi / 180.0


LN10 = math.log(10.0)
