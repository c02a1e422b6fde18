"""Workload generation: scenarios biased to thresholds of the model under test."""
import ast
import math
import os

from . import core
from .refutil import table

_POOL = {}

WIDE = {
    "mag": (2.5, 8.5),
    "dist": (0.0, 500.0),
    "dist_x": (-300.0, 400.0),
    "v_s30": (100.0, 2500.0),
    "depth_1_0": (0.0, 4.0),
    "depth": (0.0, 40.0),
    "dip": (5.0, 90.0),
    "width": (0.5, 60.0),
    "pga_ref": (0.0005, 12.0),
    "dpp_centered": (-10.0, 10.0),
}


def wide(p):
    for k in (p.name, p.name.split("_")[0]):
        if k in WIDE:
            lo, hi = WIDE[k]
            break
    else:
        lo, hi = p.gen
    return min(lo, p.gen[0]), max(hi, p.gen[1])


def mined(module):
    """Numeric constants of the module under test (to aim inputs, never to judge)."""
    if module not in _POOL:
        vals = set()
        try:
            with open(os.path.join(core.SRC, "pygmm", module + ".py"), encoding="utf-8") as fh:
                tree = ast.parse(fh.read())
            for nd in ast.walk(tree):
                if isinstance(nd, ast.Constant) and isinstance(nd.value, (int, float)) and not isinstance(nd.value, bool):
                    vals.add(float(nd.value))
                elif isinstance(nd, ast.UnaryOp) and isinstance(nd.op, ast.USub) and isinstance(nd.operand, ast.Constant):
                    if isinstance(nd.operand.value, (int, float)):
                        vals.add(-float(nd.operand.value))
        except (OSError, SyntaxError):
            pass
        vals = {v for v in vals if math.isfinite(v)}
        # conditional tables hold hundreds of digits-only coefficients: keep the round ones
        if len(vals) > 160:
            vals = {v for v in vals if round(v, 2) == v}
        _POOL[module] = sorted(vals)
    return _POOL[module]


TAB_COLS = {
    "mag": ["m1", "m2", "M_h", "c1", "c_hm", "c_gamma3", "c_m", "m_1", "m_h", "M_ref", "c_1"],
    "dist": ["R_1", "R_2", "h", "c_rb", "c_7"],
    "v_s30": ["v_lin", "V_c", "k_1", "V_1", "V_2", "v_con", "V_ref"],
}
EXTRA = {
    "mag": [4, 4.5, 5, 5.5, 5.75, 6, 6.5, 6.75, 7, 7.2, 7.16, 7.5, 8, 8.5, 5.3, 6.9],
    "dist": [0, 1, 5, 10, 30, 40, 50, 70, 80, 85, 100, 130, 140, 200, 250, 300],
    "v_s30": [150, 180, 200, 250, 300, 360, 500, 600, 700, 750, 760, 1000, 1100, 1130, 1180, 1500],
    "depth": [0, 5, 7, 8, 10, 12, 15, 16.66, 20],
    "depth_1_0": [0, 0.01, 0.1, 0.3, 1],
    "depth_2_5": [0, 0.5, 1, 3, 5],
    "dip": [15, 30, 40, 45, 60, 90],
}


def pool(spec, p):
    key = (spec.name, p.name)
    if key not in _POOL:
        lo, hi = wide(p)
        vals = list(mined(spec.module))
        kind = p.name.split("_")[0] if p.name.startswith("dist") else p.name
        if spec.tabname:
            for r in table(spec.tabname):
                for c in TAB_COLS.get(kind, ()):
                    v = getattr(r, c, None)
                    if v is not None and math.isfinite(v):
                        vals.append(v)
        for k in (p.name, p.name.split("_")[0]):
            vals += [float(v) for v in EXTRA.get(k, ())]
        for v in (p.lo, p.hi):
            if v is not None:
                vals.append(float(v))
        _POOL[key] = sorted({v for v in vals if lo <= v <= hi}) or [lo, hi]
    return _POOL[key]


def in_limits(p):
    lo, hi = p.gen
    return lo, hi


def uniform(p, rng, lo, hi):
    if p.name.startswith("dist") and lo >= 0 and hi > 20 and rng.random() < 0.4:
        a = max(lo, 0.1)
        return math.exp(rng.uniform(math.log(a), math.log(hi)))
    if p.name == "pga_ref" and rng.random() < 0.6:
        return math.exp(rng.uniform(math.log(lo), math.log(hi)))
    return rng.uniform(lo, hi)


def value(spec, p, rng, mode="mix", np=None):
    if p.cat:
        return rng.choice(p.options)
    lo, hi = p.gen
    wl, wh = wide(p)
    if mode == "plain":  # anywhere, to meet what needs several inputs in narrow ranges
        return uniform(p, rng, lo, hi) if rng.random() < 0.8 else rng.uniform(wl, wh)
    r = rng.random()
    if mode == "limits":
        if r < 0.62:
            v = uniform(p, rng, lo, hi)
        elif r < 0.72:
            return float(lo if r < 0.67 else hi)
        else:
            c = [x for x in pool(spec, p) if lo <= x <= hi] or [lo, hi]
            v = near(rng.choice(c), rng)
        v = min(max(v, lo), hi)
    else:
        if r < 0.5:
            v = uniform(p, rng, lo, hi)
        elif r < 0.62:
            v = uniform(p, rng, wl, wh)
        else:
            v = near(rng.choice(pool(spec, p)), rng)
        v = min(max(v, wl), wh)
    q = rng.random()
    if q < 0.15 and mode != "exact":
        v = round(v, 1)
    if q > 0.93 and float(v).is_integer():
        return int(v)
    if np is not None and q > 0.86:
        return np.float64(v)
    return float(v)


def near(v, rng):
    r = rng.random()
    if r < 0.4:
        return v
    if r < 0.55:
        return v * (1 + 1e-6)
    if r < 0.7:
        return v * (1 - 1e-6)
    if r < 0.8:
        return math.nextafter(v, math.inf)
    if r < 0.9:
        return math.nextafter(v, -math.inf)
    return v * (1 + rng.uniform(-0.02, 0.02))


# inputs for which zero or negative values are outside the mathematical domain of the model
POSITIVE = {
    ("AB06", "dist_rup"): 0.1,
    ("C03", "dist_rup"): 0.01,
    ("Pea11", "dist_rup"): 0.01,
    ("DBC14", "dist_jb"): 0.1,
    ("CB14", "width"): 0.5,
    ("AGA16", "dist_rup"): 0.0,
}
MAGMAX = {"TP05": 8.5}


def scenario(spec, rng, mode="mix", p_opt=0.5, np=None):
    """Random admissible inputs (unset ones left out or None)."""
    s = {}
    for p in spec.params:
        if not p.req and rng.random() > p_opt:
            s[p.name] = None
        else:
            s[p.name] = value(spec, p, rng, mode, np)
    domain(spec, s)
    if spec.fix:
        spec.fix(s, rng)
    return s


def domain(spec, s):
    for (n, k), lo in POSITIVE.items():
        if n == spec.name and s.get(k) is not None and s[k] < lo:
            s[k] = lo
    if spec.name in MAGMAX and s.get("mag") is not None:
        s["mag"] = min(s["mag"], MAGMAX[spec.name])
    for k in ("dist_jb", "dist_rup", "dist_epi", "dist_hyp", "dist_y0", "dist_crjb", "depth_tor", "depth_hyp"):
        if s.get(k) is not None and s[k] < 0:
            s[k] = 0.0
    if s.get("dip") is not None:
        s["dip"] = min(max(s["dip"], 5), 90)


def neighbour(spec, s, rng, mode="mix", np=None):
    """The same scenario with one input changed."""
    t = dict(s)
    for _ in range(8):
        p = rng.choice(spec.params)
        old = t[p.name]
        if not p.cat and isinstance(old, (int, float)) and rng.random() < 0.2:
            # the same up to rounding
            v = float(old) * (1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-6, -2.5))
            if mode == "limits":
                v = min(max(v, p.gen[0]), p.gen[1])
        else:
            v = None if (not p.req and rng.random() < 0.25) else value(spec, p, rng, mode, np)
        if v != t[p.name]:
            t[p.name] = v
            domain(spec, t)
            if spec.fix:
                spec.fix(t, rng)
            return t
    return t


def key(s):
    return tuple(sorted((k, v) for k, v in s.items() if v is not None))


def clean(s):
    """Drop the unset inputs."""
    return {k: v for k, v in s.items() if v is not None}


def length(rng, hi, long, p=0.05, lo=1):
    """Number of entries for an argument: usually a few, sometimes many."""
    return rng.randint(hi, long) if rng.random() < p else rng.randint(lo, hi)
