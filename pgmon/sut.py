"""Driving the package under test."""
import hashlib
import random

from . import gen, models


def scen(s):
    from pygmm import Scenario

    return Scenario(**s)


def build(spec, s, how="scenario", ctor=None, cls=None):
    """Instance of the model for inputs s, handed over in one of the supported ways."""
    cls = cls or spec.load()
    kw = ctor or {}
    c = gen.clean(s)
    if how == "scenario":
        return cls(scen(c), **kw)
    if how == "none":  # unset inputs given as None
        return cls(scen(s), **kw)
    if how == "dict":
        return cls(dict(c), **kw)
    if how == "copy_with":
        keys = sorted(c)
        h = len(keys) // 2
        base = scen({k: c[k] for k in keys[:h]})
        return cls(base.copy_with(**{k: c[k] for k in keys[h:]}), **kw)
    if how == "kwargs":
        return cls(**c)
    raise ValueError(how)


HOWS = ["scenario", "scenario", "none", "dict", "copy_with"]


def digest(obs):
    h = hashlib.sha1()
    for k in sorted(obs):
        h.update(k.encode())
        h.update(obs[k].tobytes())
    return h.hexdigest()


def evaluate(spec, s, np, how="scenario", ctor=None, cls=None):
    return models.observe(spec, build(spec, s, how, ctor, cls), np)


def ctor_options(spec, rng):
    """Constructor options of the subduction models and the matching reference arguments."""
    if spec.name == "AGA16" and rng.random() < 0.5:
        o = {}
        r = rng.random()
        if r < 0.35:
            o["adjust_c1"] = rng.choice([0.0, -0.3, 0.2, rng.uniform(-1, 1), rng.choice([-1, 0, 1])])
        elif r < 0.6:
            o["adjust_c1"] = [rng.uniform(-0.5, 0.5) for _ in range(23)]
        if rng.random() < 0.6:
            o["scale_atten"] = rng.choice([1.0, 1.3, 0.5, rng.uniform(0.3, 2), rng.choice([1, 2])])
        return o
    if spec.name == "CoppB14" and rng.random() < 0.5:
        return {"scale_atten": rng.choice([1.0, 1.3, 0.5, rng.uniform(0.3, 2)])}
    return {}


def base_scenarios(spec, seed, n, mode="limits", p_opt=0.6):
    rng = random.Random("base/%s/%s" % (spec.name, seed))
    return [gen.scenario(spec, rng, mode, p_opt) for _ in range(n)]


def shifted(v, rng, np):
    """The argument up to rounding (other things than floating-point numbers as they are)."""
    if isinstance(v, float):
        return v * (1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-9, -2))
    if isinstance(v, (list, tuple)) and len(v) > 2 and all(isinstance(x, float) for x in v) and rng.random() < 0.3:
        i = rng.randrange(len(v))  # one of the elements alone
        return type(v)(shifted(x, rng, np) if j == i else x for j, x in enumerate(v))
    if type(v) is np.ndarray and v.ndim == 1 and v.dtype.kind == "f" and len(v) > 2 and rng.random() < 0.3:
        return np.array(shifted(v.tolist(), rng, np)) if not hasattr(v, "mask") else v
    if isinstance(v, (list, tuple)) and v and all(isinstance(x, float) for x in v):
        return type(v)(shifted(x, rng, np) for x in v)
    if type(v) is np.ndarray and v.dtype.kind == "f":
        return v * (1 + 10 ** rng.uniform(-9, -2))
    return v


CHOICES = [
    ("california", "japan", "global", "china", "taiwan"),
    ("Japan", "Taiwan", "South America", "New Zealand", "Cascadia"),
    ("interface", "slab"),
    ("tau", "phi_s2s", "phi_s", "sigma"),
    ("linear", "nearest", "zero", "slinear", "quadratic", "cubic"),
    ("D5-10", "D5-50", "D5-95"),
]


def chosen(v, rng):
    """Another choice where the argument is one of several."""
    for c in CHOICES:
        if isinstance(v, str) and v in c:
            return rng.choice([x for x in c if x != v])
    return v


def neighbourly(obj, rng, np, p=0.3):
    """A function (or a class with functions) that is at times called with arguments close by just before."""

    def wrap(fn):
        def call(*a, **k):
            if rng.random() < p:
                # either all arguments or one of them
                one = rng.randrange(len(a)) if a and rng.random() < 0.5 else None
                b = [shifted(v, rng, np) if one in (None, i) else v for i, v in enumerate(a)]
                try:
                    b = [chosen(v, rng) for v in b] if rng.random() < 0.3 else b
                    fn(*b, **{n: v if n == "component" else shifted(v, rng, np) for n, v in k.items()})
                except Exception:
                    pass  # judged with the arguments of the check
            return fn(*a, **k)

        return call

    if not isinstance(obj, type):
        return wrap(obj)

    class Proxy:
        def __getattr__(self, name):
            v = getattr(obj, name)
            return wrap(v) if callable(v) else v

    return Proxy()
