"""Scenario container, input validation, limit warnings and isolation."""
import copy
import logging
import pickle
import random
import re
import warnings

from .. import gen, models, sut
from ..reach import Reach
from . import hermkes

KEYS = [
    "depth_1_0", "depth_2_5", "depth_tor", "depth_bor", "depth_bot", "depth_hyp", "dip", "dist_crjb", "dist_jb",
    "dist_epi", "dist_hyp", "dist_rup", "dist_x", "dist_y0", "dpp_centered", "event_type", "is_aftershock", "mag",
    "mechanism", "on_hanging_wall", "pga_ref", "region", "site_cond", "tectonic_region", "v_s30", "vs_source", "width",
]
UNKNOWN = ["foo", "magnitude", "Mag", "dist", "vs30", "_mag", "depth", "mag_", "region ", "data_", "distjb", "DIP"]


def rand_value(rng):
    return rng.choice([None, rng.uniform(-5, 500), rng.randint(0, 9), rng.choice(["SS", "japan", ""]), True, False])


def scenario_container(ctx):
    """Random operation sequences on Scenario objects against a plain dict model."""
    from pygmm import Scenario

    rng = ctx.rng
    ctx.rule = (
        "random operation sequences (construct, read by attribute/item/get, assign, delete, copy_with, copy, pickle, "
        "deepcopy, repr, unknown keys) over a family of scenarios, each shadowed by a dict; non-trivial: at least one key; "
        "distinct by the keys, values and operation sequence"
    )
    bad = ctx.violation

    def agree(sc, d, op, log):
        w = dict(operations=log[-12:], expected=d)
        if list(sc) != list(d) or bool(sc) != bool(d) or list(sc.values()) != list(d.values()) or list(sc.keys()) != list(d):
            bad("scenario/order", "after %s the scenario iterates over %r" % (op, list(sc)), w)
        if dict(sc) != d or len(sc) != len(d) or sorted(sc) != sorted(d) or list(sc.items()) != [(k, sc[k]) for k in sc]:
            bad("scenario/contents", "after %s the scenario holds %r" % (op, dict(sc)), w)
        for k in KEYS:
            if (k in sc) != (k in d) or sc.get(k, "absent") != d.get(k, "absent"):
                bad("scenario/lookup", "key %s after %s" % (k, op), w)
            if k in d:
                if getattr(sc, k) is not sc[k] and getattr(sc, k) != sc[k]:
                    bad("scenario/attribute", "attribute %s differs from the item after %s" % (k, op), w)
                try:
                    v = getattr(sc, k)
                except Exception as e:
                    v = e
                if v is not d[k] and v != d[k]:
                    bad("scenario/attribute", "attribute %s is %r, expected %r" % (k, v, d[k]), w)
            else:
                if hasattr(sc, k) or getattr(sc, k, "dflt") != "dflt":
                    bad("scenario/attribute-unset", "unset %s is visible as an attribute after %s" % (k, op), w)
        ctx.count("agreements_checked")

    for _ in range(ctx.n(700)):
        live = []
        log = []
        for _ in range(rng.randint(3, 14)):
            op = rng.choice(["new", "new", "with", "with", "copy", "pickle", "deepcopy", "set", "set", "del", "update", "repr", "unknown", "unknown_with", "eq", "or", "ror", "ior", "pop", "setdefault", "clear", "mapping", "absent"])
            if not live:
                op = rng.choice(["new", "unknown"])
            try:
                if op == "new":
                    d = {k: rand_value(rng) for k in rng.sample(KEYS, rng.randint(0, 12))}
                    log.append(("new", dict(d)))
                    live.append((Scenario(**d), dict(d)))
                elif op in ("unknown", "unknown_with"):
                    k = rng.choice(UNKNOWN)
                    d = {q: rand_value(rng) for q in rng.sample(KEYS, rng.randint(0, 4))}
                    items = list(d.items()) + [(k, 1.0)]
                    rng.shuffle(items)
                    log.append((op, dict(items)))
                    try:
                        (Scenario if op == "unknown" else rng.choice(live)[0].copy_with)(**dict(items))
                    except Warning as e:
                        if k not in str(e):
                            bad("scenario/unknown-name", "the error for key %r does not name it: %s" % (k, e), dict(items=dict(items)))
                        ctx.count("unknown_rejected")
                    except Exception as e:
                        bad("scenario/unknown", "unknown key %r raised %r" % (k, e), dict(items=dict(items)))
                    else:
                        bad("scenario/unknown", "unknown key %r was accepted by %s" % (k, op), dict(items=dict(items)))
                else:
                    i = rng.randrange(len(live))
                    sc, d = live[i]
                    if op == "with":
                        e = {k: rand_value(rng) for k in rng.sample(KEYS, rng.randint(0, 5))}
                        log.append((op, i, e))
                        new = sc.copy_with(**e)
                        live.append((new, {**d, **e}))
                    elif op in ("copy", "pickle", "deepcopy"):
                        log.append((op, i))
                        new = (
                            rng.choice([copy.copy, lambda x: x.copy()])(sc)
                            if op == "copy"
                            else pickle.loads(pickle.dumps(sc, rng.choice([2, pickle.HIGHEST_PROTOCOL])))
                            if op == "pickle"
                            else copy.deepcopy(sc)
                        )
                        live.append((new, dict(d)))
                    elif op == "set":
                        k, v = rng.choice(KEYS), rand_value(rng)
                        log.append((op, i, k, v))
                        sc[k] = v
                        d[k] = v
                        new = sc
                    elif op == "update":
                        e = {k: rand_value(rng) for k in rng.sample(KEYS, 3)}
                        log.append((op, i, e))
                        rng.choice([lambda: sc.update(e), lambda: sc.update(**e), lambda: sc.update(list(e.items())), lambda: sc.update(Scenario(**e))])()
                        d.update(e)
                        new = sc
                    elif op in ("or", "ror", "mapping"):
                        e = {k: rand_value(rng) for k in rng.sample(KEYS, rng.randint(0, 4))}
                        log.append((op, i, e))
                        o = rng.choice([dict, lambda x: Scenario(**x)])(e)
                        new = sc | o if op == "or" else o | sc if op == "ror" else Scenario(**sc, **{k: v for k, v in e.items() if k not in sc})
                        live.append((new, {**d, **e} if op == "or" else {**e, **d} if op == "ror" else {**d, **{k: v for k, v in e.items() if k not in d}}))
                        if dict(o) != e:
                            bad("scenario/operand", "%s changed its operand" % op, dict(operations=log[-12:]))
                    elif op == "ior":
                        e = {k: rand_value(rng) for k in rng.sample(KEYS, 2)}
                        log.append((op, i, e))
                        new = sc
                        new |= e
                        d.update(e)
                        if new is not sc:
                            bad("scenario/operand", "|= made another scenario", dict(operations=log[-12:]))
                    elif op in ("pop", "setdefault"):
                        k, v = rng.choice(KEYS), rand_value(rng)
                        log.append((op, i, k, v))
                        a, b = getattr(sc, op)(k, v), getattr(d, op)(k, v)
                        if a is not b and a != b:
                            bad("scenario/" + op, "%s(%r, %r) returned %r" % (op, k, v, a), dict(operations=log[-12:]))
                        new = sc
                    elif op == "absent":
                        k = rng.choice([q for q in KEYS + UNKNOWN if q not in d])
                        what = rng.choice(["del", "item", "pop", "popitem", "attribute"])
                        log.append((op, i, what, k))

                        def attempt(x):
                            try:
                                if what == "del":
                                    del x[k]
                                elif what == "popitem":
                                    x.clear()
                                    x.popitem()
                                else:
                                    return x[k] if what == "item" else x.pop(k) if what == "pop" else getattr(x, k)
                            except Exception as e:
                                return type(e).__name__

                        a, b = attempt(sc), attempt(d)
                        if a != b:
                            bad("scenario/absent/" + what, "%s of %r, which is not set, gave %r where a dictionary gives %r" % (what, k, a, b), dict(operations=log[-12:]))
                        new = sc
                    elif op == "clear":
                        log.append((op, i))
                        if rng.random() < 0.5:
                            sc.clear()
                            d.clear()
                        elif d:
                            a = sc.popitem()
                            if d.pop(a[0], a) != a[1]:
                                bad("scenario/popitem", "popitem returned %r" % (a,), dict(operations=log[-12:]))
                        new = sc
                    elif op == "del" and d:
                        k = rng.choice(sorted(d))
                        log.append((op, i, k))
                        del sc[k]
                        del d[k]
                        new = sc
                    elif op == "repr":
                        log.append((op, i))
                        t = repr(sc)
                        for k in ("mag", "dist_jb"):
                            if isinstance(d.get(k), (int, float)) and str(d[k]) not in t:
                                bad("scenario/repr", "repr %r does not show %s=%r" % (t, k, d[k]), dict(operations=log[-12:]))
                        new = sc
                    elif op == "eq":
                        same = Scenario(**d)
                        if not (same == sc) or (same != sc):
                            bad("scenario/eq", "a scenario with the same contents is not equal", dict(contents=d))
                        k, v = rng.choice(KEYS), "another value"
                        other = Scenario(**{**d, k: v})
                        if other == sc or not (other != sc) or (sc == d) is not True:
                            bad("scenario/eq", "a scenario with another %s is equal, or one is not equal to its own contents" % k, dict(contents=d))
                        new = sc
                    else:
                        new = sc
                    if not isinstance(new, Scenario):
                        bad("scenario/type", "%s returned %s" % (op, type(new).__name__), dict(operations=log[-12:]))
            except Exception as e:  # any other exception escaping an operation
                bad("scenario/raised", "%s raised %r" % (op, e), dict(operations=log[-12:]))
            for sc, d in live:
                agree(sc, d, op, log)
        ctx.case(str(log), nontrivial=any(d for _, d in live), sample=dict(operations=[str(x)[:90] for x in log[:4]]))
    for k in KEYS:
        ctx.case(("key", k))
        try:
            if Scenario(**{k: 1.5})[k] != 1.5:
                bad("scenario/known", "key %s" % k, {})
        except Exception as e:
            bad("scenario/known", "documented key %s raised %r" % (k, e), {})
    ctx.require(ctx.counters.get("unknown_rejected", 0) > 50, "unknown keys never exercised")


def quiet_build(spec, s, cls, how="scenario"):
    """Instance plus the UserWarnings and log records its construction emitted."""
    recs = []

    class H(logging.Handler):
        def emit(self, r):
            recs.append((r.levelno, r.getMessage()))

    h = H()
    root = logging.getLogger()
    root.addHandler(h)
    logging.disable(logging.NOTSET)
    try:
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            m = sut.build(spec, s, how, None, cls)
    finally:
        root.removeHandler(h)
        logging.disable(logging.CRITICAL)
    return m, [(w.category, str(w.message)) for w in ws], recs


def norm(v):
    return None if v is None else v


def same_value(a, b):
    if a is None or b is None:
        return a is b
    return a == b


UNUSUAL = ["bogus", "strike-slip", "ss", "Japan", "", 7, "GLOBAL", "None", "bogus", "ss", "%s", "100%d", "{0}", "{name}", ("SS", "RS"), ("SS",), (), ["SS"], {"SS": 1}, b"SS", 7.5, -1, "S", "SSS",
           "SS ", " japan", "californiajapan", "N" * 300, "caf\u00e9", 10**30]


def input_validation(ctx):
    """Required inputs, defaults and options of every model."""
    import numpy as np

    rng = ctx.rng
    ctx.rule = (
        "for every model: random admissible inputs with required inputs removed or None, optional inputs left out, and "
        "categorical inputs replaced by unrecognised values; plus the advertised parameter table. Distinct by model, "
        "manipulated inputs and values"
    )
    with Reach() as reach:
        for name in models.ORDER:
            spec = models.SPECS[name]
            cls = spec.load()
            adv = {p.name: p for p in cls.PARAMS}
            if set(adv) != set(spec.pmap):
                ctx.violation(name + "/inputs", "the model advertises inputs %s" % sorted(adv), dict(expected=sorted(spec.pmap)))
            for p in spec.params:
                a = adv.get(p.name)
                if a is None:
                    continue
                ctx.case((name, "advertised", p.name))
                got = dict(required=bool(a.required), default=a.default)
                want = dict(required=p.req, default=p.default)
                if p.cat:
                    got["options"], want["options"] = sorted(map(str, getattr(a, "options", []))), sorted(map(str, p.options))
                else:
                    got["limits"], want["limits"] = (getattr(a, "min", 0), getattr(a, "max", 0)), (p.lo, p.hi)
                if got != want:
                    ctx.violation(name + "/advertised/" + p.name, "advertised %s, documented %s" % (got, want), {})
            req = [p for p in spec.params if p.req]
            opt = [p for p in spec.params if not p.req and p.default is not None]
            cats = [p for p in spec.params if p.cat]
            if name == "GA11":  # the model that takes its inputs as keywords
                for it in range(ctx.n(60)):
                    s = gen.clean(gen.scenario(spec, rng, "limits", rng.choice([0.2, 1.0])))
                    t = rng.choice(["distance", "Mag", "v_s30_", "dist", "magnitude", "_mag", "depth", "mech", "kind", "pga"])
                    other = rng.choice(["dip", "dist_jb", "region", "width"])  # inputs of other models
                    ctx.case((name, "keywords", t, gen.key(s)))
                    ctx.count("keyword_names")
                    try:
                        m = sut.build(spec, dict(s, **{other: rng.choice([None, 45.0])}), "kwargs", None, cls)
                        if models.compare(models.observe(spec, m, np), sut.evaluate(spec, s, np, "scenario", None, cls), np, 0)[1]:
                            ctx.violation(name + "/keywords", "inputs given by keyword give other values", dict(inputs=s))
                    except Exception as e:
                        ctx.violation(name + "/keywords-raised", "inputs given by keyword with %s raised %r" % (other, e), dict(inputs=s))
                    try:
                        cls(**dict(s, **{t: 1.0}))
                    except Exception as e:
                        if t not in str(e):
                            ctx.violation(name + "/keyword-name", "the error for keyword %r does not name it: %s" % (t, e), dict(inputs=s))
                    else:
                        ctx.violation(name + "/keyword", "the unknown keyword %r was accepted" % t, dict(inputs=s))
            for it in range(ctx.n(60)):
                s = gen.scenario(spec, rng, "limits", rng.choice([0.2, 1.0]))
                # missing required inputs
                drop = rng.sample(req, 1 if rng.random() < 0.8 else rng.randint(1, len(req)))
                t = dict(s)
                for p in drop:
                    t[p.name] = None
                how = rng.choice(["scenario", "none", "dict"])
                ctx.case((name, "missing", tuple(p.name for p in drop), how, gen.key(s)), sample=dict(model=name, missing=[p.name for p in drop]))
                try:
                    sut.build(spec, t, how, None, cls)
                except ValueError as e:
                    ctx.count("missing_required_rejected")
                    if not any(p.name in str(e) for p in drop):
                        ctx.violation(name + "/required-name", "the error %r does not name the missing input" % e, dict(missing=[p.name for p in drop]))
                except Exception as e:
                    ctx.violation(name + "/required", "missing %s raised %r" % ([p.name for p in drop], e), dict(inputs=t))
                else:
                    ctx.violation(name + "/required", "missing required %s was accepted" % [p.name for p in drop], dict(inputs=t))
                # defaults
                if opt:
                    t, u = dict(s), dict(s)
                    k = rng.sample(opt, rng.randint(1, len(opt)))
                    for p in k:
                        t[p.name], u[p.name] = None, p.default
                    if spec.fix:
                        t0 = dict(t)
                        spec.fix(t0, random.Random(0))
                        if t0 != t:
                            continue
                    try:
                        a = sut.build(spec, t, rng.choice(["scenario", "none", "dict"]), None, cls)
                        b = sut.build(spec, u, "scenario", None, cls)
                    except Exception as e:
                        ctx.violation(name + "/default-raised", "leaving out %s raised %r" % ([p.name for p in k], e), dict(inputs=t))
                        continue
                    ctx.case((name, "default", tuple(p.name for p in k), gen.key(s)))
                    for p in k:
                        if not same_value(a.scenario[p.name], p.default):
                            ctx.violation(name + "/default/" + p.name, "unset %s became %r" % (p.name, a.scenario[p.name]), dict(inputs=t))
                    oa, ob = models.observe(spec, a, np), models.observe(spec, b, np)
                    if sut.digest(oa) != sut.digest(ob):
                        ctx.violation(name + "/default-values", "leaving out %s differs from giving the default" % [p.name for p in k], dict(inputs=t))
                # unrecognised categorical values
                if cats and name != "PR24":
                    p = rng.choice(cats)
                    v = rng.choice(UNUSUAL + [f(str(o)) for o in p.options for f in (str, str.upper, str.lower, str.title, lambda x: " " + x, lambda x: x + "\n", lambda x: x[:-1], str.encode, lambda x: (x,))])
                    if v in p.options:
                        continue
                    t = dict(s)
                    t[p.name] = v
                    try:
                        m, ws, _ = quiet_build(spec, t, cls)
                    except Exception as e:
                        if p.default is None:
                            ctx.count("unrecognised_without_default_rejected")
                            continue
                        ctx.violation(name + "/option-raised", "%s=%r raised %r" % (p.name, v, e), dict(inputs=t))
                        continue
                    ctx.case((name, "option", p.name, str(v), gen.key(s)))
                    ctx.count("unrecognised_options")
                    if not any(issubclass(c, UserWarning) and p.name in msg and str(v) in msg for c, msg in ws):
                        ctx.violation(name + "/option-warning", "no warning names %s=%r: %s" % (p.name, v, ws), dict(inputs=t))
                    elif not any(p.name in msg and all(str(o) in msg for o in p.options) for c, msg in ws):
                        ctx.violation(name + "/option-list", "the warning for %s does not list the options: %s" % (p.name, ws), dict(inputs=t))
                    if not same_value(m.scenario[p.name], p.default):
                        ctx.violation(name + "/option-default/" + p.name, "%s=%r became %r, default is %r" % (p.name, v, m.scenario[p.name], p.default), dict(inputs=t))
                    if p.default is not None:
                        u = dict(t)
                        u[p.name] = p.default
                        b = sut.build(spec, u, "scenario", None, cls)
                        if sut.digest(models.observe(spec, m, np)) != sut.digest(models.observe(spec, b, np)):
                            ctx.violation(name + "/option-values", "%s=%r does not give the default's values" % (p.name, v), dict(inputs=t))
                    # a recognised value is kept, silently
                    for o in p.options:
                        u = dict(s)
                        u[p.name] = o
                        if spec.fix:
                            spec.fix(u, rng)
                            if u[p.name] != o:
                                continue
                        m, ws, _ = quiet_build(spec, u, cls)
                        if not same_value(m.scenario[p.name], o) or any("one of the options" in x and p.name in x for _, x in ws):
                            ctx.violation(name + "/option-kept/" + p.name, "recognised %s=%r became %r (%s)" % (p.name, o, m.scenario[p.name], ws), dict(inputs=u))
                        if o is not None and rng.random() < 0.2:  # the same option as another object
                            u[p.name] = rng.choice([np.str_(o), "".join(list(o))]) if isinstance(o, str) else np.bool_(o) if isinstance(o, bool) else o
                            b, ws, _ = quiet_build(spec, u, cls)
                            ctx.count("options_as_other_objects")
                            if b.scenario[p.name] != o or any("one of the options" in x and p.name in x for _, x in ws) or sut.digest(models.observe(spec, b, np)) != sut.digest(models.observe(spec, m, np)):
                                ctx.violation(name + "/option-object/" + p.name, "%s=%r given as %s is not the option %r (%s)" % (p.name, u[p.name], type(u[p.name]).__name__, o, ws), dict(inputs=u))
    ctx.counters["reach"] = reach.report()
    hermkes.declared_inputs(ctx, "options")
    ctx.require(ctx.counters.get("missing_required_rejected", 0) > 200, "missing inputs never exercised")


NUM = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?")


def mech_limit(name, s):
    """(applies, violated) of the mechanism-specific magnitude limits."""
    M, f = s["mag"], s.get("mechanism")
    if name == "BSSA14":
        lim = {"SS": (3.0, 8.5), "NS": (3.0, 7.0)}.get(f)
    elif name == "CY14":
        lim = (3.5, 8.0) if f in ("RS", "NS") else (3.5, 8.5)
    elif name == "CB14":
        lim = (None, {"SS": 8.5, "RS": 8.0, "NS": 7.5}[f])
    else:
        return False, False
    if lim is None:
        return True, False
    return True, (lim[0] is not None and M < lim[0]) or M > lim[1]


def limit_warnings(ctx):
    """Recommended limits: exactly the inputs outside them are reported."""
    rng = ctx.rng
    ctx.rule = (
        "for every model, inputs placed inside, on, one float beyond and far beyond each recommended limit; the emitted "
        "UserWarnings and log records are matched with the documented limits. Distinct by model and inputs"
    )
    import math

    import numpy as np

    for name in models.ORDER:
        spec = models.SPECS[name]
        cls = spec.load()
        lim = [p for p in spec.params if not p.cat and (p.lo is not None or p.hi is not None)]
        mlim = [p for p in spec.params if p.name == "mag" and mech_limit(name, dict(mag=6.0, mechanism="SS"))[0]]
        if not lim:
            continue
        for _ in range(ctx.n(400)):
            s = gen.scenario(spec, rng, "limits", 0.7)
            for p in rng.sample(lim, rng.randint(1, min(3, len(lim)))):
                ends = [x for x in (p.lo, p.hi) if x is not None]
                x = float(rng.choice(ends))
                r = rng.random()
                out = 1 if x == p.hi else -1
                if r < 0.25:
                    v = x
                elif r < 0.4:
                    v = math.nextafter(x, out * math.inf)
                elif r < 0.55:
                    v = math.nextafter(x, -out * math.inf)
                elif r < 0.8:
                    v = x + out * rng.uniform(0.01, 0.5) * max(1.0, 0.1 * abs(x))
                else:
                    v = x - out * rng.uniform(0, 0.5) * min(1.0, abs(x) or 1)
                if p.name in ("v_s30", "pga_ref") and v <= 0:
                    v = x / 2
                if float(v).is_integer() and rng.random() < 0.3:
                    v = rng.choice([int, int, np.int64, np.int32, np.int16])(v)
                elif rng.random() < 0.15:  # numbers of numpy, of few digits
                    v = rng.choice([np.float32, np.float64])(math.floor(v * 8) / 8)
                s[p.name] = v
            if mlim and rng.random() < 0.5:
                s["mag"] = rng.choice([3.0, 3.5, 6.99, 7.0, 7.0001, 7.5, 7.51, 8.0, 8.01, 8.5, 8.51, 3.49, 2.99])
            if name == "TP05":
                s["mag"] = min(s["mag"], 8.45)
            if spec.fix:
                spec.fix(s, rng)
            if spec.name in ("C03", "Pea11", "AGA16", "DBC14"):
                gen.domain(spec, s)
            wit = dict(model=name, inputs=gen.clean(s))
            try:
                m, ws, recs = quiet_build(spec, s, cls, rng.choice(["scenario", "dict", "none"]))
            except Exception as e:
                ctx.violation(name + "/raised", "out-of-limit inputs raised %r" % e, wit)
                continue
            expected = 0
            user = [msg for c, msg in ws if issubclass(c, UserWarning)]
            for p in lim:
                v = s[p.name]
                if v is None:
                    v = p.default
                hits = [msg for msg in user if re.search(r"(?<![A-Za-z0-9_])%s(?![A-Za-z0-9_])" % re.escape(p.name), msg) and "option" not in msg]
                side = None
                if v is not None:
                    if p.lo is not None and v < p.lo:
                        side = p.lo
                    elif p.hi is not None and v > p.hi:
                        side = p.hi
                if side is None:
                    if hits:
                        ctx.violation(name + "/limit-false/" + p.name, "%s=%r is inside [%s, %s] but warned: %s" % (p.name, v, p.lo, p.hi, hits), wit)
                    continue
                expected += 1
                ctx.count("limit_exceedances")
                ok = False
                for msg in hits:
                    nums = [float(x) for x in NUM.findall(msg.replace(p.name, " "))]
                    word = "less" if side == p.lo and v < p.lo else "greater"
                    if any(abs(x - v) <= 1e-12 * max(1, abs(v)) for x in nums) and any(x == side for x in nums) and word in msg:
                        ok = True
                if not hits:
                    ctx.violation(name + "/limit-missing/" + p.name, "%s=%r is outside [%s, %s] but no warning names it: %s" % (p.name, v, p.lo, p.hi, user), wit)
                elif not ok:
                    ctx.violation(name + "/limit-text/" + p.name, "the warning for %s=%r does not give the value and the limit %s: %s" % (p.name, v, side, hits), wit)
                elif len(hits) != 1:
                    ctx.violation(name + "/limit-repeat/" + p.name, "%d warnings for %s" % (len(hits), p.name), wit)
            if name != "HKR14" and spec.pmap.get("mechanism"):
                ms = dict(s, mechanism=s["mechanism"] if s["mechanism"] is not None else spec.pmap["mechanism"].default)
                applies, viol = mech_limit(name, ms)
                if applies:
                    logged = [r for r in recs if r[0] >= logging.WARNING and ("agnitude" in r[1] or "mag" in r[1])]
                    if viol:
                        ctx.count("mechanism_limit_exceedances")
                    if viol and not logged:
                        ctx.violation(name + "/mechanism-limit-missing", "magnitude %r with mechanism %s was not reported" % (s["mag"], ms["mechanism"]), wit)
                    if logged and not viol:
                        ctx.violation(name + "/mechanism-limit-false", "magnitude %r with mechanism %s was reported: %s" % (s["mag"], ms["mechanism"], logged), wit)
                    if viol and logged and not any(("%g" % s["mag"]) in r[1] for r in logged):
                        ctx.violation(name + "/mechanism-limit-text", "the report does not give the magnitude: %s" % logged, wit)
            # the caller decides what becomes of the reports
            if rng.random() < 0.2:
                for action in ("error", "ignore"):
                    raised = None
                    with warnings.catch_warnings(record=True) as shown:
                        warnings.simplefilter(action, UserWarning)
                        try:
                            sut.build(spec, s, "scenario")
                        except UserWarning as e:
                            raised = str(e)
                    ctx.count("reports_raised", raised is not None)
                    if action == "error" and (raised is None) == bool(user):
                        ctx.violation(name + "/limit-as-error", "with reports turned into errors the model %s although it has the reports %s" % ("raised %r" % raised if raised else "was built", user), wit)
                    if action == "ignore" and (raised or any(issubclass(w.category, UserWarning) for w in shown)):
                        ctx.violation(name + "/limit-ignored", "with reports ignored there was still %r %s" % (raised, [str(w.message) for w in shown]), wit)
            # the value outside the limits is used as given
            for p in spec.params:
                if s[p.name] is not None and not same_value(m.scenario[p.name], s[p.name]):
                    ctx.violation(name + "/limit-value/" + p.name, "%s=%r became %r" % (p.name, s[p.name], m.scenario[p.name]), wit)
            ctx.case((name, gen.key(s)), nontrivial=True, sample=dict(model=name, inputs=gen.clean(s), warnings=user[:2], expected=expected))
    # a long run of inputs outside: the last ones are reported as the first
    light = [n for n in ("C03", "TP05", "I14", "Pea11", "AB06", "BSSA14", "KS06", "AS96", "AS16") if any(p.lo or p.hi for p in models.SPECS[n].params if not p.cat)]
    for name in rng.sample(light, 2):
        spec = models.SPECS[name]
        cls = spec.load()
        s = gen.scenario(spec, rng, "limits", 0.5)
        q = rng.choice([(p, side) for p in spec.params if not p.cat for side in (p.lo, p.hi) if side])
        for i in range(ctx.n(700, 4000)):
            s[q[0].name] = q[1] * (rng.uniform(0.9, 0.99) if q[1] == q[0].lo else rng.uniform(1.001, 1.02))
            try:
                with warnings.catch_warnings(record=True) as ws:
                    warnings.simplefilter("always")
                    sut.build(spec, s, "scenario", None, cls)
            except Exception as e:
                ctx.violation(name + "/raised", "out-of-limit inputs raised %r" % e, dict(model=name, inputs=gen.clean(s)))
                break
            ctx.count("long_run_exceedances")
            if not any(issubclass(w.category, UserWarning) and re.search(r"(?<![A-Za-z0-9_])%s(?![A-Za-z0-9_])" % q[0].name, str(w.message)) for w in ws):
                ctx.violation(name + "/limit-missing/" + q[0].name, "after %d such reports %s=%r is not reported" % (i, q[0].name, s[q[0].name]), dict(model=name, inputs=gen.clean(s)))
                break
    hermkes.declared_inputs(ctx, "limits")
    ctx.require(ctx.counters.get("limit_exceedances", 0) > 300, "limits hardly exceeded")


def isolation(ctx):
    """A model depends only on the values of its declared inputs at construction."""
    import numpy as np
    from pygmm import Scenario

    rng = ctx.rng
    ctx.rule = (
        "one Scenario shared by several models, handed over in different forms and numeric types, carrying undeclared inputs, "
        "and edited between and after constructions; all observations must equal those of a private scenario. "
        "Distinct by model, inputs and manipulation"
    )
    junk = {
        "depth_1_0": 0.7, "depth_2_5": 2.2, "depth_tor": 3.3, "depth_bor": 14.0, "depth_bot": 17.0, "depth_hyp": 9.0, "dip": 60.0,
        "dist_crjb": 7.0, "dist_jb": 33.0, "dist_epi": 44.0, "dist_hyp": 48.0, "dist_rup": 36.0, "dist_x": 12.0, "dist_y0": 3.0,
        "dpp_centered": 1.0, "event_type": "interface", "is_aftershock": True, "mechanism": "RS", "on_hanging_wall": True,
        "pga_ref": 0.2, "region": "japan", "site_cond": "soil", "tectonic_region": "backarc", "vs_source": "inferred", "width": 11.0,
    }
    for name in models.ORDER:
        spec = models.SPECS[name]
        cls = spec.load()
        for _ in range(ctx.n(60)):
            s = gen.scenario(spec, rng, "limits", 0.5)
            wit = dict(model=name, inputs=gen.clean(s))
            ctx.case((name, gen.key(s)), sample=wit)
            try:
                ref = models.observe(spec, sut.build(spec, s, "scenario", None, cls), np)
                d0 = sut.digest(ref)
                # undeclared inputs
                extra = {k: v for k, v in junk.items() if k not in spec.pmap and rng.random() < 0.7}
                full = Scenario(**gen.clean(s), **extra)
                before = copy.deepcopy(dict(full))
                m = cls(full)
                if sut.digest(models.observe(spec, m, np)) != d0:
                    ctx.violation(name + "/undeclared", "undeclared inputs %s change the result" % sorted(extra), wit)
                if dict(full) != before or list(full) != list(before):
                    ctx.violation(name + "/caller-scenario", "the caller's scenario became %r" % dict(full), wit)
                if m.scenario is full or getattr(m.scenario, "data", None) is full.data:
                    ctx.violation(name + "/shared-scenario", "the model keeps the caller's scenario object", wit)
                # same values in other forms
                for how in ("none", "dict", "copy_with"):
                    if sut.digest(sut.evaluate(spec, s, np, how, None, cls)) != d0:
                        ctx.violation(name + "/form/" + how, "inputs given as %s change the result" % how, wit)
                t = {k: (np.float64(v) if isinstance(v, (int, float)) and not isinstance(v, bool) else v) for k, v in s.items()}
                o = sut.evaluate(spec, t, np, "scenario", None, cls)
                _, bad = models.compare(ref, o, np, 1e-9)
                if bad:
                    ctx.violation(name + "/numpy-inputs", "numpy floats change %s: %r vs %r" % (bad[0], bad[2], bad[3]), wit)
                u = dict(s)
                for p in spec.params:
                    if not p.cat and u[p.name] is not None and p.name not in ("pga_ref", "depth_1_0"):
                        u[p.name] = float(max(1, round(u[p.name])))
                spec.fix and spec.fix(u, rng)
                i = {k: (int(v) if isinstance(v, float) and v.is_integer() else v) for k, v in u.items()}
                a, b = sut.evaluate(spec, u, np, "scenario", None, cls), sut.evaluate(spec, i, np, "scenario", None, cls)
                _, bad = models.compare(a, b, np, 1e-9)
                if bad:
                    ctx.violation(name + "/integer-inputs", "integers change %s: %r vs %r" % (bad[0], bad[2], bad[3]), dict(model=name, inputs=i))
                # the same numbers as numpy numbers of few bits
                w = {k: (rng.choice([np.int16, np.int32, np.int64, np.uint16, np.float16, np.float32])(v) if isinstance(v, float) and v.is_integer() and 0 <= v < 2048
                         else np.str_(v) if isinstance(v, str) and rng.random() < 0.5 else np.bool_(v) if isinstance(v, bool) else v) for k, v in u.items()}
                try:
                    b = sut.evaluate(spec, w, np, "scenario", None, cls)
                except Exception as e:
                    ctx.violation(name + "/narrow-inputs-raised", "%r" % e, dict(model=name, inputs={k: repr(v) for k, v in w.items()}))
                else:
                    _, bad = models.compare(a, b, np, 1e-9)
                    if bad:
                        ctx.violation(name + "/narrow-inputs", "numpy numbers of few bits change %s: %r vs %r" % (bad[0], bad[2], bad[3]), dict(model=name, inputs={k: repr(v) for k, v in w.items()}))
                # the scenario is edited after construction
                shared = Scenario(**gen.clean(s))
                m1 = cls(shared)
                other = gen.neighbour(spec, s, rng, "limits")
                for k, v in other.items():
                    shared[k] = v
                for k in list(shared):
                    if rng.random() < 0.3:
                        shared[k] = None
                if sut.digest(models.observe(spec, m1, np)) != d0:
                    ctx.violation(name + "/edited-after", "editing the scenario after construction changes the model", dict(wit, edited=gen.clean(other)))
                kept = {k: m1.scenario[k] for k in spec.pmap if s[k] is not None}
                if any(not same_value(kept[k], s[k]) for k in kept):
                    ctx.violation(name + "/recorded", "the model records %r" % kept, wit)
                # the model's record is edited: the caller is not affected
                mine = Scenario(**gen.clean(s))
                m2 = cls(mine)
                snap = dict(mine)
                for k in list(m2.scenario):
                    m2.scenario[k] = None
                if dict(mine) != snap or sut.digest(sut.evaluate(spec, s, np, "scenario", None, cls)) != d0:
                    ctx.violation(name + "/record-shared", "editing one model's record leaks", wit)
            except Exception as e:
                ctx.violation(name + "/raised/" + type(e).__name__, "%s raised %r" % (name, e), wit)
        ctx.count("models")
    # one scenario shared by all the models, in random orders
    for _ in range(ctx.n(40)):
        allv = dict(junk, mag=round(rng.uniform(5.2, 6.9), 2), v_s30=float(rng.randint(460, 780)))
        allv.update(
            depth_hyp=rng.uniform(5, 20), dist_rup=rng.uniform(12, 140), dip=rng.uniform(30, 90), mechanism=rng.choice(["SS", "RS"]),
            on_hanging_wall=rng.random() < 0.5, region=rng.choice(["japan", "china", "italy", "california"]),
        )
        for k in list(allv):
            if k in ("depth_1_0", "depth_2_5", "depth_tor", "depth_bor", "width", "depth_hyp", "depth_bot") and rng.random() < 0.4:
                allv[k] = None
        names = [n for n in models.ORDER if n not in ("PR24",) and not (n in ("DBC14", "BA19") and (allv["depth_hyp"] is None or allv["depth_tor"] is None))]
        rng.shuffle(names)
        shared = Scenario(**allv)
        snap = dict(shared)
        ctx.case(("shared", tuple(names), tuple(map(str, allv.values()))))
        for n in names:
            spec = models.SPECS[n]
            cls = spec.load()
            own = {p.name: allv.get(p.name) for p in spec.params}
            try:
                a = models.observe(spec, cls(shared), np)
                b = sut.evaluate(spec, own, np, "scenario", None, cls)
            except Exception as e:
                ctx.violation(n + "/shared-raised", "%r" % e, dict(inputs=allv, order=names))
                continue
            if sut.digest(a) != sut.digest(b):
                ctx.violation(n + "/shared", "a scenario shared with other models gives other values", dict(inputs=allv, order=names))
            if dict(shared) != snap:
                ctx.violation(n + "/caller-scenario", "the shared scenario was modified", dict(inputs=snap, after=dict(shared)))
                shared = Scenario(**allv)
