"""Models defined on the base classes, and what evaluations leave in memory."""
import copy
import gc
import math
import os
import pickle
import re
import threading
import tracemalloc
import warnings
import weakref

from .. import gen, models, sut, workload
from ..reach import Reach
from .container import KEYS, NUM, UNKNOWN, same_value

CATS = ["mechanism", "region", "site_cond", "event_type", "vs_source", "is_aftershock", "on_hanging_wall", "tectonic_region"]
NUMS = [k for k in KEYS if k not in CATS]
LABELS = ["SS", "NS", "RS", "U", "japan", "global", "soil", "rock", "slab", "", "x y", "None", True, False]


class Decl:
    """Declaration of one input of a generated model."""

    def __init__(self, name, cat, req, default, lo=None, hi=None, options=()):
        self.name, self.cat, self.req, self.default, self.lo, self.hi, self.options = name, cat, req, default, lo, hi, list(options)

    def make(self, M, rng):
        if self.cat:
            return M.CategoricalParameter(self.name, self.req, self.options, self.default) if rng.random() < 0.5 else M.CategoricalParameter(
                name=self.name, required=self.req, options=self.options, default=self.default)
        return M.NumericParameter(self.name, self.req, self.lo, self.hi, self.default) if rng.random() < 0.5 else M.NumericParameter(
            self.name, required=self.req, min_=self.lo, max_=self.hi, default=self.default)


def declarations(rng):
    out = []
    for k in rng.sample(NUMS, rng.randint(1, 6)):
        lo = rng.choice([None, 0, 0.0, -10, rng.uniform(-5, 5), rng.uniform(10, 200)])
        hi = rng.choice([None, 0 if lo is None else None, (lo or 0) + rng.uniform(0, 100), lo])
        req = rng.random() < 0.4
        inside = lo if lo is not None else hi if hi is not None else 1.0
        d = None if req else rng.choice([None, 0, 0.0, 1, inside, rng.uniform(-500, 500)])
        if d is not None and ((lo is not None and d < lo) or (hi is not None and d > hi)):
            d = inside  # what a default outside the limits reports is not judged
        out.append(Decl(k, False, req, d, lo, hi))
    for k in rng.sample(CATS, rng.randint(0, 3)):
        opts = [v for i, v in enumerate(rng.sample(LABELS, rng.randint(1, 5)))]
        opts = [v for i, v in enumerate(opts) if v not in opts[:i]]
        req = rng.random() < 0.5
        # an optional label without default is reported when left out: not judged
        d = rng.choice(opts) if not req or rng.random() < 0.3 else None
        out.append(Decl(k, True, req, d, options=opts))
    rng.shuffle(out)
    return out


def weight(name, value):
    """Effect of one resolved input on the responses of a generated model."""
    if value is None:
        return 0.013 * len(name)
    if isinstance(value, (bool, str)):
        return 0.01 * len(name) + 0.001 * sum(map(ord, str(value)))
    return 0.002 * value + 0.0001 * len(name)


def given(rng, decls):
    """Inputs for a generated model: (scenario, expected values, names to be reported with their limit, categories reported)."""
    s, want, out, odd = {}, {}, {}, {}
    for d in decls:
        if not d.req and rng.random() < 0.35:
            want[d.name] = d.default
            if rng.random() < 0.3:
                s[d.name] = None
            continue
        if d.cat:
            if d.default is not None and rng.random() < 0.25:
                v = rng.choice(["bogus", "Ss", "GLOBAL", "-", 7, ("bogus", "Ss"), "%s", "{0}", ["bogus"]])
                s[d.name], want[d.name] = v, d.default
                odd[d.name] = v
            else:
                s[d.name] = want[d.name] = rng.choice(d.options)
            continue
        ends = [e for e in (d.lo, d.hi) if e is not None]
        r = rng.random()
        if not ends or r < 0.3:
            v = rng.choice([0, 0.0, rng.uniform(-20, 250), rng.randint(-3, 300)])
        else:
            e = rng.choice(ends)
            v = rng.choice([e, math.nextafter(e, math.inf), math.nextafter(e, -math.inf), e + rng.uniform(-50, 50)])
        s[d.name] = want[d.name] = v
        if d.lo is not None and v < d.lo:
            out[d.name] = (v, d.lo, "less")
        elif d.hi is not None and v > d.hi:
            out[d.name] = (v, d.hi, "greater")
    return s, want, out, odd


def generate(rng, np, M, n, base=None, taken=()):
    """A model class on the package's base classes and what it is meant to do."""
    decls = declarations(rng)
    nt = rng.randint(2, 9)
    T = sorted({round(10 ** rng.uniform(-2, 1), 3) for _ in range(nt)} | {0.1, 0.7})
    extra = rng.sample(["pga", "pgv", "pgd"], rng.randint(0, 3))
    slots = ["t"] * len(T)
    for e in extra:
        slots.insert(rng.choice([0, len(slots)]), e)
    periods, psa, index, it = [], [], {}, iter(T)
    for i, k in enumerate(slots):
        if k == "t":
            psa.append(i)
            periods.append(next(it))
        else:
            index[k] = i
            periods.append({"pga": 0.0, "pgv": -1.0, "pgd": -2.0}[k])
    for k in ("pga", "pgv", "pgd"):
        if k not in index and rng.random() < 0.1:
            index[k] = rng.choice([psa[0], psa[-1], rng.choice(psa)])  # the motion is one of the ordinates
        if k in index and rng.random() < 0.2:
            index[k] = np.int64(index[k])
    a = [rng.uniform(-6, 0.5) for _ in slots]
    b = [rng.uniform(0.3, 0.9) for _ in slots]
    has_std = rng.random() < 0.8
    scale = {k: rng.choice([1.0, 1.0, 100.0, 980.665, 0.01]) for k in ("pgv", "pgd")}

    def __init__(self, scenario):
        M.GroundMotionModel.__init__(self, scenario)
        t = sum(weight(d.name, self.scenario[d.name]) for d in decls)
        self._ln_resp = np.array(a) + t
        self._ln_std = np.array(b) + 0.0001 * t if has_std else None

    body = dict(__init__=__init__, NAME="Generated %d" % n, ABBREV="G%d" % n, PARAMS=[d.make(M, rng) for d in decls], PERIODS=np.array(periods),
                INDICES_PSA=np.array(psa), __module__=__name__)
    r = rng.random()
    if r < 0.15:  # other ways to pick them
        body["INDICES_PSA"] = np.array([i in psa for i in range(len(slots))])
    elif r < 0.3 and psa == list(range(psa[0], psa[-1] + 1)):
        body["INDICES_PSA"] = slice(psa[0], psa[-1] + 1)
    elif r < 0.4:
        body["INDICES_PSA"] = rng.choice([list(psa), np.array(psa, dtype=np.int16), np.array(psa) - len(slots)])
    for k in ("pga", "pgv", "pgd"):
        if k in index:
            # counted from either end
            body["INDEX_" + k.upper()] = index[k] - len(slots) if rng.random() < 0.2 else index[k]
        elif base is not None:
            body["INDEX_" + k.upper()] = None
    for k, v in scale.items():
        if v != 1.0 or base is not None:
            body[k.upper() + "_SCALE"] = v
    if taken and rng.random() < 0.3:  # another class of the same name
        twin = rng.choice(taken)
        name, body["NAME"], body["ABBREV"] = twin.__name__, twin.NAME, twin.ABBREV
    else:
        name = "Generated%d" % n
    cls = type(name, (base or M.GroundMotionModel,), body)
    globals().setdefault(cls.__name__, cls)  # for pickle
    return cls, dict(decls=decls, T=T, psa=psa, index=index, a=a, b=b, has_std=has_std, scale=scale)


def framework(ctx):
    """Generated models get from the base classes what the models of the package get."""
    import numpy as np
    import pygmm
    from pygmm import model as M

    rng = ctx.rng
    ctx.rule = (
        "model classes generated on the base classes (inputs, limits, defaults, options, periods, positions of the peak motions, scales, with and without variability, "
        "some inherited from another generated class), evaluated for inputs around their limits; every declared property, warning, "
        "recorded input and accessor is judged by the declaration. Distinct by class and inputs"
    )

    def near(x, y):
        x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
        return x.shape == y.shape and bool(np.all((np.abs(x - y) <= 1e-9 * np.maximum(1, np.abs(y))) | (np.isnan(x) & np.isnan(y))))

    def judge(cls, g):
        decls = g["decls"]
        s, want, out, odd = given(rng, decls)
        stray = {k: rng.uniform(0, 9) for k in rng.sample(KEYS, rng.randint(0, 4)) if k not in {d.name for d in decls}}
        wit = dict(declared=[vars(d) for d in decls], inputs=s, stray=stray)
        full = dict(s, **stray)
        arg = rng.choice([lambda: pygmm.Scenario(**full), lambda: dict(full), lambda: pygmm.Scenario(**full).copy(), lambda: pygmm.Scenario().copy_with(**full)])()
        before = dict(arg)
        ctx.case((cls.__name__, repr(sorted(s.items()))), sample=dict(inputs=s, reported=sorted(out) + sorted(odd)))
        try:
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                m = cls(arg)
        except Exception as e:
            return ctx.violation("generated/raised", "acceptable inputs raised %r" % e, wit)
        texts = [str(w.message) for w in ws if issubclass(w.category, UserWarning)]
        if dict(arg) != before:
            ctx.violation("generated/argument", "the caller's inputs were changed to %r" % dict(arg), wit)
        if set(m.scenario) != set(want) or any(not same_value(m.scenario[k], v) for k, v in want.items()):
            ctx.violation("generated/recorded", "the recorded scenario is %r, expected %r" % (dict(m.scenario), want), wit)
            return
        for d in decls:
            hits = [t for t in texts if re.search(r"(?<![A-Za-z0-9_])%s(?![A-Za-z0-9_])" % re.escape(d.name), t)]
            if d.name in out:
                v, e, word = out[d.name]
                ctx.count("limits_exceeded")
                nums = [float(x) for t in hits for x in NUM.findall(t.replace(d.name, " "))]
                if len(hits) != 1 or word not in hits[0] or float(v) not in nums or float(e) not in nums:
                    ctx.violation("generated/limit", "%s=%r is %s than %r: %s" % (d.name, v, word, e, hits), wit)
            elif d.name in odd:
                ctx.count("options_unrecognised")
                if not any(str(odd[d.name]) in t and all(str(o) in t for o in d.options) for t in hits):
                    ctx.violation("generated/option", "%s=%r was not reported with its options: %s" % (d.name, odd[d.name], hits), wit)
            elif hits:
                ctx.violation("generated/false-report", "%s=%r is acceptable but was reported: %s" % (d.name, s.get(d.name), hits), wit)
        # accessors
        t = sum(weight(k, v) for k, v in want.items())
        ln = [x + t for x in g["a"]]
        sd = [x + 0.0001 * t for x in g["b"]]
        psa = g["psa"]

        def ask(name, expect):
            try:
                v = getattr(m, name)
            except NotImplementedError:
                v = None
            except Exception as e:
                return ctx.violation("generated/%s-raised" % name, "%r" % e, wit)
            ctx.count("accessors_" + ("answered" if expect is not None else "refused"))
            if (v is None) != (expect is None) or (expect is not None and not near(v, expect)):
                ctx.violation("generated/" + name, "%s is %r, expected %r" % (name, v, expect), wit)

        ask("periods", g["T"])
        ask("spec_accels", [math.exp(ln[i]) for i in psa])
        ask("ln_stds", [sd[i] for i in psa] if g["has_std"] else None)
        for k in ("pga", "pgv", "pgd"):
            i = g["index"].get(k)
            ask(k, None if i is None else math.exp(ln[i]) * g["scale"].get(k, 1.0))
            ask("ln_std_" + k, None if i is None or not g["has_std"] else sd[i])
        T = g["T"]
        q = [rng.choice([rng.choice(T), math.exp(rng.uniform(math.log(T[0]) - 1, math.log(T[-1]) + 1))]) for _ in range(5)]

        def at(x, v):
            if not T[0] <= x <= T[-1]:
                return math.nan
            j = min(max(i for i in range(len(T)) if T[i] <= x), len(T) - 2)
            w = (math.log(x) - math.log(T[j])) / (math.log(T[j + 1]) - math.log(T[j]))
            return v[psa[j]] * (1 - w) + v[psa[j + 1]] * w

        for fn, e in (("interp_ln_spec_accels", [at(x, ln) for x in q]), ("interp_spec_accels", [math.exp(at(x, ln)) for x in q]), ("interp_ln_stds", [at(x, sd) for x in q] if g["has_std"] else None)):
            try:
                v = getattr(m, fn)(rng.choice([list, tuple, np.array])(q))
            except NotImplementedError:
                v = None
            except Exception as ex:
                ctx.violation("generated/%s-raised" % fn, "%r" % ex, wit)
                continue
            if (v is None) != (e is None) or (e is not None and not near(v, e)):
                ctx.violation("generated/" + fn, "%s(%r) is %r, expected %r" % (fn, q, v, e), wit)
        # copies, and editing what was handed out
        c = pickle.loads(pickle.dumps(m)) if globals()[cls.__name__] is cls and rng.random() < 0.5 else copy.deepcopy(m)
        if not near(c.spec_accels, m.spec_accels) or dict(c.scenario) != dict(m.scenario):
            ctx.violation("generated/copy", "a copy of the model reports other values", wit)
        for k in list(before):
            arg[k] = -1
        c.spec_accels[:] = -1
        if not near(m.spec_accels, [math.exp(ln[i]) for i in psa]) or any(not same_value(m.scenario[k], v) for k, v in want.items()):
            ctx.violation("generated/isolation", "editing the inputs or a copy changed the model", wit)
        # required inputs
        req = [d.name for d in decls if d.req]
        if req:
            drop = rng.choice(req)
            t = dict(full)
            if rng.random() < 0.5:
                t[drop] = None
            else:
                del t[drop]
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    cls(pygmm.Scenario(**t))
            except ValueError as e:
                ctx.count("missing_refused")
                if drop not in str(e):
                    ctx.violation("generated/required-name", "%r does not name %s" % (e, drop), wit)
            except Exception as e:
                ctx.violation("generated/required", "missing %s raised %r" % (drop, e), wit)
            else:
                ctx.violation("generated/required", "missing %s was accepted" % drop, wit)

    def declared(cls, g):
        """The parameters tell what they were declared with."""
        for p, d in zip(cls.PARAMS, g["decls"]):
            got = dict(name=p.name, required=p.required, default=p.default)
            exp = dict(name=d.name, required=d.req, default=d.default)
            if d.cat:
                got["options"], exp["options"] = list(p.options), d.options
            else:
                got.update(min=p.min, max=p.max)
                exp.update(min=d.lo, max=d.hi)
            if any(not same_value(got[k], exp[k]) for k in exp):
                ctx.violation("generated/declaration", "declared %r, reads %r" % (exp, got), {})

    def coefficients():
        """Read-only mapping whose entries are readable as items and attributes."""
        d = {k: rng.choice([1.5, "x", [1, 2], None, 0]) for k in rng.sample(["small", "large", "c1", "rock", "bc", "h_1", "Vref", "n", "_x", "__y", "x_", "C", "data", "\u03c3", "with space"], rng.randint(0, 6))}
        c = M.Coefficients(**d)
        ctx.case(("coefficients", repr(sorted(d))))
        w = dict(entries=d)
        for label, x in (("", c), ("/copy", copy.copy), ("/deepcopy", copy.deepcopy), ("/pickle", lambda y: pickle.loads(pickle.dumps(y)))):
            try:
                x = x(c) if callable(x) else x
                if dict(x) != d or len(x) != len(d) or set(x) != set(d) or any(getattr(x, k) != v or x[k] != v or x.get(k, 9) != v for k, v in d.items()):
                    ctx.violation("coefficients/contents" + label, "holds %r" % dict(x), w)
                if hasattr(x, "absent") or getattr(x, "absent", 3) != 3 or "absent" in x or x.get("absent", 4) != 4:
                    ctx.violation("coefficients/absent" + label, "an absent entry is visible", w)
                try:
                    x["c1"] = 2
                    ctx.violation("coefficients/assignment" + label, "an entry can be assigned", w)
                except TypeError:
                    pass
            except BaseException as e:
                if not isinstance(e, Exception):
                    raise
                ctx.violation("coefficients/raised" + label, "%r" % e, w)
        ctx.count("coefficient_mappings")

    def subclasses():
        """Classes derived from the models of the package behave as the model, and as declared."""
        for name in models.ORDER:
            spec = models.SPECS[name]
            base = spec.load()
            order = []
            s = gen.clean(gen.scenario(spec, rng, "limits", 0.6))
            o = sut.ctor_options(spec, rng)
            free = [k for k in KEYS if k not in spec.pmap]
            plain = type(base.__name__ if rng.random() < 0.5 else "Mine", (base,), {})
            k = rng.choice(free)
            d = Decl(k, False, False, rng.choice([None, 1.5, 0]), 0, 10)
            more = type("More", (plain if rng.random() < 0.5 else base,), dict(PARAMS=list(base.PARAMS) + [d.make(M, rng)]))
            v = rng.choice([None, 3.0, 50.0, 0])
            given_ = dict(s) if v is None else dict(s, **{k: v})
            todo = [("model", base, s), ("subclass", plain, s), ("extended subclass", more, given_)] * 2
            rng.shuffle(todo)
            ctx.count("subclasses_of_package_models", 2)
            for what, cls, arg in todo:
                ctx.case((name, what, repr(sorted(arg.items(), key=str))))
                w = dict(model=name, what=what, inputs=arg, options=o, extra=vars(d))
                try:
                    with warnings.catch_warnings(record=True) as ws:
                        warnings.simplefilter("always")
                        m = cls(pygmm.Scenario(**arg), **o)
                except Exception as e:
                    ctx.violation("derived/raised", "the %s of %s raised %r" % (what, name, e), w)
                    continue
                order.append(workload.read(spec, m, np))
                if order[-1] != order[0]:
                    ctx.violation("derived/values", "the %s of %s reports other values" % (what, name), w)
                if type(m) is not cls:
                    ctx.violation("derived/type", "constructing the %s of %s gave a %s" % (what, name, type(m)), w)
                said = [x for x in ws if re.search(r"(?<![A-Za-z0-9_])%s(?![A-Za-z0-9_])" % k, str(x.message))]
                if cls is more:
                    if not same_value(m.scenario.get(k), d.default if v is None else v):
                        ctx.violation("derived/recorded", "%s of the %s of %s is recorded as %r" % (k, what, name, m.scenario.get(k)), w)
                    if len(said) != (v == 50.0):
                        ctx.violation("derived/limit", "%s=%r of the %s of %s gave %d reports" % (k, v, what, name, len(said)), w)
                elif k in m.scenario or said:
                    ctx.violation("derived/base", "the %s of %s knows the input %s of a subclass" % (what, name, k), w)

    empty = {k: copy.deepcopy(getattr(M.GroundMotionModel, k)) for k in ("PARAMS", "INDEX_PGA", "INDEX_PGV", "INDEX_PGD", "PGV_SCALE", "PGD_SCALE")}
    with Reach(["model"]) as reach:
        gens = []
        for i in range(ctx.n(60)):
            base = rng.choice(gens)[0] if gens and rng.random() < 0.3 else None
            cls, g = generate(rng, np, M, i, base, [c for c, _ in gens])
            gens.append((cls, g))
            ctx.count("classes_generated")
            ctx.count("classes_inherited", base is not None)
            declared(cls, g)
            for _ in range(12):
                judge(cls, g)
            for cls2, g2 in rng.sample(gens, min(len(gens), 4)):  # classes generated before are unchanged
                declared(cls2, g2)
                judge(cls2, g2)
            coefficients()
            if i % 12 == 0:
                subclasses()
        for k, v in empty.items():
            if getattr(M.GroundMotionModel, k) != v:
                ctx.violation("generated/base-class", "%s of the base class became %r" % (k, getattr(M.GroundMotionModel, k)), {})
    ctx.counters["reach"] = reach.report()
    ctx.require(ctx.counters.get("limits_exceeded", 0) > 50 and ctx.counters.get("accessors_refused", 0) > 50, "limits or refusals not exercised")


class Mark(float):
    """A number that is counted as long as it is alive."""

    alive = 0

    def __new__(cls, x):
        Mark.alive += 1
        return super().__new__(cls, x)

    def __del__(self):
        Mark.alive -= 1


def resources():
    """Open files, threads and children of this process."""
    try:
        fds = sorted(os.readlink("/proc/self/fd/" + f) for f in os.listdir("/proc/self/fd") if os.path.exists("/proc/self/fd/" + f))
    except OSError:
        fds = []
    return dict(files=[f for f in fds if not f.startswith("/proc/")], threads=threading.active_count())


def release(ctx):
    """Evaluations leave nothing behind: instances are freed and memory does not grow with their number."""
    import numpy as np

    rng = ctx.rng
    ctx.rule = (
        "models and functions evaluated for ever new inputs: instances, scenarios and reported arrays must be gone once dropped "
        "(weak references after a garbage collection), open files and threads unchanged, and memory allocated by Python must not grow in proportion to the number of evaluations "
        "(suspicious growth is followed up to many more evaluations, so that bounded caches fill up). Distinct by job and inputs"
    )
    ctx.assumptions = ["memory is what tracemalloc sees; a warning shown once per text is remembered by Python itself, so evaluations run with warnings ignored"]

    def one(spec):
        s = gen.scenario(spec, rng, "limits", rng.random())
        return s, sut.ctor_options(spec, rng)

    def evaluation(spec):
        req = [p.name for p in spec.params if p.req]
        cats = [p.name for p in spec.params if p.cat]

        def go():
            s, o = one(spec)
            r = rng.random()
            if r < 0.1:  # refused
                s[rng.choice(req)] = None
            elif r < 0.2 and cats:  # reported and replaced
                s[rng.choice(cats)] = "label %r" % rng.random()
            elif r < 0.4:  # outside the limits
                s = gen.scenario(spec, rng, "mix", rng.random())
            s = {k: Mark(v) if isinstance(v, float) else v for k, v in s.items()}
            workload.observe_all(spec, s, o, np)
            return True

        return go

    # stand-alone functions and refused calls, every kind measured by itself, with arguments of their own each time
    def functions(kind, refused):
        made, at = [], [0]

        def more(n):
            made.clear()
            at[0] = 0
            while len(made) < n:
                source = workload.failing_jobs if refused else workload.function_jobs
                made.extend(fn for k, fn in source(rng.random(), np) if (k if refused else k.split("/")[0]) == kind)

        def go():
            fn = made[at[0]]
            at[0] += 1
            try:
                fn()
            except Exception:
                pass
            return True

        return go, more

    # one model that stays alive and is asked ever new things
    def queries(spec):
        made, at, live = [], [0], []
        while not live:
            s, o = one(spec)
            try:
                live.append(sut.build(spec, s, "scenario", o))
            except Exception:
                continue  # judged by the checks of the values

        def more(n):
            made.clear()
            at[0] = 0
            while len(made) < n:
                made.extend(fn for _, fn in workload.operations(spec, rng, np, 6))

        def go():
            made[at[0]](live[0])
            at[0] += 1

        return go, more

    kinds = sorted({(k.split("/")[0], False) for k, _ in workload.function_jobs(0, np)}) + sorted({(k, True) for k, _ in workload.failing_jobs(0, np)})
    costly = ("stafford", "staffordcor")
    jobs = [(n, evaluation(models.SPECS[n]), 1) for n in models.ORDER]
    with Reach() as reach:
        start = None
        for spec in (models.SPECS[n] for n in models.ORDER):
            refs = []
            for i in range(ctx.n(6, 30)):
                s, o = one(spec)
                sc = sut.scen(s)
                try:
                    m = spec.load()(sc, **o)
                    workload.read(spec, m, np)
                    held = [m, m.scenario, sc] + [a for k, a in vars(m).items() if isinstance(a, np.ndarray) and a.base is None and not any(a is v for c in type(m).__mro__ for v in vars(c).values())]
                    if rng.random() < 0.5:
                        held.append(copy.deepcopy(m))
                    if rng.random() < 0.5:
                        held.append(pickle.loads(pickle.dumps(m)))
                except Exception as e:
                    ctx.count("jobs_raising")
                    continue
                ctx.case((spec.name, "freed", gen.key(s)), sample=dict(model=spec.name, inputs=gen.clean(s)))
                for h in held:
                    try:
                        refs.append((type(h).__name__, weakref.ref(h)))
                    except TypeError:
                        pass
                del m, sc, held
                h = None
            gc.collect()
            alive = [t for t, r in refs if r() is not None]
            ctx.count("objects_watched", len(refs))
            # a cache of the last few evaluations is not a leak
            if len(alive) > max(4, len(refs) // 2):
                ctx.violation(spec.name + "/alive", "%d of %d objects dropped by the caller are still alive: %s" % (len(alive), len(refs), sorted(set(alive))), dict(model=spec.name))
            if start is None:
                start = resources()
    now = resources()
    if now != start:
        ctx.violation("resources", "open files or threads changed from %r to %r" % (start, now), {})
    ctx.counters["reach"] = reach.report()

    def growth(go, more, n):
        if more:
            more(n)
        gc.collect()
        a = tracemalloc.get_traced_memory()[0]
        held = Mark.alive
        for _ in range(n):
            go()
        gc.collect()
        return (tracemalloc.get_traced_memory()[0] - a) / n, Mark.alive - held, n

    mine = lambda i: i % ctx.nshards == ctx.shard % max(1, ctx.nshards)
    todo = [(name, go, None) for i, (name, go, _) in enumerate(jobs) if ctx.thorough or mine(i)]
    todo += [("%s %s" % ("refused" if refused else "function", kind), *functions(kind, refused)) for i, (kind, refused) in enumerate(kinds) if mine(i)]
    todo += [("queries " + n, *queries(models.SPECS[n])) for i, n in enumerate(models.ORDER) if mine(i + 3)]
    tracemalloc.start()
    try:
        for name, go, more in todo:
            size = ctx.n(1000, 3000)
            if more:
                size = ctx.n(60, 200) if name.split()[-1] in costly else ctx.n(500, 2000)
            limit, most = (8.0, 8000) if more else (3.5, 16000)
            growth(go, more, size // 2)
            g, held, done = growth(go, more, size)
            ctx.case((name, "growth", ctx.shard), sample=dict(job=name, bytes_per_evaluation=round(g, 2)))
            ctx.count("function_calls_measured" if more else "evaluations_measured", 2 * done)
            # follow up: let whatever is bounded fill up
            tries = 0
            while (g > limit or held > 8) and tries < 8:
                size = size * 3 // 2
                g, held, done = growth(go, more, size)
                ctx.count("evaluations_followed_up", done)
                tries += 1
                if size > most:
                    break
            if os.environ.get("PGMON_SHOW"):
                print("growth", name, round(g, 2), held, size)
            if g > limit:
                top = tracemalloc.take_snapshot().statistics("lineno")[:3]
                ctx.violation(name + "/growth", "memory grows by %.0f bytes per evaluation: %s" % (g, [str(t) for t in top]), dict(job=name))
            elif held > 8:
                ctx.violation(name + "/held", "%d more input values are still alive after %d more evaluations" % (held, done), dict(job=name))
            if ctx.seen_viol:
                break  # following up every job that shares a leak takes long
    finally:
        tracemalloc.stop()
    if resources() != now:
        ctx.violation("resources", "open files or threads changed from %r to %r" % (now, resources()), {})
    ctx.require(ctx.counters.get("objects_watched", 0) > 100 and ctx.counters.get("evaluations_measured", 0) > 100, "hardly any evaluation was watched")
