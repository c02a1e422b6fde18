"""Evaluation under strict settings: floating-point faults raised, warnings as errors, development mode."""
import math
import os
import subprocess
import sys
import tempfile
import warnings

from .. import core, gen, models, sut, workload
from ..reach import Reach
from .correlations import close, freq, inside, period, spectrum
from .domain import coherent
from .families import query_periods

# what the package tells about the inputs themselves
OWN = r".*(recommended limit|not one of the options|Using default value|not directly supported)"


def calls(rng, np):
    """(name, function, arguments) inside the domain of every stand-alone function."""
    import pygmm
    from pygmm.abrahamson_bhasin_2020 import AbrahamsonBhasin2020
    from pygmm.baker_jayaram_2008 import calc_cond_mean_spectrum, calc_correls
    from pygmm.kishida_2017 import calc_cond_mean_spectrum_vector
    from pygmm.pinilla_ramos_et_al_2024 import duration_model

    form = rng.choice([list, np.array, tuple])
    T = [inside(period(rng)) for _ in range(gen.length(rng, 8, 200))]
    tc = rng.choice(T + [inside(period(rng))])
    yield "calc_correls", calc_correls, (form(T), tc), {}
    T, ln, sd = spectrum(rng, gen.length(rng, 10, 120, lo=3))
    T = [t for i, t in enumerate(T) if i == 0 or t / T[i - 1] > 1.03]
    ln, sd = ln[: len(T)], sd[: len(T)]
    if len(T) > 1:
        t0 = rng.choice(T) if rng.random() < 0.5 else math.exp(rng.uniform(math.log(T[0]), math.log(T[-1])))
        yield "calc_cond_mean_spectrum", calc_cond_mean_spectrum, (form(T), form(ln), form(sd), t0, rng.uniform(-4, 2)), {}
        k = rng.sample(range(len(T)), min(len(T), rng.randint(1, 4)))
        if rng.random() < 0.5:
            T, ln, sd, k = close(rng, T, ln, sd, k)
        tgt = [rng.choice([math.nan, 1e9, 0.0, x]) if i not in k else x + rng.uniform(-1, 1) for i, x in enumerate(ln)]
        yield "calc_cond_mean_spectrum_vector", calc_cond_mean_spectrum_vector, (form(T), form(ln), form(sd), np.ma.array(tgt, mask=[i not in k for i in range(len(T))])), {}
    F = list(dict.fromkeys(freq(rng) for _ in range(rng.randint(1, 9))))
    B, S = pygmm.BaylessAbrahamson2018, pygmm.Stafford2017
    yield "BA18.corr", B.corr, (form(F),), {}
    yield "BA18.cov", B.cov, (form(F),), dict(component=rng.choice(["tau", "phi_s2s", "phi_s", "sigma"]))
    F = [freq(rng, 0.1, 25) for _ in range(rng.randint(1, 8))]
    F[-1] = rng.choice(F)
    mag = rng.uniform(3, 8)
    yield "Stafford.cov", S.cov, (form(F),), dict(mag=mag)
    yield "Stafford.cor", S.cor, (form(F),), dict(mag=mag)
    yield "Stafford.compute_variances", S.compute_variances, (form(F),), {}
    for f in ("between_event_correlation", "between_site_correlation", "within_event_correlation"):
        yield "Stafford." + f, getattr(S, f), (F[0], F[-1]) + ((mag,) if f.startswith("between_event") else ()), {}
    n = rng.randint(1, 6)
    arr = lambda lo, hi: np.array([rng.choice([lo, hi, rng.uniform(lo, hi)]) for _ in range(n)])
    reg, et = rng.choice([("Japan", "interface"), ("Japan", "slab"), ("Taiwan", "slab"), ("New Zealand", "interface"), ("South America", "slab")])
    yield "duration_model", duration_model, (arr(4.5, 8.5), arr(0.0, 400.0), arr(150.0, 2000.0), reg, et, rng.choice([0.1, 0.35, 0.75, 0.95])), {}
    A, Bo, C, Y = (models.SPECS[k].load() for k in ("ASK14", "BSSA14", "CB14", "CY14"))
    v, m, dip, reg = rng.choice([rng.uniform(100, 2200), 760.0, 180.0]), rng.uniform(3, 8.5), rng.choice([rng.uniform(10, 90), 90.0]), rng.choice(["california", "japan", "china"])
    for name, cls in (("ASK14", A), ("CY14", Y), ("AS16", pygmm.AfshariStewart2016)):
        yield name + ".calc_depth_1_0", cls.calc_depth_1_0, (v, reg), {}
    yield "BA19.calc_depth_1_0", pygmm.BaylessAbrahamson2019.calc_depth_1_0, (v,), {}
    yield "CB14.calc_depth_2_5", C.calc_depth_2_5, (v, reg), {}
    yield "ASK14.calc_width", A.calc_width, (m, dip), {}
    yield "ASK14.calc_depth_tor", A.calc_depth_tor, (m,), {}
    yield "CY14.calc_depth_tor", Y.calc_depth_tor, (m, rng.choice(["SS", "NS", "RS"])), {}
    yield "CB14.calc_width", C.calc_width, (m, dip, rng.choice([0.0, rng.uniform(0, 12)]), rng.uniform(13, 30)), {}
    yield "CB14.calc_depth_hyp", C.calc_depth_hyp, (m, dip, rng.choice([0.0, 5.0]), rng.uniform(6, 30)), {}
    pga = rng.choice([0.0, math.exp(rng.uniform(-9, 1))])
    yield "BSSA14.calc_site_term", Bo.calc_site_term, (pga, v, rng.choice([None, 0.0, rng.uniform(0, 2)]), reg), {}
    yield "CB14.calc_site_term", C.calc_site_term, (pga, v, rng.choice([0.0, 1.0, 3.0, rng.uniform(0, 8)]), reg), {}
    yield "AS96.calc_ln_dur_incr", pygmm.AbrahamsonSilva1996.calc_ln_dur_incr, (rng.choice([0.1, 0.95, 0.75, rng.uniform(0.1, 0.95)]),), {}
    yield "AB20.ln_period_pgv", AbrahamsonBhasin2020.ln_period_pgv, (m,), {}
    for name in ("PR23", "PR24"):
        spec = models.SPECS[name]
        mod = sut.build(spec, coherent(spec, rng))
        yield name + ".duration_for_energy", mod.duration_for_energy, (rng.choice([0.1, 0.95, 0.75, rng.uniform(0.1, 0.95)]),), {}
    mod = sut.build(models.SPECS["GA11"], coherent(models.SPECS["GA11"], rng))
    q = query_periods(rng, [0.01, 0.1, 0.5, 1.0, 10.0], rng.randint(1, 9))
    yield "GA11.interp_ratio", mod.interp_ratio, (form(q),), {}
    yield "GA11.interp_ln_std", mod.interp_ln_std, (form(q),), {}
    mod = sut.build(models.SPECS["AS96"], coherent(models.SPECS["AS96"], rng))
    ia = [rng.choice([0.1, 0.95, rng.uniform(0.1, 0.95)]) for _ in range(rng.randint(1, 6))]
    yield "AS96.interp", mod.interp, (form(ia),), {}
    yield "AS96.interp", mod.interp, (form(ia), form([rng.uniform(-3, 3) for _ in range(3)])), {}
    name = rng.choice([k for k in models.ORDER if models.SPECS[k].kind == "gmm"])
    spec = models.SPECS[name]
    mod = sut.build(spec, coherent(spec, rng))
    q = query_periods(rng, [float(x) for x in mod.periods], rng.randint(1, 9))
    f = rng.choice(["interp_spec_accels", "interp_ln_spec_accels", "interp_ln_stds"])
    yield name + "." + f, getattr(mod, f), (form(q), rng.choice(["linear", "nearest", "zero", "slinear", "quadratic", "cubic"])), {}


class strictly:
    """Floating-point faults and warnings other than those on the inputs raise."""

    def __init__(self, np):
        self.fp = np.errstate(divide="raise", invalid="raise", over="raise")
        self.w = warnings.catch_warnings()

    def __enter__(self):
        self.w.__enter__()
        warnings.simplefilter("error")
        warnings.filterwarnings("ignore", OWN, UserWarning)
        self.fp.__enter__()

    def __exit__(self, *a):
        self.fp.__exit__(*a)
        self.w.__exit__(*a)


def strict(ctx):
    """Valid inputs cause no floating-point fault and use nothing deprecated; importing leaves nothing open."""
    import numpy as np

    rng = ctx.rng
    ctx.rule = (
        "models for possible sources inside the recommended limits, and every stand-alone function inside its domain, evaluated normally and again "
        "with division by zero, invalid operations and overflow raised and every warning (other than those on the inputs) an error: same values bit for bit. "
        "The package imported by interpreters in development mode, with warnings as errors and no cached bytecode, must print nothing. Distinct by model or function and inputs"
    )

    def judge(name, go, wit, nan=lambda: False):
        plain = go()
        ctx.case((name, str(wit)), sample=dict(wit, job=name))
        ctx.count("strict_evaluations")
        try:
            with strictly(np):
                got = go()
        except FloatingPointError as e:
            if name.startswith("PR23") and nan():
                ctx.count("no_published_value")  # the published transformation has no real value
                return
            mech = "%s/fault" % name
            if name == "KS06":
                spec = models.SPECS["KS06"]
                # the published regression sum is negative there
                if math.isnan(spec.ref_fn(models.fl(spec.resolve(wit["given"])))["dur"][2]):
                    mech = "KS06/nonpositive-published-D_5t75v"
            ctx.violation(mech, "a floating-point fault on valid inputs: %s" % e, wit)
        except Warning as e:
            ctx.violation("%s/warning" % name, "a warning on valid inputs: %r" % e, wit)
        except Exception as e:
            ctx.violation("%s/raised" % name, "raises %r where numpy reports faults" % e, wit)
        else:
            if got != plain:
                ctx.violation("%s/values" % name, "other values where numpy reports faults", wit)

    with Reach() as reach:
        for name in models.ORDER:
            spec = models.SPECS[name]
            cls = spec.load()
            for it in range(ctx.n(100)):
                s = coherent(spec, rng)
                if it == 0 and name == "KS06":
                    s.update(mag=5.0, dist_rup=0.0, v_s30=1000.0)  # a recorded finding
                o = sut.ctor_options(spec, rng)
                how = rng.choice(sut.HOWS)
                judge(name, lambda: workload._read(spec, sut.build(spec, s, how, o, cls), np), dict(inputs=gen.clean(s), given=s, options=o),
                      lambda: any(np.isnan(v).any() for v in sut.evaluate(spec, s, np, how, o, cls).values()))
        for _ in range(ctx.n(60)):
            for name, fn, a, k in calls(rng, np):

                def go():
                    r = fn(*a, **k)
                    return workload._h(np, *(r if isinstance(r, tuple) else (r,)))

                judge(name, go, dict(arguments=repr(a)[:600], options=k), lambda: bool(np.isnan(np.asarray(fn(*a, **k), dtype=float)).any()))
    ctx.counters["reach"] = reach.report()
    if ctx.shard < 3:
        imports(ctx, rng)


IMPORT = """
import sys, urllib.request, urllib.error, io
sys.path.insert(0, %r)
def refuse(*a, **k):
    raise urllib.error.URLError("no network in the monitor")
urllib.request.urlretrieve = urllib.request.urlopen = refuse
import numpy, scipy.interpolate, pandas, scipy.stats, json
sys.stderr.flush()
sys.stderr.write("BEGIN\\n")
import importlib
for m in %r:
    importlib.import_module(m)
import gc
gc.collect()
sys.stderr.write("END\\n")
"""


def imports(ctx, rng):
    """Import in strict interpreters: nothing reported by the interpreter."""
    src = core.SRC
    mods = sorted("pygmm." + f[:-3] for f in os.listdir(os.path.join(src, "pygmm")) if f.endswith(".py") and not f.startswith("__") and not f.startswith("hermkes"))
    with tempfile.TemporaryDirectory(prefix="pgmon-") as tmp:
        for flags in (["-X", "dev", "-W", "error", "-bb"], ["-W", "error", "-O"], ["-X", "dev", "-W", "always"]):
            ms = rng.sample(mods, len(mods)) + ["pygmm"]
            if rng.random() < 0.5:
                ms.reverse()
            env = {"PATH": os.environ.get("PATH", ""), "PYTHONPYCACHEPREFIX": os.path.join(tmp, "cache"), "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}
            # third-party modules are imported before the strict part begins; only lines after that count
            p = subprocess.run([sys.executable, "-B", "-s"] + flags + ["-c", IMPORT % (src, ms)], env=env, cwd=tmp, capture_output=True, text=True, timeout=240)
            ctx.case(("import", tuple(flags), tuple(ms)), sample=dict(flags=flags, first=ms[:3]))
            ctx.count("strict_imports")
            if "BEGIN\n" not in p.stderr:
                ctx.count("strict_interpreter_unusable")
                continue
            said = p.stderr.split("BEGIN\n", 1)[1].replace("END\n", "")
            ours = [ln for ln in said.splitlines() if src in ln or "pygmm" in ln]
            if p.returncode and "END\n" not in p.stderr:
                ctx.violation("import/failed", "importing under %s fails: %s" % (" ".join(flags), said[-400:]), dict(flags=flags, modules=ms))
            elif ours:
                ctx.violation("import/reported", "importing under %s is reported: %s" % (" ".join(flags), said[-400:]), dict(flags=flags, modules=ms))
