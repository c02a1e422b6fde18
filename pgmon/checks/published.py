"""Reference-model monitor: every constructed model reports the published values."""
import time

from .. import gen, models, sut
from ..reach import Reach

RULE = (
    "scenario inputs drawn per parameter from the recommended range, a wider range, and thresholds of the "
    "published tables and of the module under test (exact, next float, 1e-6 off); optional inputs randomly unset; "
    "handed over as Scenario/dict/copy_with; chains change one input and return. Non-trivial: the reference gives "
    "finite values for it; distinct by the full set of inputs and options."
)


def judge(ctx, spec, cls, s, np, how, ctor):
    """Construct, observe and compare one scenario."""
    try:
        exp = spec.expect(s, **ctor)
    except (ValueError, ZeroDivisionError, OverflowError, TypeError, KeyError, NotImplementedError):
        ctx.count("outside_reference_domain")
        return None
    wit = dict(model=spec.name, inputs=gen.clean(s), handed_over=how, options=ctor)
    try:
        obs = models.observe(spec, sut.build(spec, s, how, ctor, cls), np)
    except Exception as e:
        ctx.violation("%s/raised/%s" % (spec.name, type(e).__name__), "%s raised %r for admissible inputs" % (spec.name, e), wit)
        ctx.case((spec.name, gen.key(s)))
        return None
    n, bad = models.compare(exp, obs, np)
    ctx.count("values_compared", n)
    ctx.count("cases_" + spec.name)
    ctx.case((spec.name, gen.key(s), str(sorted(ctor.items()))), nontrivial=n > 0,
             sample=dict(model=spec.name, inputs=gen.clean(s), first_observed={k: float(v.reshape(-1)[0]) for k, v in obs.items()}))
    if bad:
        k, i, o, e = bad
        ctx.violation(
            "%s/%s" % (spec.name, k),
            "%s %s[%s] is %r, the published equations give %r" % (spec.name, k, i, o, e),
            dict(wit, observable=k, index=i, observed=o, expected=e),
        )
    return obs


def run_models(ctx, names, quick, thorough=None, extra=None):
    import numpy as np

    ctx.rule = RULE
    ctx.assumptions = [
        "the reference implementation and coefficient snapshot in /verif/pgmon are the published model",
        "values compared in natural-log units to 1e-7; only points where the reference is finite are judged",
    ]
    rng = ctx.rng
    specs = [models.SPECS[n] for n in names]
    with Reach({s.module for s in specs}) as reach:
        for spec in specs:
            cls = spec.load()
            n = ctx.n(quick, thorough)
            i = 0
            while i < n:
                mode = rng.choices(["limits", "mix", "plain"], [25, 40, 35])[0]
                s = gen.scenario(spec, rng, mode, rng.choice([0.0, 0.3, 0.6, 1.0]), np)
                if spec.name == "AB06" and rng.random() < 0.1:
                    s["v_s30"] = rng.choice([0, 0.0])  # hard rock
                chain = [s]
                while rng.random() < 0.5 and len(chain) < 6:
                    chain.append(gen.neighbour(spec, chain[-1], rng, mode, np))
                if len(chain) > 1:
                    chain.append(s)
                for t in chain:
                    judge(ctx, spec, cls, t, np, rng.choice(sut.HOWS), sut.ctor_options(spec, rng))
                    i += 1
            ctx.require(ctx.counters.get("cases_" + spec.name, 0) > n // 2, "too few %s cases reached the comparison" % spec.name)
            if extra:
                extra(ctx, spec, cls, np)
    ctx.counters["reach"] = reach.report()
