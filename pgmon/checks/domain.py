"""Finite positive predictions inside the recommended limits; continuity between published steps."""
import math

from .. import gen, models, sut
from ..reach import Reach
from ..refutil import table


def possible(spec, s, rng):
    """Reorder distances no source can have."""
    for near, far in (("dist_jb", "dist_rup"), ("dist_epi", "dist_hyp")):
        if s.get(near) is not None and s.get(far) is not None:
            s[near], s[far] = sorted((s[near], s[far]))
    if spec.fix:
        spec.fix(s, rng)


def coherent(spec, rng):
    """Scenario inside the recommended limits with a possible geometry."""
    s = gen.scenario(spec, rng, "limits", rng.choice([0.2, 0.6, 1.0]))
    possible(spec, s, rng)
    if rng.random() < 0.06:
        # a station on the trace of a rupture reaching the surface
        for k in ("dist_jb", "dist_rup", "dist_x", "dist_y0", "dist_epi", "depth_tor"):
            p = spec.pmap.get(k)
            if p is not None and p.gen[0] <= 0 and (p.req or s.get(k) is not None):
                s[k] = 0.0
    if s.get("on_hanging_wall") and s.get("dist_x") is not None:
        s["dist_x"] = abs(s["dist_x"])  # hanging-wall sites are on the positive side
    if spec.name in ("ASK14", "CB14", "CY14") and s.get("depth_tor") is not None and s.get("dist_rup") is not None:
        s["dist_rup"] = max(s["dist_rup"], math.hypot(s["depth_tor"] * math.cos(math.radians(s["dip"])), 0))
        s["dist_jb"] = min(s["dist_jb"], s["dist_rup"])
    if spec.fix:
        spec.fix(s, rng)
    return s


def finite_in_limits(ctx):
    """Inside the recommended limits every model predicts finite positive motions; every exported model works."""
    import numpy as np
    import pygmm

    rng = ctx.rng
    ctx.rule = (
        "scenarios inside every recommended limit (including exactly on it) with possible geometry; every prediction is judged finite and "
        "positive; plus one documented construction of every model exported by the package. Distinct by model and inputs"
    )
    mods = set()
    with Reach() as reach:
        for name in models.ORDER:
            spec = models.SPECS[name]
            cls = spec.load()
            mods.add(cls.__name__)
            for it in range(ctx.n(350)):
                s = coherent(spec, rng)
                if it == 0 and name == "KS06":
                    s.update(mag=5.0, dist_rup=0.0, v_s30=1000.0)  # a recorded finding
                wit = dict(model=name, inputs=gen.clean(s))
                ctx.case((name, gen.key(s)), sample=wit)
                try:
                    m = sut.build(spec, s, rng.choice(sut.HOWS), None, cls)
                    o = models.observe(spec, m, np)
                except Exception as e:
                    ctx.violation("%s/raised/%s" % (name, type(e).__name__), "%r inside the recommended limits" % e, wit)
                    continue
                for k, v in o.items():
                    if k in ("plus", "minus", "tau", "phi"):
                        continue
                    ctx.count("predictions", int(v.size))
                    ok = np.isfinite(v)
                    if spec.kind == "pr" or k.startswith("std"):
                        ok &= v > 0
                    if not ok.all():
                        mech = "%s/nonfinite/%s" % (name, k)
                        if name == "KS06" and k == "ln_D_5t75v":
                            e = spec.ref_fn(models.fl(spec.resolve(s)))["dur"][2]
                            if math.isnan(e):
                                mech = "KS06/nonpositive-published-D_5t75v"
                        ctx.violation(mech, "%s is not finite and positive: %r" % (k, v.ravel()[~ok.ravel()][:3]), wit)
        # exported models outside the table above
        for nm in sorted(set(pygmm.__all__) - mods - {"Scenario"}):
            obj = getattr(pygmm, nm, None)
            ctx.case(("exported", nm))
            ctx.count("exported_checked")
            if obj is None:
                ctx.violation("exported/missing", "%s is exported but missing" % nm, {})
            elif nm == "AbrahamsonBhasin2020":
                try:
                    obj(pygmm.Scenario(mag=7.0, dist_rup=20.0, v_s30=500.0), psa=0.3)
                except Exception as e:
                    ctx.violation("AB20/construction", "AbrahamsonBhasin2020(scenario, psa=0.3) raised %r" % e, dict(mag=7.0, dist_rup=20.0, v_s30=500.0, psa=0.3))
            elif nm == "BaylessAbrahamson2018":
                if not np.isfinite(obj.corr([0.5, 1.0, 5.0])).all():
                    ctx.violation("BA18/corr", "not finite", {})
            elif nm == "Stafford2017":
                if not np.isfinite(obj.cor([0.5, 1.0, 5.0])).all():
                    ctx.violation("Stafford/cor", "not finite", {})
        for obj in pygmm.models:
            ctx.case(("models", obj.__name__))
            if getattr(pygmm, obj.__name__, None) is not obj or not obj.NAME or not obj.ABBREV:
                ctx.violation("models-list", "%s in pygmm.models is not an exported, named model" % obj, {})
    ctx.counters["reach"] = reach.report()


# (model, input): published discontinuities, with the largest change there; None = of any size. Those with a size are where published
# pieces meet and differ by the rounding of their coefficients only.
STEPS = {
    ("CB14", "v_s30"): {200.0: None},
    ("CY14", "mag"): {6.0: None, 6.9: None},
    ("C03", "mag"): {7.16: 3e-3},
    ("TP05", "mag"): {7.2: 1e-2},
    ("I14", "mag"): {6.75: 1.5e-3},
    ("BA19", "v_s30"): {200.0: None, 300.0: None, 500.0: None},
    ("Pea11", "mag"): {7.0: 5e-4},
    ("ASK14", "v_s30"): {1180.0: 2e-5},
    ("CB14", "depth_tor"): {16.66: 1.5e-3},
    ("CB14", "dist_x"): {0.0: None},
    ("PR24", "dist_rup"): {250.0: 1e-4},
    ("PR24", "mag"): {6.0: 1e-4},
    ("PR23", "mag"): {6.75: 1e-4},
    ("AS16", "mag"): {5.2: 1e-3, 5.35: 1e-3},
}


def published_steps(name, inp):
    steps = dict(STEPS.get((name, inp), {}))
    if name in ("AGA16", "CoppB14") and inp == "v_s30":  # V_lin above the 1000 m/s cap of the velocity
        steps.update((r.v_lin, None) for r in table(models.SPECS[name].tabname) if r.v_lin > 1000)
    return steps


def published_step(name, inp, lo, hi):
    """Whether a published step lies between, and the change it allows (0 without a step)."""
    sizes = [size for at, size in published_steps(name, inp).items() if lo <= at <= hi]
    return bool(sizes), math.inf if None in sizes else max(sizes, default=0.0)


def larger(ou, ov, size, np):
    """The observables, entries and changes larger than the size."""
    for k in ou:
        u, v = ou[k].ravel(), ov[k].ravel()
        if u.shape != v.shape:
            yield k, 0, math.inf
            continue
        with np.errstate(invalid="ignore"):
            e = np.abs(v - u)
        for i in np.flatnonzero(e > size):
            yield k, int(i), float(e[i])


def admissible(spec, s, name, x, rng):
    """The scenario with the input at x, or None when that is outside the domain or an impossible geometry."""
    p = spec.pmap[name]
    if name not in ("dist_x", "dpp_centered") and x < 0:
        x = 0.0
    if name == "dip":
        x = min(x, 90.0)
    if name == "mag" and spec.name == "TP05":
        x = min(x, 8.5)
    # a small base motion makes logs steep: keep away from zero basin depth
    if name == "depth_1_0" and x < 1e-3:
        return None
    lo = gen.POSITIVE.get((spec.name, name))
    if lo is not None and x < lo:
        return None
    t = dict(s)
    t[name] = x
    if spec.fix:
        spec.fix(t, rng)
        if any(t[k] != s[k] for k in t if k != name) or t[name] != x:
            return None
    if any(t.get(j) is not None and t.get(r) is not None and t[j] > t[r] for j, r in (("dist_jb", "dist_rup"), ("dist_epi", "dist_hyp"))):
        return None
    return t


def reading(spec, t, np, cls):
    o = sut.evaluate(spec, t, np, "scenario", None, cls)
    if spec.name == "KS06":  # durations next to zero: compare them, not their logs
        o = {k: np.exp(v) if k.startswith("ln_") else v for k, v in o.items()}
    return o


def steps(ou, ov, np):
    """Worst excess of the change over the allowance: (excess, observable, index, number compared); None for differing shapes."""
    worst, n = (-1.0, None, 0), 0
    for k in ou:
        if ou[k].shape != ov[k].shape:
            return (math.inf, k, 0), n
        u, v = ou[k].ravel(), ov[k].ravel()
        fin = np.isfinite(u) & np.isfinite(v)
        n += int(fin.sum())
        if not fin.any():
            continue
        e = np.where(fin, np.abs(v - u) / (2e-5 * np.maximum(1.0, np.abs(u))), -1)
        i = int(np.argmax(e))
        if e[i] > worst[0]:
            worst = (float(e[i]), k, i)
    return worst, n


def selection(spec, u, v, k, i):
    """Whether the published model itself selects another entry of its table (the smallest nonlinear response of BA19) or another
    equation (the hanging-wall taper of CB14 at the edge of the rupture, where its rounded coefficients sum to 0.999) between the two."""
    if spec.name == "CB14":
        r = [spec.resolve(t) for t in (u, v)]
        side = [t["dist_x"] - t["width"] * math.cos(math.radians(t["dip"])) for t in r]
        if abs(side[0]) > 1e-3 or abs(side[1]) > 1e-3:
            return False
    elif spec.name != "BA19":
        return False
    a, b = (spec.expect(t)[k.rstrip("2")][i] for t in (u, v))
    return abs(a - b) > 2e-5


def continuity(ctx):
    """A small change of one input gives a small change of every prediction, except at the published steps."""
    import numpy as np

    rng = ctx.rng
    ctx.rule = (
        "pairs of scenarios differing by a relative 1e-7 in one input, placed on every threshold mined from the tables and the code, the "
        "limits, and random values; and scans of one input over its range, closing in on the largest change until it vanishes or is a step. "
        "The change of every prediction is judged. Distinct by model, input and location"
    )
    with Reach() as reach:
        for name in models.ORDER:
            spec = models.SPECS[name]
            cls = spec.load()
            nums = [p for p in spec.params if not p.cat and not (p.name == "depth_bot" and name == "CB14")]

            def judge(s, p, x):
                """Compare the predictions on both sides of x."""
                d = 1e-7 * max(abs(x), 0.1)
                across, size = published_step(name, p.name, x - d, x + d)
                if size == math.inf:
                    ctx.count("published_steps_skipped")
                    return
                u, v = admissible(spec, s, p.name, x - d, rng), admissible(spec, s, p.name, x + d, rng)
                if u is None or v is None:
                    ctx.count("inadmissible_skipped")
                    return
                wit = dict(model=name, input=p.name, values=[u[p.name], v[p.name]], others={k: w for k, w in gen.clean(s).items() if k != p.name})
                try:
                    ou, ov = reading(spec, u, np, cls), reading(spec, v, np, cls)
                except Exception as e:
                    ctx.violation("%s/raised/%s" % (name, type(e).__name__), "%r" % e, wit)
                    return
                ctx.case((name, p.name, round(x, 6), gen.key(s)), sample=wit)
                (e, k, i), n = steps(ou, ov, np)
                ctx.count("values_compared", n)
                if across:
                    ctx.count("published_steps_measured")
                    for k, i, e in larger(ou, ov, size, np):
                        if not selection(spec, u, v, k, i):
                            ctx.violation("%s/step-size/%s[%d]" % (name, k, i), "%s changes by %r when %s goes from %r to %r, more than the rounding of the published coefficients (%r)" % (k, e, p.name, *wit["values"], size), dict(wit, observable=k, index=i))
                elif e > 1 and not selection(spec, u, v, k, i):
                    a, b = (o[k].ravel()[i] if o[k].size > i else None for o in (ou, ov))
                    ctx.violation(
                        "%s/step/%s" % (name, p.name), "%s goes from %r to %r when %s goes from %r to %r" % (k, a, b, p.name, *wit["values"]),
                        dict(wit, observable=k, index=i),
                    )

            def clip(p, x):
                wl, wh = gen.wide(p)
                return min(max(x, wl), wh)

            for it in range(ctx.n(120)):
                p = rng.choice(nums)
                judge(coherent(spec, rng), p, clip(p, gen.uniform(p, rng, *p.gen)))
            for p in nums:
                vals = gen.pool(spec, p)
                k = ctx.n(3, 30)
                for x in vals if len(vals) <= 60 else rng.sample(vals, 60):
                    for _ in range(k):
                        judge(coherent(spec, rng), p, clip(p, x))
                for x in published_steps(name, p.name):
                    for _ in range(ctx.n(4, 40)):
                        judge(coherent(spec, rng), p, x)
            # scans
            for it in range(ctx.n(12, 240)):
                s = coherent(spec, rng)
                p = rng.choice(nums)
                wl, wh = gen.wide(p) if rng.random() < 0.5 else p.gen
                xs = sorted(rng.uniform(wl, wh) for _ in range(14))

                def at(x):
                    t = admissible(spec, s, p.name, x, rng)
                    return None if t is None else reading(spec, t, np, cls)

                wit = dict(model=name, input=p.name, others={k: w for k, w in gen.clean(s).items() if k != p.name})
                try:
                    pts = [(x, o) for x, o in ((x, at(x)) for x in xs) if o is not None]
                    if len(pts) < 3:
                        ctx.count("inadmissible_skipped")
                        continue
                    ctx.case((name, p.name, "scan", gen.key(s)), sample=wit)
                    ctx.count("scans")
                    # the intervals with the steepest changes
                    pairs = sorted(zip(pts, pts[1:]), key=lambda q: -steps(q[0][1], q[1][1], np)[0][0] / (q[1][0] - q[0][0]))
                    for (a, oa), (b, ob) in pairs[:2]:
                        while b - a > 2e-7 * max(abs(a), 0.1):
                            m = 0.5 * (a + b)
                            om = at(m)
                            if om is None or not a < m < b:
                                break
                            left, right = steps(oa, om, np)[0][0], steps(om, ob, np)[0][0]
                            if max(left, right) <= 1:
                                break
                            if left >= right:
                                b, ob = m, om
                            else:
                                a, oa = m, om
                            ctx.count("scan_evaluations")
                        else:
                            e, k, i = steps(oa, ob, np)[0]
                            w = 1e-6 * max(abs(a), 0.1)
                            if e > 1 and not selection(spec, dict(s, **{p.name: a}), dict(s, **{p.name: b}), k, i) and not published_step(name, p.name, a - w, b + w)[0]:
                                ctx.violation("%s/step/%s" % (name, p.name), "%s changes from %r to %r when %s goes from %r to %r" % (k, oa[k].ravel()[i], ob[k].ravel()[i], p.name, a, b), dict(wit, values=[a, b], observable=k, index=i))
                except Exception as e:
                    ctx.violation("%s/raised/%s" % (name, type(e).__name__), "%r" % e, wit)
    ctx.counters["reach"] = reach.report()
