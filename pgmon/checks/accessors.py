"""Spectrum accessors, interpolation and variability."""
import math

from .. import gen, models, sut
from ..reach import Reach
from ..refutil import lin
from .domain import coherent, possible
from .families import query_periods

GMM = [n for n in models.ORDER if models.SPECS[n].kind == "gmm"]


native = models.native


def accessors(ctx):
    """Native ordinates, interpolation between them, and unsupported measures."""
    import numpy as np

    rng = ctx.rng
    ctx.rule = (
        "random scenarios of every spectral model; native periods, interpolation queries mixing native, interior, end and outside "
        "periods in random order and container (list, tuple, array, scalar), all interpolation kinds; every intensity-measure accessor. "
        "Distinct by model, inputs and queried periods"
    )
    tot = ctx.counters

    def near(a, b, tol=1e-8):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        return a.shape == b.shape and bool(np.all((np.abs(a - b) <= tol * np.maximum(1, np.abs(b))) | (np.isnan(a) & np.isnan(b)) | (a == b)))

    with Reach(["model"]) as reach:
        for name in GMM:
            spec = models.SPECS[name]
            cls = spec.load()
            P = native(name)
            lp = [math.log(p) for p in P]
            for _ in range(ctx.n(120)):
                s = coherent(spec, rng)
                m = sut.build(spec, s, "scenario", None, cls)
                wit = dict(model=name, inputs=gen.clean(s))
                try:
                    sa = np.array(m.spec_accels, dtype=float)
                    if not near(m.periods, P, 1e-12):
                        ctx.violation(name + "/periods", "the reported periods differ from the published ones", dict(wit, periods=m.periods))
                        continue
                    if sa.shape != (len(P),):
                        ctx.violation(name + "/spec_accels-shape", "spec_accels has shape %s" % (sa.shape,), wit)
                        continue
                    ln = np.log(sa)
                    sd = np.array(m.ln_stds, dtype=float)
                    if not near(m.interp_ln_spec_accels(P), ln) or not near(m.interp_spec_accels(m.periods), sa) or not near(m.interp_ln_stds(P), sd):
                        ctx.violation(name + "/native", "interpolating at the native periods does not return the native values", wit)
                    T = query_periods(rng, P, rng.randint(1, 10) if rng.random() < 0.9 else rng.randint(30, 1500))
                    want = [lin(math.log(t), lp, list(ln)) if P[0] <= t <= P[-1] else math.nan for t in T]
                    ws = [lin(math.log(t), lp, list(sd)) if P[0] <= t <= P[-1] else math.nan for t in T]
                    tot["queries_outside"] = tot.get("queries_outside", 0) + sum(map(math.isnan, want))
                    tot["queries_inside"] = tot.get("queries_inside", 0) + sum(not math.isnan(w) for w in want)
                    arg = rng.choice([list, tuple, np.array])(T)
                    ctx.case((name, gen.key(s), tuple(T)), sample=dict(wit, queried=T))
                    w2 = dict(wit, queried=T)
                    for fn, w in (
                        (m.interp_ln_spec_accels, want),
                        (m.interp_spec_accels, np.exp(want)),
                        (m.interp_ln_stds, ws),
                        (lambda x: m.interp_ln_spec_accels(x, kind="linear"), want),
                        (lambda x: m.interp_ln_spec_accels(x, "slinear"), want),
                    ):
                        got = fn(arg)
                        if not near(got, w):
                            ctx.violation(name + "/interp/" + getattr(fn, "__name__", "kind"), "interpolation at %s gives %s, expected %s" % (T, got, w), w2)
                    # single periods and tables of them
                    t0, w0 = T[0], want[0]
                    a1, a2 = np.array(T), np.array(want)
                    n = len(T)
                    shapes = [(a1.reshape(s), a2.reshape(s)) for s in ((n, 1), (1, n), (1, 1, n))] + [(np.float64(t0), w0), (np.array(t0), w0), (t0, w0)]
                    if n % 2 == 0:
                        shapes += [(a1.reshape(2, -1), a2.reshape(2, -1)), (a1.reshape(2, -1).T, a2.reshape(2, -1).T), (a1.reshape(-1, 2).tolist(), a2.reshape(-1, 2))]
                    q, w = rng.choice(shapes)
                    for fn, w in ((m.interp_ln_spec_accels, w), (m.interp_spec_accels, np.exp(w)), (m.interp_ln_stds, np.array(ws)[:1].reshape(()) if np.ndim(q) == 0 else None)):
                        got = fn(q)
                        ctx.count("queries_in_tables" if np.ndim(q) else "single_queries")
                        if (w is not None and not near(got, w)) or np.shape(got) != np.shape(q):
                            ctx.violation(name + "/interp-shape/" + fn.__name__, "periods of shape %s give %r, expected %r" % (np.shape(q), got, w), dict(w2, shape=np.shape(q)))
                    # other kinds
                    kind = rng.choice(["nearest", "zero", "quadratic", "cubic"])
                    Q = [math.exp(rng.uniform(lp[0], lp[-1])) for _ in range(5)]
                    g = np.asarray(m.interp_ln_spec_accels(Q, kind), dtype=float)
                    if kind in ("nearest", "zero"):
                        for q, v in zip(Q, g):
                            x = math.log(q)
                            j = max(i for i in range(len(lp)) if lp[i] <= x)
                            opts = [ln[j]] if kind == "zero" else ([ln[j]] if x - lp[j] < lp[j + 1] - x else [ln[j + 1]])
                            if abs(x - lp[j] - (lp[min(j + 1, len(lp) - 1)] - x)) < 1e-9:
                                continue
                            if min(abs(v - o) for o in opts) > 1e-9:
                                ctx.violation(name + "/interp/" + kind, "%s interpolation at %r gives %r, expected %r" % (kind, q, v, opts), w2)
                    else:
                        from scipy.interpolate import make_interp_spline

                        ref = make_interp_spline(lp, ln, k=2 if kind == "quadratic" else 3)(np.log(Q))
                        if not near(g, ref, 1e-6):
                            ctx.violation(name + "/interp/" + kind, "%s interpolation gives %s, expected %s" % (kind, g, ref), w2)
                    if not near(m.interp_ln_spec_accels(P, kind), ln, 1e-6):
                        ctx.violation(name + "/native/" + kind, "%s interpolation misses the native values" % kind, w2)
                    if not near(m.interp_spec_accels(Q, kind), np.exp(g)):
                        ctx.violation(name + "/interp-exp/" + kind, "interp_spec_accels is not exp(interp_ln_spec_accels)", w2)
                    # repeated reads
                    if not (np.array_equal(sa, m.spec_accels) and np.array_equal(sd, m.ln_stds)):
                        ctx.violation(name + "/repeat", "reading the spectrum twice gives different values", w2)
                    # intensity measures: supported ones are scalars, the others refuse
                    for k in ("pga", "pgv", "pgd"):
                        has = spec.layout.get(k) is not None
                        for attr in (k, "ln_std_" + k):
                            try:
                                v = getattr(m, attr)
                            except NotImplementedError:
                                v = None
                            if has and (v is None or np.ndim(v) != 0):
                                ctx.violation("%s/%s" % (name, attr), "supported %s gives %r" % (attr, v), wit)
                            if not has and v is not None:
                                ctx.violation("%s/%s-unsupported" % (name, attr), "unsupported %s gives %r" % (attr, v), wit)
                            ctx.count("measures_" + ("supported" if has else "refused"))
                except Exception as e:
                    ctx.violation(name + "/raised/" + type(e).__name__, "%r" % e, wit)
    ctx.counters["reach"] = reach.report()
    ctx.require(tot.get("queries_outside", 0) > 50 and tot.get("measures_refused", 0) > 50, "outside queries or refusals not exercised")


def variability(ctx):
    """Log standard deviations: positive, finite, one per ordinate, and composed of their parts."""
    import numpy as np

    rng = ctx.rng
    ctx.rule = (
        "random scenarios inside and beyond the limits of every model reporting variability; each reported log standard deviation "
        "is judged; where a model keeps its between- and within-event parts, total^2 = tau^2 + phi^2. Distinct by model and inputs"
    )
    for name in models.ORDER:
        spec = models.SPECS[name]
        if name in ("PR23", "PR24"):
            continue
        cls = spec.load()
        for _ in range(ctx.n(300)):
            s = gen.scenario(spec, rng, rng.choice(["limits", "mix"]), 0.5)
            if name == "GA11" or name == "I14":
                s = gen.scenario(spec, rng, "limits", 0.5)
            possible(spec, s, rng)
            wit = dict(model=name, inputs=gen.clean(s))
            ctx.case((name, gen.key(s)), sample=wit)
            try:
                m = sut.build(spec, s, "scenario", None, cls)
                o = models.observe(spec, m, np)
            except Exception as e:
                ctx.violation(name + "/raised/" + type(e).__name__, "%r" % e, wit)
                continue
            for k, v in o.items():
                if not k.startswith("std"):
                    continue
                ctx.count("std_values", int(v.size))
                if not (np.isfinite(v) & (v > 0) & (v < 5)).all():
                    ctx.violation("%s/%s" % (name, k), "%s holds %r" % (k, v.ravel()[~(np.isfinite(v) & (v > 0) & (v < 5)).ravel()][:3]), wit)
            if spec.kind == "gmm" and o["std_sa"].shape != o["ln_sa"].shape:
                ctx.violation(name + "/std-shape", "%s standard deviations for %s ordinates" % (o["std_sa"].shape, o["ln_sa"].shape), wit)
            if "tau" in o and "phi" in o:
                lay = spec.layout
                tau, phi = o["tau"], o["phi"]
                idx = list(lay["psa"]) + [lay[k] for k in ("pga", "pgv") if lay.get(k) is not None]
                tot = np.r_[o["std_sa"], [float(o["std_" + k]) for k in ("pga", "pgv") if lay.get(k) is not None]]
                if tau.shape != phi.shape or tau.size <= max(idx):
                    ctx.violation(name + "/parts-shape", "parts have shapes %s and %s" % (tau.shape, phi.shape), wit)
                    continue
                ctx.count("compositions", len(idx))
                if not np.allclose(tot**2, tau[idx] ** 2 + phi[idx] ** 2, rtol=1e-9):
                    ctx.violation(name + "/composition", "total variability is not the root of the sum of squares of its parts", wit)
                # the ASK14 amplification can cancel a part on soils softer than its limit
                if models.in_limits(spec, s) and ((tau[idx] <= 0).any() or (phi[idx] <= 0).any()):
                    ctx.violation(name + "/parts-sign", "a variability part is not positive", wit)
    ctx.require(ctx.counters.get("std_values", 0) > 1000, "no standard deviations observed")
