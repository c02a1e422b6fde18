"""HKR14: nearest tabulated event, over a stand-in for the large data file."""
import contextlib
import importlib
import math
import os
import re
import shutil
import sys
import tempfile
import urllib.error
import urllib.request
import warnings

from .. import core

DATA = "hermkes_kuehn_riggelsen_2014.npz"
MECH = ["RS", "SS", "NS"]


@contextlib.contextmanager
def standin(np, rng, n):
    """Module of the model reading generated records instead of the (absent) published file."""
    ev = []
    for _ in range(n):
        mech = rng.choice(MECH)
        ev.append(
            [round(rng.uniform(4, 8), 1), float(rng.choice([5, 10, 15, 20, 30])), float(mech == "RS"), float(mech == "SS"), float(mech == "NS"),
             float(rng.randint(0, 200)), float(rng.randint(1, 12) * 100)]
        )
    # twins differing in one coordinate only, over and beyond the whole range
    for _ in range(n // 4):
        e = list(rng.choice(ev))
        k, lo, hi = rng.choice([(0, 2.5, 8.8), (1, 0, 60), (5, 0, 320), (6, 80, 1600)])
        a = rng.uniform(lo, hi)
        for x in (a, a + rng.uniform(0.02, 0.2) * (hi - lo)):
            ev.append(e[:k] + [x] + e[k + 1:])
    # and close ones of other mechanisms: the mechanism decides between them
    for _ in range(n // 4):
        e = list(rng.choice(ev))
        for mech in rng.sample(MECH, 2):
            f = list(e)
            f[2:5] = [float(mech == "RS"), float(mech == "SS"), float(mech == "NS")]
            k = rng.choice([0, 1, 5, 6])
            f[k] = max(0.0, f[k] + rng.choice([-1, 1]) * rng.uniform(0, 1.4))
            ev.append(f)
    # twins closer to each other than numbers of single precision
    for _ in range(n // 6):
        e = list(rng.choice(ev))
        k = rng.choice([0, 1, 5, 6])
        ev.append(e[:k] + [e[k] + 10 ** rng.uniform(-5, -2)] + e[k + 1:])
    ev = np.array(ev)
    # repeated records would leave the nearest one undefined
    ev = np.unique(ev, axis=0)
    pr = np.empty((len(ev), 12))
    for i in range(len(ev)):
        for j in range(12):
            pr[i, j] = rng.uniform(-5, 2) if j % 2 == 0 else rng.uniform(0.3, 1.3)
    with tempfile.TemporaryDirectory(prefix="pgmon-") as tmp:
        # a copy of the package as it is now, with the generated records as its data file
        dst = os.path.join(tmp, "pygmm")
        shutil.copytree(os.path.join(core.SRC, "pygmm"), dst, ignore=shutil.ignore_patterns("__pycache__"))
        np.savez(os.path.join(dst, "data", DATA), events=ev, predictions=pr)
        keep = {k: sys.modules.pop(k) for k in list(sys.modules) if k.split(".")[0] == "pygmm"}
        old = urllib.request.urlretrieve

        def refuse(*a, **k):
            raise urllib.error.URLError("no network in the monitor")

        urllib.request.urlretrieve = refuse
        sys.path.insert(0, tmp)
        try:
            mod = importlib.import_module("pygmm.hermkes_kuehn_riggelsen_2014")
            if not os.path.realpath(mod.__file__).startswith(os.path.realpath(tmp) + os.sep):
                raise core.Inconclusive("the copied package was not imported")
            yield mod, ev, pr
        finally:
            sys.path.remove(tmp)
            urllib.request.urlretrieve = old
            for k in [k for k in sys.modules if k.split(".")[0] == "pygmm"]:
                del sys.modules[k]
            sys.modules.update(keep)


def query(rng, events):
    """Inputs near, on, and away from tabulated events."""
    if rng.random() < 0.35:
        e = [float(x) for x in rng.choice(list(events))]
        mech = "RS" if e[2] else "SS" if e[3] else "NS"
        s = dict(mag=e[0], depth_hyp=e[1], mechanism=mech, dist_jb=e[5], v_s30=e[6])
        if rng.random() < 0.5:
            if rng.random() < 0.5:
                s["mechanism"] = rng.choice(MECH)
            k = rng.choice(["mag", "depth_hyp", "dist_jb", "v_s30"])
            s[k] = max(0.0, s[k] + rng.choice([rng.uniform(-0.4, 0.4), rng.choice([-1, 1]) * 10 ** rng.uniform(-6, -1)]))
    elif rng.random() < 0.4:
        # between or beyond two records that differ in one coordinate
        ev = [[float(x) for x in e] for e in events]
        e = rng.choice(ev)
        tw = [(f, [i for i in range(7) if e[i] != f[i]]) for f in ev]
        tw = [(f, d[0]) for f, d in tw if len(d) == 1]
        f, k = rng.choice(tw) if tw else (e, 0)
        q = list(e)
        q[k] = max(0.0, e[k] + rng.uniform(-0.3, 1.3) * (f[k] - e[k]))
        s = dict(mag=q[0], depth_hyp=q[1], mechanism="RS" if q[2] else "SS" if q[3] else "NS", dist_jb=q[5], v_s30=q[6])
    else:
        s = dict(mag=rng.uniform(4, 8), mechanism=rng.choice(MECH), dist_jb=rng.uniform(0, 200), v_s30=rng.uniform(100, 1200))
        s["depth_hyp"] = rng.uniform(0, 40) if rng.random() < 0.6 else None
    return s


def scen(s):
    from pygmm import Scenario

    return Scenario(**{k: v for k, v in s.items() if v is not None})


def predict(s, events, preds):
    """Record of the nearest event: (record, distance, distance of the runner-up)."""
    d = s["depth_hyp"] if s["depth_hyp"] is not None else 15
    q = [s["mag"], d, float(s["mechanism"] == "RS"), float(s["mechanism"] == "SS"), float(s["mechanism"] == "NS"), s["dist_jb"], s["v_s30"]]
    best = sorted((math.dist(q, [float(x) for x in e]), i) for i, e in enumerate(events))
    return preds[best[0][1]], best[0][0], best[1][0]


LIMITS = {"depth_hyp": (0, 40), "dist_jb": (0, 200), "mag": (4, 8), "v_s30": (100, 1200)}


def declared_inputs(ctx, part):
    """Required inputs, default and options ("options") or limits ("limits") of the model that needs the stand-in records."""
    import numpy as np

    rng = ctx.rng
    with standin(np, rng, 20) as (mod, ev, pr):
        cls = mod.HermkesKuehnRiggelsen2014

        def build(t):
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                m = cls(scen(t))
            return m, [str(w.message) for w in ws if issubclass(w.category, UserWarning)]

        for _ in range(ctx.n(40)):
            s = dict(mag=rng.uniform(4, 8), depth_hyp=rng.uniform(0, 40), dist_jb=rng.uniform(0, 200), v_s30=rng.uniform(100, 1200), mechanism=rng.choice(MECH))
            t = dict(s)
            wit = dict(model="HKR14", inputs=t)
            ctx.case(("HKR14", part, str(sorted(s.items()))))
            try:
                if part == "limits":
                    out = {}
                    for k in rng.sample(sorted(LIMITS), rng.randint(1, 3)):
                        i = rng.randrange(2)
                        e = float(LIMITS[k][i])
                        away = (-1, 1)[i]
                        t[k] = rng.choice([e, math.nextafter(e, away * math.inf), math.nextafter(e, -away * math.inf), e + away * rng.uniform(0.01, 50)])
                        if t[k] < LIMITS[k][0] or t[k] > LIMITS[k][1]:
                            out[k] = (t[k], e, "less" if i == 0 else "greater")
                    m, ws = build(t)
                    for k in LIMITS:
                        hits = [w for w in ws if k in w]
                        if k in out:
                            ctx.count("limit_exceedances")
                            v, e, word = out[k]
                            nums = [float(x) for w in hits for x in re.findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?", w.replace(k, " "))]
                            if len(hits) != 1 or word not in hits[0] or v not in nums or e not in nums:
                                ctx.violation("HKR14/limit-missing/" + k, "%s=%r is %s than %r: %s" % (k, v, word, e, hits), wit)
                        elif hits:
                            ctx.violation("HKR14/limit-false/" + k, "%s=%r was reported: %s" % (k, t[k], hits), wit)
                        if m.scenario[k] != t[k]:
                            ctx.violation("HKR14/limit-value/" + k, "%s=%r became %r" % (k, t[k], m.scenario[k]), wit)
                    continue
                t["depth_hyp"] = None
                m, ws = build(t)
                if m.scenario["depth_hyp"] != 15 or any("depth_hyp" in w for w in ws):
                    ctx.violation("HKR14/default/depth_hyp", "unset depth_hyp became %r (%s)" % (m.scenario["depth_hyp"], ws), wit)
                if not np.array_equal(m.spec_accels, build(dict(s, depth_hyp=15))[0].spec_accels):
                    ctx.violation("HKR14/default-values", "leaving out depth_hyp differs from giving the default", wit)
                if m.scenario["mechanism"] != s["mechanism"] or ws:
                    ctx.violation("HKR14/option-kept/mechanism", "%r became %r (%s)" % (s["mechanism"], m.scenario["mechanism"], ws), wit)
                k = rng.choice(["mag", "v_s30", "mechanism"])
                try:
                    build(dict(s, **{k: None}))
                except ValueError as e:
                    ctx.count("missing_required_rejected")
                    if k not in str(e):
                        ctx.violation("HKR14/required-name", "%r does not name %s" % (e, k), wit)
                else:
                    ctx.violation("HKR14/required", "missing %s was accepted" % k, wit)
            except Exception as e:
                ctx.violation("HKR14/raised/" + type(e).__name__, "%r" % e, wit)


def hermkes(ctx):
    """HKR14 reports the record of the nearest tabulated event."""
    import numpy as np

    rng = ctx.rng
    ctx.rule = (
        "the published file is not in the repository (a pointer to it is), so records are generated in its format; inputs on, near, between and "
        "away from the tabulated events are judged against a brute-force nearest record. Distinct by record set and inputs"
    )
    ctx.assumptions = ["the published records have the layout of tests/: (mean, variance) pairs of PGV, PGA, PSA(0.1, 0.5, 1, 4 s)"]
    per = [0.01, 0.1, 0.5, 1.0, 4.0]
    for rnd in range(ctx.n(12, 60)):
        with standin(np, rng, rng.choice([20, 80, 400])) as (mod, ev, pr):
            cls = mod.HermkesKuehnRiggelsen2014
            for _ in range(ctx.n(60, 150)):
                s = query(rng, ev)
                rec, d1, d2 = predict(s, ev, pr)
                if d2 - d1 < 1e-6:
                    ctx.count("ties_skipped")
                    continue
                wit = dict(inputs=s, record=rec)
                ctx.case((rnd, str(sorted(s.items(), key=str))), sample=wit)
                ctx.count("exact_records" if d1 == 0 else "nearest_records")
                try:
                    m = cls(scen(s))
                    got = dict(
                        periods=m.periods, spec_accels=np.log(m.spec_accels), ln_stds=m.ln_stds, pga=np.log(m.pga), pgv=np.log(m.pgv),
                        ln_std_pga=m.ln_std_pga, ln_std_pgv=m.ln_std_pgv,
                    )
                    T = [0.01, 0.05, 0.7, 4.0, 5.0]
                    got["interp"] = m.interp_ln_spec_accels(T)
                except Exception as e:
                    ctx.violation("raised/" + type(e).__name__, "%r" % e, wit)
                    continue
                mu, sd = rec[0::2], np.sqrt(rec[1::2])
                want = dict(periods=per, spec_accels=mu[1:], ln_stds=sd[1:], pga=mu[1], pgv=mu[0], ln_std_pga=sd[1], ln_std_pgv=sd[0],
                            interp=np.interp(np.log(T), np.log(per), mu[1:], right=np.nan))
                for k, w in want.items():
                    g = np.asarray(got[k], dtype=float)
                    if g.shape != np.shape(w) or not np.allclose(g, w, rtol=0, atol=1e-9, equal_nan=True):
                        ctx.violation(k, "%s is %s, the nearest record gives %s" % (k, g, w), wit)
                if rng.random() < 0.3:  # what was handed out belongs to the caller
                    for a in (m.spec_accels, m.ln_stds, m.interp_ln_stds(T)):
                        a[...] = -7.5
                    ctx.count("arrays_overwritten", 3)
                try:
                    m.pgd
                except NotImplementedError:
                    pass
                else:
                    ctx.violation("pgd", "PGD is reported", wit)
    ctx.require(ctx.counters.get("exact_records", 0) > 20, "no tabulated event was queried exactly")
