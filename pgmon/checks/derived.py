"""Estimated inputs, and the public estimators and site terms."""
import math

from .. import gen, models, sut
from .. import ref_nga as N
from .. import ref_other as O
from ..reach import Reach
from ..refutil import table

ESTIMATED = {
    "ASK14": ["width", "depth_tor"],
    "CB14": ["depth_2_5", "depth_tor", "width", "depth_bor", "depth_hyp"],
    "CY14": ["depth_tor", "depth_1_0"],
    "BA19": ["depth_1_0"],
}


def near(a, b, tol=1e-9):
    return a is not None and b is not None and abs(a - b) <= tol * max(1.0, abs(b))


def derived_inputs(ctx):
    """Inputs left out are estimated with the published relations, recorded, and used like given ones."""
    import numpy as np

    rng = ctx.rng
    ctx.rule = (
        "random scenarios with random subsets of the estimable inputs unset (absent or None); the recorded value is compared with "
        "the reference estimator, the outputs with those of the same scenario giving the estimate explicitly, and given values must "
        "be kept. Distinct by model, inputs and unset subset"
    )
    with Reach({models.SPECS[n].module for n in ESTIMATED}) as reach:
        for name, keys in ESTIMATED.items():
            spec = models.SPECS[name]
            cls = spec.load()
            for _ in range(ctx.n(700)):
                s = gen.scenario(spec, rng, rng.choice(["limits", "mix"]), 0.8)
                for k in keys:
                    if s[k] is None:
                        s[k] = gen.value(spec, spec.pmap[k], rng, "limits")
                for k in rng.sample(keys, rng.randint(1, len(keys))):
                    s[k] = None
                if name == "CB14" and rng.random() < 0.3:
                    s["mechanism"] = rng.choice(["SS", "NS", "RS"])
                if spec.fix:
                    spec.fix(s, rng)
                unset = [k for k in keys if s[k] is None]
                wit = dict(model=name, inputs=gen.clean(s), unset=unset)
                full = models.fl(spec.resolve(s))
                if any(full[k] is None or not math.isfinite(full[k]) for k in unset):
                    continue
                try:
                    m = sut.build(spec, s, rng.choice(["scenario", "none", "dict"]), None, cls)
                    rec = {k: m.scenario[k] for k in spec.pmap}
                except Exception as e:
                    ctx.violation(name + "/raised", "leaving out %s raised %r" % (unset, e), wit)
                    continue
                ctx.case((name, tuple(unset), gen.key(s)), nontrivial=bool(unset), sample=dict(wit, recorded={k: rec[k] for k in unset}))
                for k in spec.pmap:
                    if k in unset:
                        ctx.count("estimates_compared")
                        if not near(rec[k], full[k]):
                            ctx.violation("%s/estimate/%s" % (name, k), "estimated %s is %r, published relation gives %r" % (k, rec[k], full[k]), wit)
                    elif s[k] is not None and not (rec[k] == s[k]):
                        ctx.violation("%s/kept/%s" % (name, k), "given %s=%r became %r" % (k, s[k], rec[k]), wit)
                    if k in unset and getattr(m.scenario, k) != rec[k]:
                        ctx.violation("%s/recorded/%s" % (name, k), "attribute and item of the recorded %s differ" % k, wit)
                e = dict(s)
                e.update({k: rec[k] for k in unset})
                a = models.observe(spec, m, np)
                try:
                    b = sut.evaluate(spec, e, np, "scenario", None, cls)
                except Exception as ex:
                    ctx.violation(name + "/explicit-raised", "giving the estimates explicitly raised %r" % ex, wit)
                    continue
                n, bad = models.compare(a, b, np, 1e-9)
                ctx.count("values_compared", n)
                if bad:
                    ctx.violation(name + "/explicit", "giving the estimates explicitly changes %s: %r vs %r" % (bad[0], bad[2], bad[3]), wit)
        # an unset basin depth means no basin effect, as does the regional centre depth
        for name, centre in (("ASK14", N.ask14_z1), ("BSSA14", N.cy14_z1), ("AS16", lambda v, r: N.cy14_z1(v, None))):
            spec = models.SPECS[name]
            cls = spec.load()
            for _ in range(ctx.n(200)):
                s = gen.scenario(spec, rng, "limits", 0.5)
                s["depth_1_0"] = None
                t = dict(s, depth_1_0=centre(float(s["v_s30"]), s.get("region")))
                a = sut.evaluate(spec, s, np, "scenario", None, cls)
                b = sut.evaluate(spec, t, np, "scenario", None, cls)
                n, bad = models.compare(a, b, np, 1e-7)
                ctx.case((name, "basin-centre", gen.key(s)))
                if bad:
                    ctx.violation(name + "/basin-centre", "unset basin depth and the regional centre differ in %s: %r vs %r" % (bad[0], bad[2], bad[3]), dict(inputs=gen.clean(s)))
    ctx.counters["reach"] = reach.report()
    ctx.require(ctx.counters.get("estimates_compared", 0) > 500, "few estimates observed")


def estimators(ctx):
    """Stand-alone estimators and site terms against the published relations."""
    import numpy as np
    import pygmm
    from pygmm.abrahamson_bhasin_2020 import AbrahamsonBhasin2020

    AB20 = AbrahamsonBhasin2020
    rng = ctx.rng
    A, B, C, Y = (models.SPECS[n].load() for n in ("ASK14", "BSSA14", "CB14", "CY14"))
    S, E = pygmm.AfshariStewart2016, pygmm.BaylessAbrahamson2019
    A, B, C, Y, S, E, AB20 = (sut.neighbourly(o, rng, np) for o in (A, B, C, Y, S, E, AB20))
    ctx.rule = (
        "every public estimator (basin depth, rupture geometry, hypocentral depth, pulse period) and site term called directly with "
        "random, limiting and threshold arguments and every region; distinct by function and arguments"
    )

    def vs():
        return rng.choice([rng.uniform(100, 2200), rng.uniform(180, 1500), math.exp(rng.uniform(3, 8.7)), gen.near(float(rng.choice([180, 200, 360, 570.94, 610, 760, 1000, 1100, 1130, 1180, 1500])), rng)])

    def mag():
        return rng.choice([rng.uniform(3, 8.5), rng.uniform(1, 10), gen.near(rng.choice([4.97, 5.0, 5.5, 5.849, 6.75, 7.2, 7.25, 8.0]), rng)])

    def basin(v, reg):
        # also nothing, hardly anything, very deep and about the regional one
        c = rng.choice([N.ask14_z1, N.cy14_z1])(v, reg)
        return rng.choice([rng.uniform(0, 1.5), 10 ** rng.uniform(-6, 1.3), 0.0, c, c * (1 + rng.uniform(-1e-3, 1e-3)), c + rng.choice([0.2, 0.5]), rng.choice([0.15, 0.5, 1.0, 3.0])])

    def chk(name, got, want, args):
        ctx.case((name, str(args)), sample=dict(function=name, arguments=args, value=float(np.ravel(got)[0]) if np.size(got) else None))
        ctx.count(name)
        g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        if g.shape != w.shape:
            if g.size == w.size == 1:
                g = g.reshape(w.shape)
            else:
                ctx.violation(name + "/shape", "%s%s returned shape %s" % (name, args, g.shape), dict(arguments=args))
                return
        fin = np.isfinite(w)
        if (fin & ~(np.abs(g - w) <= 1e-9 * np.maximum(1, np.abs(w)))).any():
            ctx.violation(name, "%s%s returned %s, published %s" % (name, args, g.ravel()[:3], w.ravel()[:3]), dict(arguments=args, got=g, want=w))

    regions = ["california", "japan", "global", "taiwan", "italy", "china", "new_zealand", "turkey", None]
    with Reach() as reach:
        for _ in range(ctx.n(2400)):
            v, M, rg = vs(), mag(), rng.choice(regions)
            va = v
            if rng.random() < 0.15:  # whole velocities as integers
                v = float(round(v))
                va = rng.choice([int, np.int32, np.uint32, np.int64])(v)
                ctx.count("integer_velocities")
            dip = rng.choice([rng.uniform(15, 90), rng.uniform(1, 90), 90.0, 45.0, 40.0, 15.0])
            mech = rng.choice(["SS", "NS", "RS", "U"])
            try:
                chk("ASK14.calc_depth_1_0", A.calc_depth_1_0(va, rg), N.ask14_z1(v, rg), (v, rg))
                chk("ASK14.calc_depth_1_0", A.calc_depth_1_0(va), N.ask14_z1(v, None), (v,))
                chk("ASK14.calc_width", A.calc_width(M, dip), N.ask14_width(M, dip), (M, dip))
                chk("ASK14.calc_depth_tor", A.calc_depth_tor(M), N.ask14_ztor(M), (M,))
                chk("CY14.calc_depth_1_0", Y.calc_depth_1_0(va, rg), N.cy14_z1(v, rg), (v, rg))
                chk("CY14.calc_depth_tor", Y.calc_depth_tor(M, mech), N.cy14_ztor(M, mech), (M, mech))
                chk("AS16.calc_depth_1_0", S.calc_depth_1_0(va, rg), N.cy14_z1(v, rg), (v, rg))
                chk("AS16.calc_depth_1_0", S.calc_depth_1_0(va), N.cy14_z1(v, None), (v,))
                chk("BA19.calc_depth_1_0", E.calc_depth_1_0(va), O.ba19_z1(v), (v,))
                r = rng.random()
                z1 = rng.choice([rng.uniform(0.005, 2), 10 ** rng.uniform(-4, 1)])
                if r < 0.4:
                    chk("CB14.calc_depth_2_5", C.calc_depth_2_5(va, rg), N.cb14_z25(v, rg), (v, rg))
                elif r < 0.7:
                    chk("CB14.calc_depth_2_5", C.calc_depth_2_5(va, rg, z1), N.cb14_z25(v, rg, z1), (v, rg, z1))
                else:
                    chk("CB14.calc_depth_2_5", C.calc_depth_2_5(None, rg, z1), N.cb14_z25(None, rg, z1), (None, rg, z1))
                zt, zb = rng.choice([0.0, rng.uniform(0, 12)]), rng.uniform(13, 30)
                chk("CB14.calc_width", C.calc_width(M, dip, zt, zb), N.cb14_width(M, dip, zt, zb), (M, dip, zt, zb))
                if rng.random() < 0.3:  # the bottom of the crust by default
                    how = rng.choice([(), (None,), (15,)])
                    chk("CB14.calc_width", C.calc_width(M, dip, zt, *how), N.cb14_width(M, dip, zt, 15.0), (M, dip, zt) + how)
                w = rng.uniform(1, 30)
                chk("CB14.calc_depth_bor", C.calc_depth_bor(zt, dip, w), N.cb14_zbor(zt, dip, w), (zt, dip, w))
                zbor = zt + rng.uniform(0.5, 20)
                chk("CB14.calc_depth_hyp", C.calc_depth_hyp(M, dip, zt, zbor), N.cb14_zhyp(M, dip, zt, zbor), (M, dip, zt, zbor))
                chk("AB20.ln_period_pgv", AB20.ln_period_pgv(M), -4.09 + 0.66 * M, (M,))
                # site terms with an arbitrary reference motion
                pga = math.exp(rng.uniform(*rng.choice([(-7, 1), (-7, 1), (-18, 3)])))
                z = None if rng.random() < 0.3 else basin(v, rg)
                rows = table(N.T_ASK)
                ref = np.array([pga * rng.uniform(0.2, 2.5) for _ in rows])
                reg = rng.choice(["california", "japan", "global", "italy", "china", "taiwan", None])
                chk("ASK14.calc_site_term", A.calc_site_term(ref.copy(), va, z, reg), [N.ask14_site_row(c, x, v, z, reg) for c, x in zip(rows, ref)], (pga, v, z, reg))
                zb1 = None if rng.random() < 0.3 else basin(v, reg)
                chk("BSSA14.calc_site_term", B.calc_site_term(pga, va, zb1, reg), [N.bssa14_site_row(c, pga, v, zb1, reg) for c in table(N.T_BSSA)], (pga, v, zb1, reg))
                z2 = rng.choice([rng.uniform(0, 8), 1.0, 3.0, 0.0, 10 ** rng.uniform(-5, 1.5), gen.near(rng.choice([1.0, 3.0]), rng)])
                chk("CB14.calc_site_term", C.calc_site_term(pga, va, z2, reg), [N.cb14_site_row(c, pga, v, z2, reg) for c in table(N.T_CB)], (pga, v, z2, reg))
                rows = table(N.T_CY)
                ref = np.array([pga * rng.uniform(0.2, 2.5) for _ in rows])
                z3 = basin(v, reg)
                chk("CY14.calc_site_term", Y.calc_site_term(ref.copy(), va, z3, reg), [N.cy14_site_row(c, x, v, z3, reg) for c, x in zip(rows, ref)], (pga, v, z3, reg))
            except Exception as e:
                ctx.violation("estimator/raised/" + type(e).__name__, "an estimator raised %r" % e, dict(v_s30=v, mag=M, region=rg, dip=dip, mechanism=mech))
    ctx.counters["reach"] = reach.report()
