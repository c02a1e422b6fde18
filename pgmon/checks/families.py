"""Published-value checks, one per model family."""
import math

from .. import gen, models, sut
from .. import ref_other as O
from .published import run_models


def ask14(ctx):
    run_models(ctx, ["ASK14"], 7000, 80000)


def bssa14(ctx):
    run_models(ctx, ["BSSA14"], 7000, 80000)


def cb14(ctx):
    run_models(ctx, ["CB14"], 9000, 100000)


def cy14(ctx):
    run_models(ctx, ["CY14"], 9000, 100000)


def i14(ctx):
    run_models(ctx, ["I14"], 12000, 160000)


def ena(ctx):
    run_models(ctx, ["AB06", "C03", "TP05", "Pea11"], 9000, 80000)


def europe(ctx):
    run_models(ctx, ["ASB14", "DBC14"], 7000, 80000, extra=no_distance)


def no_distance(ctx, spec, cls, np):
    """ASB14 needs one of its three distances."""
    if spec.name != "ASB14":
        return
    for _ in range(ctx.n(50)):
        s = gen.scenario(spec, ctx.rng, "limits")
        for k in ("dist_jb", "dist_epi", "dist_hyp"):
            s[k] = None
        try:
            sut.build(spec, s, "scenario", cls=cls)
        except NotImplementedError:
            out = None
        except Exception as e:
            out = repr(e)
        else:
            out = "no error"
        ctx.case(("nodist", gen.key(s)))
        if out:
            ctx.violation("ASB14/no-distance", "without any distance the model gave: %s" % out, dict(inputs=gen.clean(s)))


def subduction(ctx):
    run_models(ctx, ["AGA16", "CoppB14"], 7000, 80000, extra=sub_extra)


def sub_extra(ctx, spec, cls, np):
    """The constructor options are reported as given or as the published defaults."""
    for _ in range(ctx.n(150)):
        s = gen.scenario(spec, ctx.rng, "limits")
        o = sut.ctor_options(spec, ctx.rng)
        m = sut.build(spec, s, "scenario", o, cls)
        exp = spec.ref_fn(models.fl(spec.resolve(s)), **o)["adjust_c1"]
        got = np.broadcast_to(np.asarray(m.adjust_c1, dtype=float), (len(exp),))
        ctx.case((spec.name, "options", gen.key(s), str(o)))
        if not np.allclose(got, exp, rtol=0, atol=1e-9):
            ctx.violation(spec.name + "/adjust_c1", "adjust_c1 is %s, expected %s" % (got, exp), dict(inputs=gen.clean(s), options=o))
        if m.scale_atten != o.get("scale_atten", 1.0):
            ctx.violation(spec.name + "/scale_atten", "scale_atten is %r" % m.scale_atten, dict(inputs=gen.clean(s), options=o))
        if not o:
            continue
        # the same options in another form, or by position
        form, t = ctx.rng.choice(
            [
                ("numpy", np.float64),
                ("single", lambda v: np.float32(v) if float(np.float32(v)) == v else np.float64(v)),
                ("array of no dimension", np.array),
                ("tuple", lambda v: v),
            ]
        )
        p = {k: tuple(v) if isinstance(v, list) else t(v) for k, v in o.items()}
        other = sut.build(spec, s, "scenario", p, cls)
        if spec.name == "AGA16" and ctx.rng.random() < 0.3:
            form, other = "position", cls(sut.scen(s), o.get("adjust_c1"), 0, o.get("scale_atten", 1.0))
        ctx.count("options_in_other_forms")
        a1, a2 = (np.broadcast_to(np.asarray(x.adjust_c1, dtype=float), (len(exp),)) for x in (m, other))
        if models.compare(models.observe(spec, m, np), models.observe(spec, other, np), np, 1e-9)[1] or not np.allclose(a1, a2, rtol=0, atol=1e-9):
            ctx.violation(spec.name + "/options-form", "the options given by %s give other values" % form, dict(inputs=gen.clean(s), options=o))


def ga11(ctx):
    run_models(ctx, ["GA11"], 10000, 120000, extra=ga11_extra)


def ga11_extra(ctx, spec, cls, np):
    """Interpolation of the ratio and its variability in log period, constant outside; keyword construction."""
    from ..refutil import lin, table

    per = [r.period for r in table("gulerce_abrahamson_2011-coefficients.csv")]
    psa = list(range(2, 24))
    x = [math.log(per[i]) for i in psa]
    for _ in range(ctx.n(300)):
        s = gen.scenario(spec, ctx.rng, "limits")
        m = sut.build(spec, s, "kwargs" if ctx.rng.random() < 0.5 else "scenario", None, cls)
        e = spec.expect(s)
        T = query_periods(ctx.rng, [per[i] for i in psa], gen.length(ctx.rng, 8, 500, 0.1))
        el = [lin(math.log(t), x, [e["ln_ratio"][i] for i in psa]) for t in T]
        es = [lin(math.log(t), x, [e["std"][i] for i in psa]) for t in T]
        arg = ctx.rng.choice([list, np.array, tuple])(T)
        a, b = np.log(m.interp_ratio(arg)), m.interp_ln_std(arg)
        ctx.case(("GA11 interp", gen.key(s), tuple(T)))
        for nm, got, want in (("interp_ratio", a, el), ("interp_ln_std", b, es)):
            if np.shape(got) != np.shape(want) or not np.allclose(got, want, rtol=0, atol=1e-7):
                ctx.violation("GA11/" + nm, "%s(%s) gives %s, expected %s" % (nm, T, got, want), dict(inputs=gen.clean(s), periods=T))


def query_periods(rng, native, n=8):
    out = []
    lo, hi = min(native), max(native)
    for _ in range(n):
        r = rng.random()
        if r < 0.35:
            out.append(rng.choice(native))
        elif r < 0.8:
            out.append(math.exp(rng.uniform(math.log(lo), math.log(hi))))
        elif r < 0.9:
            out.append(lo * rng.uniform(0.1, 0.99))
        else:
            out.append(hi * rng.uniform(1.01, 5))
    return out


def ba19(ctx):
    run_models(ctx, ["BA19"], 5000, 50000, extra=ba19_extra)


def ba19_extra(ctx, spec, cls, np):
    from ..refutil import table

    f = np.array([r.freq_hz for r in table("bayless_abrahamson_2019.csv")])
    for _ in range(ctx.n(20)):
        s = gen.scenario(spec, ctx.rng, "limits")
        m = sut.build(spec, s, cls=cls)
        ctx.case(("BA19 freqs", gen.key(s)))
        if np.shape(m.freqs) != f.shape or not np.allclose(m.freqs, f, rtol=1e-12):
            ctx.violation("BA19/freqs", "the reported frequencies are not the published ones", dict(inputs=gen.clean(s)))
        if not np.allclose(np.log(m.eas), m.ln_eas, rtol=0, atol=1e-9):
            ctx.violation("BA19/eas", "eas is not exp(ln_eas)", dict(inputs=gen.clean(s)))


def durations(ctx):
    run_models(ctx, ["AS96", "KS06", "AS16"], 5000, 80000, extra=dur_extra)


def dur_extra(ctx, spec, cls, np):
    rng = ctx.rng
    if spec.name == "AS96":
        for _ in range(ctx.n(800)):
            s = gen.scenario(spec, rng, "mix")
            m = sut.build(spec, s, cls=cls)
            nias = [rng.choice([0.10, 0.15, 0.5, 0.75, 0.95, 0.0999, 0.9501, rng.uniform(0.1, 0.95), rng.uniform(0, 1)]) for _ in range(gen.length(rng, 6, 200))]
            fs = models.fl(s)
            ctx.case(("AS96 interp", gen.key(s), tuple(nias)))
            got = np.asarray(m.interp(nias), dtype=float)
            want = np.array([O.as96_interp(fs, i) for i in nias])
            if got.shape != want.shape or not np.allclose(got, want, rtol=1e-9, equal_nan=True):
                ctx.violation("AS96/interp", "interp(%s) gives %s, expected %s" % (nias, got, want), dict(inputs=gen.clean(s), nias=nias))
            st = [rng.choice([-1, 0, 1, 2, rng.uniform(-3, 3)]) for _ in range(gen.length(rng, 3, 60, 0.02))]
            got = np.asarray(m.interp(nias, st), dtype=float)
            want = np.array([[O.as96_interp(fs, i, k) for i in nias] for k in st])
            if got.shape != want.shape or not np.allclose(got, want, rtol=1e-9, equal_nan=True):
                ctx.violation("AS96/interp-stds", "interp(%s, %s) gives %s, expected %s" % (nias, st, got, want), dict(inputs=gen.clean(s), nias=nias, stds=st))
            i = rng.uniform(0.1, 0.95)
            if abs(float(cls.calc_ln_dur_incr(i)) - O.as96_incr(i)) > 1e-9:
                ctx.violation("AS96/increment", "calc_ln_dur_incr(%r)" % i, dict(nias=i))
    if spec.name == "AS16":
        # an unspecified mechanism uses the published unspecified coefficients
        for _ in range(ctx.n(300)):
            s = gen.scenario(spec, rng, "mix")
            t = dict(s, mechanism=rng.choice(["U", "other", "ss"]))
            e = models.expected(spec, spec.ref_fn(models.fl(dict(spec.resolve(s), mechanism=None))))
            o = models.observe(spec, sut.build(spec, t, cls=cls), np)
            n, bad = models.compare(e, o, np)
            ctx.case(("AS16 unspecified", gen.key(t)))
            if bad:
                ctx.violation("AS16/unspecified", "unspecified mechanism: %s is %r, expected %r" % (bad[0], bad[2], bad[3]), dict(inputs=t))


ENERGY = [round(0.10 + 0.05 * i, 2) for i in range(18)]


def pr23(ctx):
    run_models(ctx, ["PR23"], 6000, 80000, extra=lambda c, s, k, np: pr_extra(c, s, k, np, O.pr23_energy))


def pr24(ctx):
    run_models(ctx, ["PR24"], 6000, 80000, extra=pr24_extra)


def close(np, got, want):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    return got.shape == want.shape and bool(np.allclose(got, want, rtol=1e-7, atol=1e-12, equal_nan=True))


def pr_extra(ctx, spec, cls, np, ref):
    rng = ctx.rng
    for _ in range(ctx.n(1500)):
        s = gen.scenario(spec, rng, "mix")
        fs = models.fl(s)
        m = sut.build(spec, s, cls=cls)
        r = rng.random()
        if r < 0.75:
            en = rng.choice(ENERGY)
        elif r < 0.85:
            en = rng.uniform(0.10, 0.95)
            k = min(abs(en - x) for x in ENERGY)
            if sorted(abs(en - x) for x in ENERGY)[1] - k < 1e-9:
                continue
        else:
            en = rng.choice([0.0999, 0.0, -1.0, 0.9501, 1.0, 2.0, 75, 95])
        ctx.case((spec.name, "energy", gen.key(s), en))
        wit = dict(model=spec.name, inputs=gen.clean(s), energy=en)
        if not 0.10 <= en <= 0.95:
            ctx.count("energies_outside_range")
            try:
                got = m.duration_for_energy(en)
            except ValueError:
                continue
            except Exception as e:
                got = repr(e)
            ctx.violation(spec.name + "/energy-range", "energy %r outside 0.10-0.95 gave %s" % (en, got), wit)
            continue
        ctx.count("energies_in_range")
        got = m.duration_for_energy(en)
        want = ref(fs, en)
        if not close(np, got, want):
            ctx.violation(spec.name + "/energy", "duration_for_energy(%r) gives %s, expected %s" % (en, got, want), wit)
        if abs(en - 0.75) < 1e-12 and not close(np, got, [m.duration, m.duration_plus_sigma, m.duration_minus_sigma]):
            ctx.violation(spec.name + "/energy-075", "duration_for_energy(0.75) differs from duration", wit)


def pr24_extra(ctx, spec, cls, np):
    from pygmm.pinilla_ramos_et_al_2024 import duration_model

    rng = ctx.rng
    pr_extra(ctx, spec, cls, np, O.pr24_energy)
    for _ in range(ctx.n(300)):
        s = gen.scenario(spec, rng, "mix")
        m = sut.build(spec, s, cls=cls)
        med, sig = O.pr24_base(models.fl(s))
        lab = rng.choice(list(O.PR24_SCALE))
        ctx.case(("PR24 d5x", gen.key(s), lab))
        if not close(np, m.d5x_median(lab), med * O.PR24_SCALE[lab]) or not close(np, m.d5x_sigma(lab), sig):
            ctx.violation("PR24/d5x", "d5x(%s) gives %r, %r" % (lab, m.d5x_median(lab), m.d5x_sigma(lab)), dict(inputs=gen.clean(s)))
        for fn in (m.d5x_median,):
            try:
                fn("D5-99")
            except ValueError:
                pass
            else:
                ctx.violation("PR24/d5x-label", "an unknown threshold is accepted", dict(inputs=gen.clean(s)))
        # unsupported combinations
        t = dict(s)
        t.update(rng.choice([dict(region="Taiwan", event_type="interface"), dict(region="Mars"), dict(event_type="crustal")]))
        try:
            sut.build(spec, t, cls=cls)
        except ValueError:
            ctx.count("unsupported_rejected")
        except Exception as e:
            ctx.violation("PR24/unsupported", "unsupported combination raised %r" % e, dict(inputs=t))
        else:
            ctx.violation("PR24/unsupported", "unsupported combination accepted", dict(inputs=t))
    for _ in range(ctx.n(250)):
        s = gen.scenario(spec, rng, "mix")
        n = gen.length(rng, 5, 40)
        mg = [gen.value(spec, spec.pmap["mag"], rng) for _ in range(n)]
        rr = [max(0.0, gen.value(spec, spec.pmap["dist_rup"], rng)) for _ in range(n)]
        vs = [gen.value(spec, spec.pmap["v_s30"], rng) for _ in range(n)]
        en = rng.choice(ENERGY)
        if rng.random() < 0.5:  # records that repeat all inputs but some
            for x in rng.sample([mg, rr, vs], rng.randint(1, 3)):
                for i in range(1, n):
                    if rng.random() < 0.7:
                        x[i] = x[rng.choice([0, i - 1])]
        mode = rng.choice(["vec", "vec", "scalar-vs", "grid", "cube", "scalar"])
        a, b, c = np.array(mg, float), np.array(rr, float), np.array(vs, float)
        if mode == "vec":
            args = rng.choice([(a, b, c), (mg, rr, vs)])
        elif mode == "scalar-vs":
            args = (a, b, vs[0])
        elif mode == "grid":
            args = (a[:, None], b[None, :], vs[0])
        elif mode == "cube":
            a, b, c = a[:4], b[:5], c[:3]
            args = [a[:, None, None], b[None, :, None], c[None, None, :]]
            args = rng.choice([args, [x.transpose(2, 0, 1) for x in args]])
        else:
            args = (mg[0], rr[0], vs[0])
        A, B, C = np.broadcast_arrays(*[np.atleast_1d(np.asarray(x, dtype=float)) for x in args])
        want = np.empty((3,) + A.shape)
        for i in np.ndindex(A.shape):
            want[(slice(None),) + i] = O.pr24_energy(
                dict(mag=float(A[i]), dist_rup=float(B[i]), v_s30=float(C[i]), region=s["region"], event_type=s["event_type"]), en
            )
        got = duration_model(args[0], args[1], args[2], s["region"], s["event_type"], en)
        ctx.case(("PR24 duration_model", tuple(mg), tuple(rr), tuple(vs), mode, en))
        ctx.count("duration_model_elements", int(A.size))
        g = np.array([np.broadcast_to(np.asarray(x, dtype=float), A.shape) if np.size(x) == A.size else np.full(A.shape, np.nan) for x in got])
        if g.shape != want.shape or not np.allclose(g, want, rtol=1e-7, equal_nan=True):
            ctx.violation(
                "PR24/duration_model",
                "duration_model over %s (%s) differs from the element-wise model" % (mode, A.shape),
                dict(mag=args[0], rrup=args[1], vs30=args[2], region=s["region"], eq_type=s["event_type"], energy=en, got=g, want=want),
            )
