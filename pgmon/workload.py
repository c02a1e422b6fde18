"""A fixed list of evaluations covering the whole public interface, for the history, schedule and process monitors."""
import hashlib
import random

from . import gen, models, sut


def _h(np, *vals):
    h = hashlib.sha1()
    for v in vals:
        a = np.asarray(v)
        if a.dtype.names:
            a = np.array([np.asarray(a[n], dtype=float) for n in a.dtype.names])
        a = np.ascontiguousarray(a, dtype=float)
        h.update(repr(a.shape).encode())
        h.update(a.tobytes())
    return h.hexdigest()


def model_jobs(seed, n):
    """(key, spec, scenario, options) covering every model."""
    jobs = []
    for name in models.ORDER:
        spec = models.SPECS[name]
        rng = random.Random("jobs/%s/%s" % (name, seed))
        for i in range(n):
            s = gen.scenario(spec, rng, "limits", rng.choice([0.2, 0.6, 1.0]))
            jobs.append(("%s#%d" % (name, i), spec, s, sut.ctor_options(spec, rng)))
    return jobs


def observe_all(spec, s, ctor, np):
    """Model and digest of everything it reports (or of the error)."""
    try:
        m = sut.build(spec, s, "scenario", ctor)
    except Exception as e:
        return None, "raised " + type(e).__name__
    return m, read(spec, m, np)


KINDS = ["linear", "linear", "nearest", "zero", "slinear", "quadratic", "cubic", None, "unknown"]


def operations(spec, rng, np, n, twins=False):
    """(name, function of a model) for what can be asked of an instance of the model, also what it refuses.

    With `twins`, many of the lists of periods come a second time with one of the elements changed, and some are long.
    """
    out = []

    def add(name, fn):
        def op(m):
            try:
                r = fn(m)
                h = _h(np, *(r if isinstance(r, (tuple, list)) else (r,)))
                if isinstance(r, np.ndarray) and not r.dtype.names and r.flags.writeable and "interp" in name:
                    r[...] = -7.5  # the caller's own array from here on
                return h
            except Exception as e:
                return "raised " + type(e).__name__

        out.append((name, op))

    def queries():
        q = [10 ** rng.uniform(-2.2, 1.2) for _ in range(rng.randint(1, 6) if not twins or rng.random() < 0.6 else rng.randint(1001, 1400))]
        return rng.choice([q, np.array(q), tuple(q), q[0]])

    def twin(q):
        i = rng.randrange(len(q)) if np.ndim(q) else 0
        c = lambda v: v * (1 + 10 ** rng.uniform(-9, -0.5))
        return c(q) if not np.ndim(q) else type(q)(c(v) if j == i else v for j, v in enumerate(q)) if isinstance(q, (list, tuple)) else np.array([c(v) if j == i else v for j, v in enumerate(q)])

    for _ in range(n):
        r = rng.random()
        if spec.kind == "gmm" and r < 0.7:
            f, q, k = rng.choice(["interp_spec_accels", "interp_ln_spec_accels", "interp_ln_stds"]), queries(), rng.choice(KINDS)
            for q in [q, twin(q)] if twins else [q]:
                add("%s(%s)" % (f, k), (lambda m, f=f, q=q, k=k: getattr(m, f)(q, k)) if k else (lambda m, f=f, q=q: getattr(m, f)(q)))
        elif spec.kind == "gmm":
            f = rng.choice(["pga", "pgv", "pgd", "ln_std_pga", "ln_std_pgv", "ln_std_pgd", "spec_accels", "ln_stds", "periods"])
            add(f, lambda m, f=f: getattr(m, f))
        elif spec.kind == "ratio" and r < 0.7:
            f, q = rng.choice(["interp_ratio", "interp_ln_std"]), queries()
            for q in [q, twin(q)] if twins else [q]:
                add(f, lambda m, f=f, q=q: getattr(m, f)(q))
        elif spec.kind == "as96":
            q, sd = [rng.uniform(0, 1) for _ in range(rng.randint(1, 5))], rng.choice([None, [0.0], [-1, 1], [1.5, 0.0, -2.0]])
            add("interp(%s)" % sd, lambda m, q=q, sd=sd: m.interp(q, sd))
        elif spec.name in ("PR23", "PR24") and r < 0.8:
            e = rng.choice([0.1, 0.3, 0.75, 0.95, rng.uniform(0.1, 0.95), 0.05, 0.99])
            add("duration_for_energy(%r)" % e, lambda m, e=e: m.duration_for_energy(e))
            if spec.name == "PR24":
                lab = rng.choice(["D5-10", "D5-50", "D5-95", "D5-75", "D5-1"])
                add("d5x(%s)" % lab, lambda m, lab=lab: (m.d5x_median(lab), m.d5x_sigma(lab)))
        else:
            add("everything", lambda m: [v for _, v in sorted(models.observe(spec, m, np).items())])
    return out


def read(spec, m, np):
    if m is None:
        return None
    try:
        return _read(spec, m, np)
    except Exception as e:
        return "raised " + type(e).__name__


def _read(spec, m, np):
    o = models.observe(spec, m, np)
    parts = [o[k] for k in sorted(o)]
    if spec.kind == "gmm":
        p = m.periods
        q = [float(p[0]), float(np.sqrt(p[2] * p[3])), float(p[-1]) * 0.9]
        parts += [p, m.interp_ln_spec_accels(q), m.interp_spec_accels(q), m.interp_ln_stds(q)]
    elif spec.kind == "ratio":
        parts += [m.interp_ratio([0.02, 0.33, 2.0]), m.interp_ln_std([0.02, 0.33, 2.0])]
    elif spec.kind == "eas":
        parts += [m.freqs]
    elif spec.kind == "as96":
        parts += [m.interp([0.1, 0.4, 0.9]), m.interp([0.2, 0.75], [-1, 1])]
    elif spec.kind == "pr":
        parts += list(m.duration_for_energy(0.3)) + list(m.duration_for_energy(0.95))
    if hasattr(m, "adjust_c1"):
        parts.append(m.adjust_c1)
    return _h(np, *parts)


def function_jobs(seed, np):
    """(key, thunk) for the stand-alone functions."""
    import pygmm
    from pygmm.baker_jayaram_2008 import calc_cond_mean_spectrum, calc_correls
    from pygmm.kishida_2017 import calc_cond_mean_spectrum_vector
    from pygmm.pinilla_ramos_et_al_2024 import duration_model

    rng = random.Random("functions/%s" % seed)
    jobs = []

    def add(key, fn, *args, **kw):
        def thunk(shift=None, other=None):
            """The call as it is, or with arguments close by (and, if `other`, another choice where there is one)."""
            try:
                a = args if shift is None else [sut.shifted(v, shift, np) for v in args]
                if other or (other is None and shift is not None and shift.random() < 0.3):
                    a = [sut.chosen(v, shift) for v in a]
                r = fn(*a, **kw)
            except Exception as e:
                return "raised " + type(e).__name__
            h = _h(np, *(r if isinstance(r, tuple) else (r,)))
            for v in r if isinstance(r, tuple) else (r,):
                # the caller's own arrays from here on
                if isinstance(v, np.ndarray) and v.dtype.kind == "f" and v.flags.writeable:
                    v[...] = -7.5
            return h

        jobs.append((key, thunk))

    from pygmm.abrahamson_bhasin_2020 import AbrahamsonBhasin2020
    from pygmm.pinilla_ramos_et_al_2023 import PinillaRamosEtAl2023
    from pygmm.pinilla_ramos_et_al_2024 import PinillaRamosEtAl2024

    def energies(cls, e, s):
        return cls(sut.scen(s)).duration_for_energy(e)

    def labels(name, s):
        m = PinillaRamosEtAl2024(sut.scen(s))
        return m.d5x_median(name), m.d5x_sigma(name), m.d575_median, m.d575_sigma

    def interps(spec, s, f, periods, kind):
        return getattr(sut.build(spec, s), f)(periods, kind)

    def ga11(s):
        m = pygmm.GulerceAbrahamson2011(**gen.clean(s))
        return m.ratio, m.ln_std

    for i, name in enumerate(n for n in models.ORDER if models.SPECS[n].kind == "gmm"):
        spec = models.SPECS[name]
        s = gen.scenario(spec, rng, "limits", 0.6)
        T = [10 ** rng.uniform(-2.3, 1.3) for _ in range(5)]
        f = ["interp_spec_accels", "interp_ln_spec_accels", "interp_ln_stds"][i % 3]
        add("interp/%s" % name, interps, spec, s, f, T, ["linear", "nearest", "zero", "slinear", "quadratic", "cubic"][i % 6])
    for i in range(4):
        s = dict(mag=rng.uniform(4.5, 8), dist_rup=rng.uniform(0, 300), v_s30=rng.uniform(150, 1500))
        sub = dict(s, event_type="slab", region=rng.choice(["Japan", "New Zealand", "South America", "Taiwan"]))
        e = rng.uniform(0.1, 0.95) if i % 2 else rng.choice([0.1, 0.3, 0.75, 0.95])
        add("pr23energy/%d" % i, energies, PinillaRamosEtAl2023, e, s)
        add("pr24energy/%d" % i, energies, PinillaRamosEtAl2024, e, sub)
        add("pr24label/%d" % i, labels, rng.choice(["D5-10", "D5-50", "D5-95"]), sub)
        add("ga11/%d" % i, ga11, gen.scenario(models.SPECS["GA11"], rng, "limits", 1.0))
        add("ab20/%d" % i, AbrahamsonBhasin2020.ln_period_pgv, rng.uniform(4, 8))
        S = pygmm.Stafford2017
        fa, fb = rng.uniform(0.1, 2), rng.uniform(2, 25)
        add("staffordpair/%d" % i, lambda a, b, m: (S.between_event_correlation(a, b, m), S.between_site_correlation(a, b), S.within_event_correlation(a, b)), fa, fb, rng.uniform(4, 7.5))
        add("staffordstd/%d" % i, S.compute_variances, [fa, fb])
        T = sorted({round(10 ** rng.uniform(-2, 1), 4) for _ in range(8)})
        ln = [rng.uniform(-4, 0) for _ in T]
        sd = [rng.uniform(0.4, 0.9) for _ in T]
        tc = rng.choice(T)
        add("bj08/%d" % i, calc_correls, T, tc)
        add("cms/%d" % i, calc_cond_mean_spectrum, T, ln, sd, tc, rng.uniform(-3, 1))
        mask = [rng.random() < 0.6 for _ in T]
        mask[rng.randrange(len(T))] = False
        add("cmsv/%d" % i, calc_cond_mean_spectrum_vector, T, ln, sd, np.ma.array([x + 0.3 for x in ln], mask=mask))
        f = sorted(10 ** rng.uniform(-1, 1.3) for _ in range(6))
        add("ba18/%d" % i, pygmm.BaylessAbrahamson2018.corr, np.array(f))
        add("ba18cov/%d" % i, pygmm.BaylessAbrahamson2018.cov, np.array(f), component=["tau", "phi_s2s", "phi_s", "sigma"][i])
        add("stafford/%d" % i, pygmm.Stafford2017.cov, f, mag=rng.uniform(4, 7.5))
        add("staffordcor/%d" % i, pygmm.Stafford2017.cor, f, mag=rng.uniform(4, 7.5))
        reg, et = rng.choice([("Japan", "interface"), ("Taiwan", "slab"), ("South America", "slab")])
        add("pr24model/%d" % i, duration_model, np.array([5.5, 6.5, 7.5]), np.array([50.0, 120.0, 260.0]), 400.0 + i, reg, et, 0.35)
        v, m, dip = rng.uniform(150, 1500), rng.uniform(4, 8), rng.uniform(20, 90)
        reg = rng.choice(["california", "japan"])
        ask, cb = pygmm.AbrahamsonSilvaKamai2014, pygmm.CampbellBozorgnia2014
        add("z1ask/%d" % i, ask.calc_depth_1_0, v, reg)
        add("width/%d" % i, ask.calc_width, m, dip)
        add("z25/%d" % i, cb.calc_depth_2_5, v, reg)
        add("cbhyp/%d" % i, cb.calc_depth_hyp, m, dip, 1.0, 12.0)
        add("z1cy/%d" % i, pygmm.ChiouYoungs2014.calc_depth_1_0, v, reg)
        add("z1as/%d" % i, pygmm.AfshariStewart2016.calc_depth_1_0, v, reg)
        pga = rng.uniform(0.01, 1.5)
        add("bsite/%d" % i, pygmm.BooreStewartSeyhanAtkinson2014.calc_site_term, pga, v, rng.uniform(0.05, 1), reg)
        add("cbsite/%d" % i, cb.calc_site_term, pga, v, rng.uniform(0.5, 4), reg)
        cy, ask = pygmm.ChiouYoungs2014, pygmm.AbrahamsonSilvaKamai2014
        ref = np.array([rng.uniform(0.001, 1.5) for _ in cy.PERIODS])
        add("cysite/%d" % i, cy.calc_site_term, ref, v, rng.uniform(0.05, 1), reg)
        nias = [rng.uniform(0.1, 0.95) for _ in range(3)]
        add("as96incr/%d" % i, pygmm.AbrahamsonSilva1996.calc_ln_dur_incr, nias if i == 3 else np.array(nias) if i == 2 else nias[0])

    # Arguments outside of the range of the functions, most of which answer with a value all the same
    def as96(s, nias, stds):
        r = pygmm.AbrahamsonSilva1996(**s).interp(nias, stds)
        return r if isinstance(r, tuple) else (r,)

    many = sorted({round(10 ** rng.uniform(-2, 1), 9) for _ in range(1300)})
    for i in range(2):
        add("bj08/many%d" % i, calc_correls, many if i else np.array(many), rng.uniform(0.05, 5))
        add("as96incr/many%d" % i, pygmm.AbrahamsonSilva1996.calc_ln_dur_incr, [rng.uniform(0.1, 0.95) for _ in range(1100)])
        add("cms/many%d" % i, calc_cond_mean_spectrum, many, [-1.0 - x / 10 for x in many], [0.6 + x / 100 for x in many], rng.choice(many), rng.uniform(-3, 1))
    short, long_ = rng.uniform(1e-4, 0.009), rng.uniform(10.1, 300)
    for i in range(2):
        s = gen.clean(gen.scenario(models.SPECS["AS96"], rng, "limits", 1.0))
        out = [rng.uniform(0, 0.09), rng.uniform(0.2, 0.9), rng.uniform(0.951, 1.2)]
        add("as96incr/out%d" % i, pygmm.AbrahamsonSilva1996.calc_ln_dur_incr, out if i else out[0])
        add("as96interp/out%d" % i, as96, s, out, [None, 1][i])
        add("bj08/out%d" % i, calc_correls, [short, 1.0, long_], [short, long_][i])
        add("ba18/out%d" % i, pygmm.BaylessAbrahamson2018.corr, np.array([short, 1.0, long_]))
        add("stafford/out%d" % i, pygmm.Stafford2017.cor, [short, 1.0, long_], mag=rng.choice([2.0, 9.0]))
        add("z1ask/out%d" % i, ask.calc_depth_1_0, rng.uniform(-500, 0), "california")
        add("width/out%d" % i, ask.calc_width, rng.uniform(8.6, 12), [0.0, 91.0][i])
        add("z25/out%d" % i, cb.calc_depth_2_5, [rng.uniform(-500, -1), 0.0][i], "california")
        add("cysite/out%d" % i, cy.calc_site_term, ref * 100, [rng.uniform(-500, -1), 0.0][i], [None, -1.0][i], "california")
        add("cbsite/out%d" % i, cb.calc_site_term, -0.1, 5000.0, -1.0, "japan")
        add("pr24model/out%d" % i, duration_model, 9.9, 5000.0, [5.0, 5000.0][i], "Japan", "interface", [0.0, 1.0][i])
        add("ab20/out%d" % i, AbrahamsonBhasin2020.ln_period_pgv, [-5.0, 20.0][i])
    return jobs


def interface_jobs(seed, np):
    """(key, thunk) for what the package reports and refuses: warnings, missing inputs, unknown names and options, refused calls."""
    import copy
    import pickle
    import warnings

    import pygmm

    rng = random.Random("interface/%s" % seed)
    jobs = []

    def outcome(fn):
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter("always")
            try:
                r = repr(fn())
            except Exception as e:
                r = "%s %s" % (type(e).__name__, e)
        return hashlib.sha1(repr((r, [(w.category.__name__, str(w.message)) for w in seen])).encode()).hexdigest()

    def add(key, fn):
        jobs.append((key, lambda shift=None, other=None: outcome(fn)))

    def built(spec, s):
        m = sut.build(spec, s)
        return sorted((k, repr(v)) for k, v in m.scenario.items())

    for name in models.ORDER:
        spec = models.SPECS[name]
        full = gen.clean(gen.scenario(spec, rng, "limits", 1.0))
        for k in sorted(full):
            lacking = {j: v for j, v in full.items() if j != k}
            add("lacking/%s/%s" % (name, k), lambda spec=spec, s=lacking: built(spec, s))
        odd = dict(full)
        for p in spec.params:
            if p.name in full:
                if p.cat:
                    odd[p.name] = "unheard of"
                else:
                    odd[p.name] = full[p.name] * rng.choice([1e-3, 1, 1.7, 40])
        add("reports/%s" % name, lambda spec=spec, s=odd: built(spec, s))
        for p in spec.params:
            if p.cat and p.name in full:
                add("option/%s/%s" % (name, p.name), lambda spec=spec, s=dict(full, **{p.name: "unheard of"}): built(spec, s))
    S = pygmm.Scenario
    for k in ("magnitude", "data", "vs30", "Mag", "copy", ""):
        add("name/%s" % k, lambda k=k: S(**{k: 1.0}))
        add("copyname/%s" % k, lambda k=k: S(mag=6.0).copy_with(**{k: 1.0}))
        add("attribute/%s" % k, lambda k=k: getattr(S(mag=6.0), k, None) is None)
    s = S(mag=6.0, depth_tor=None, dist_jb=3.0)
    add("scenario", lambda: (repr(s), sorted(s), s == copy.copy(s), s == pickle.loads(pickle.dumps(s)), "depth_tor" in s, dict(s | {"mag": 7.0}), hasattr(s, "v_s30")))
    for k, fn in failing_jobs(seed, np):
        def run(fn=fn):
            try:
                fn()
            except Exception as e:
                return type(e).__name__
        add("refused/" + k, run)
    return jobs


def failing_jobs(seed, np):
    """(key, thunk) for calls the package refuses (or may refuse) part of the way through."""
    import pygmm
    from pygmm.baker_jayaram_2008 import calc_cond_mean_spectrum, calc_correls
    from pygmm.kishida_2017 import calc_cond_mean_spectrum_vector
    from pygmm.pinilla_ramos_et_al_2024 import duration_model

    rng = random.Random("failing/%s" % seed)

    def energy(x):
        from pygmm.pinilla_ramos_et_al_2023 import PinillaRamosEtAl2023

        return PinillaRamosEtAl2023(sut.scen(dict(mag=6.0, dist_rup=20.0, v_s30=400.0, dist_jb=20.0, depth_1_0=0.2))).duration_for_energy(x)

    def call(k, fn):
        own = random.Random("failing/%s/%s" % (seed, k))
        return fn(lambda a=0.05, b=0.9: own.uniform(a, b))

    gm = pygmm.Idriss2014(sut.scen(dict(mag=6.0, dist_rup=20.0, v_s30=600.0, mechanism="SS")))
    f = [rng.uniform(0.05, 0.9), 2.0, 9.0]
    jobs = [
        ("kishida/unsorted", lambda u: calc_cond_mean_spectrum_vector([0.1, 0.3, u(0.11, 0.29)], [u()] * 3, [u()] * 3, np.ma.masked_array([u(), 0.2, 0.3], [1, 0, 1]))),
        ("kishida/lengths", lambda u: calc_cond_mean_spectrum_vector([0.1, 0.3, u(0.4, 3)], [u()] * 2, [u()] * 3, np.ma.masked_array([u(), 0.2, 0.3], [1, 0, 1]))),
        ("cms/lengths", lambda u: calc_cond_mean_spectrum([0.1, 0.3, u(0.4, 3)], [u()] * 2, [u()] * 3, 0.3, u())),
        ("bj08/text", lambda u: calc_correls(["a %r" % u()], u())),
        ("ba18/nothing", lambda u: pygmm.BaylessAbrahamson2018.cov(f)),
        ("ba18/component", lambda u: pygmm.BaylessAbrahamson2018.cov(f, component="nothing %r" % u())),
        ("ba18/lengths", lambda u: pygmm.BaylessAbrahamson2018.cov(f, std=[u(), 0.4])),
        ("stafford/lengths", lambda u: pygmm.Stafford2017.cov(f, [0.3], [0.4, 0.5, 0.4], [0.4, 0.5, 0.4])),
        ("stafford/text", lambda u: pygmm.Stafford2017.cor(["a", "b"])),
        ("pr23/energy", lambda u: energy(u(0.96, 0.99))),
        ("pr24/region", lambda u: duration_model(6.0, 50.0, 400.0, "Atlantis %r" % u(), "interface", 0.5)),
        ("pr24/combination", lambda u: duration_model(6.0, u(50, 90), u(300, 400), "Cascadia", "shallow", u())),
        ("pr24/energy", lambda u: duration_model(np.array([5.0, 6.0]), 50.0, 400.0, "Japan", "interface", u(1.1, 1.5))),
        ("pr24/shapes", lambda u: duration_model(np.array([5.0, 6.0]), np.array([10.0, 20.0, u(20, 30)]), u(300, 400), "Japan", "interface", u())),
        ("z25/nothing", lambda u: pygmm.CampbellBozorgnia2014.calc_depth_2_5(None)),
        ("as96/text", lambda u: pygmm.AbrahamsonSilva1996.calc_ln_dur_incr("a %r" % u())),
        ("interp/kind", lambda u: gm.interp_spec_accels([u()], kind="unknown %r" % u())),
        ("interp/text", lambda u: gm.interp_ln_stds(["a %r" % u()])),
        ("pgd", lambda u: gm.pgd),
        ("scenario/unknown", lambda u: pygmm.Scenario(**{"magnitude%d" % (1e9 * u()): u(5, 6)})),
        ("scenario/copy", lambda u: pygmm.Scenario(mag=u(5, 6)).copy_with(**{"magnitude%d" % (1e9 * u()): 6.0})),
        ("model/text", lambda u: pygmm.Campbell2003(pygmm.Scenario(mag="a %r" % u(), dist_rup=u(20, 30)))),
        ("model/array", lambda u: pygmm.BooreStewartSeyhanAtkinson2014(pygmm.Scenario(mag=np.array([5.0, u(5, 6)]), dist_jb=u(20, 30), v_s30=400.0))),
        ("model/nan", lambda u: pygmm.ChiouYoungs2014(pygmm.Scenario(mag=6.0, dist_rup=u(20, 30), dist_jb=float("nan"), dist_x=10.0, dip=60.0, v_s30=400.0, mechanism="SS"))),
        ("model/noscenario", lambda u: pygmm.AtkinsonBoore2006(None)),
    ]
    jobs = [(k, lambda k=k, fn=fn: call(k, fn)) for k, fn in jobs]
    rng.shuffle(jobs)
    return jobs
