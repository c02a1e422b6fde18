"""Array arguments: never modified, any container, element by element."""
import array

from .. import gen, models, sut
from .families import query_periods


# functions working on arrays of any shape
TABLES = ("GA11.interp", "AS96.interp", "calc_correls", "PR24.duration_model") + tuple(n + ".interp" for n in models.ORDER)


class Call:
    """One function under test: elements xs passed as its array argument."""

    def __init__(self, name, fn, xs, kind="vector", grouped=()):
        self.name, self.fn, self.xs, self.kind, self.grouped = name, fn, xs, kind, grouped


def Kind(np, made=[]):
    if not made:
        made.append(type("Kind", (np.ndarray,), {}))
    return made[0]


def forms(np, xs, rng):
    """The same values in different containers."""
    a = np.array(xs)
    big = np.zeros(2 * len(xs))
    big[::2] = a
    rev = np.array(xs[::-1])
    ro = np.array(xs)
    ro.setflags(write=False)
    out = [("array", np.array(xs)), ("list", list(xs)), ("tuple", tuple(xs)), ("strided", big[::2]), ("reversed-view", rev[::-1]), ("read-only", ro),
           ("numpy-scalars", [np.float64(x) for x in xs]), ("big-endian", np.array(xs).astype(">f8")), ("array.array", array.array("d", xs)),
           ("subclass", np.array(xs).view(Kind(np)))]
    import pandas as pd

    order = list(range(len(xs)))
    rng.shuffle(order)
    out.append(("series", pd.Series([float(x) for x in xs], index=order)))
    if all(float(x).is_integer() for x in xs):
        out += [("int-list", [int(x) for x in xs]), ("int-array", np.array([int(x) for x in xs]))]
        out += [("int32-array", np.array([int(x) for x in xs], dtype=np.int32)), ("numpy-integers", [rng.choice([np.int32, np.int64])(x) for x in xs])]
    return out


def array_arguments(ctx):
    """Every function taking arrays leaves them alone and treats them element by element."""
    import numpy as np
    import pygmm
    from pygmm.baker_jayaram_2008 import calc_cond_mean_spectrum, calc_correls
    from pygmm.kishida_2017 import calc_cond_mean_spectrum_vector
    from pygmm.pinilla_ramos_et_al_2024 import duration_model

    rng = ctx.rng
    ctx.rule = (
        "every function accepting arrays called with the same values as array, list, tuple, strided and reversed views, read-only array and "
        "integers; arguments compared before and after; results compared across containers, with the permuted argument, and with the single "
        "elements. Distinct by function, values and container"
    )

    def tolist(r):
        rs = r if isinstance(r, tuple) else (r,)
        return [np.array(x, dtype=float) for x in rs]

    def same(a, b, tol=1e-9):
        return len(a) == len(b) and all(x.shape == y.shape and np.allclose(x, y, rtol=tol, atol=tol, equal_nan=True) for x, y in zip(a, b))

    def run(name, fn, xs, kind="vector", singles=True, perm=True):
        """fn(container) -> array(s) with the elements of xs along the last axis (or both axes)."""
        wit = dict(function=name, values=xs)
        ref = None
        for form, arg in forms(np, xs, rng):
            ctx.case((name, tuple(xs), form), sample=dict(wit, container=form))
            ctx.count(name)
            before = np.array(arg, copy=True)
            try:
                res = fn(arg)
            except Exception as e:
                ctx.violation("%s/raised/%s" % (name, form), "%s raised %r for a %s" % (name, e, form), wit)
                continue
            for r in res if isinstance(res, tuple) else (res,):
                if isinstance(arg, np.ndarray) and isinstance(r, np.ndarray) and np.shares_memory(arg, r):
                    ctx.violation("%s/aliased" % name, "the result shares memory with the argument", wit)
            if not np.array_equal(before, np.asarray(arg)):
                ctx.violation("%s/modified" % name, "the argument (%s) became %s" % (form, np.asarray(arg)), wit)
            out = tolist(res)
            if ref is None:
                ref = out
                for o in out:
                    want = (len(xs), len(xs)) if kind == "matrix" else (len(xs),)
                    if kind != "rows" and o.shape != want:
                        ctx.violation("%s/shape" % name, "shape %s for %d values" % (o.shape, len(xs)), wit)
                        return
            elif not same(out, ref):
                ctx.violation("%s/container/%s" % (name, form), "a %s gives other values than an array" % form, dict(wit, got=out, expected=ref))
        if ref is None:
            return
        n = len(xs)
        if perm and n > 1:
            p = rng.sample(range(n), n)
            try:
                out = tolist(fn([xs[i] for i in p]))
            except Exception as e:
                ctx.violation("%s/permuted" % name, "raised %r" % e, wit)
                return
            want = [r[np.ix_(p, p)] if kind == "matrix" else r[..., p] for r in ref]
            if not same(out, want):
                ctx.violation("%s/permuted" % name, "permuting the argument does not permute the result", dict(wit, order=p))
        if singles:
            if kind == "matrix":
                if n < 2:
                    return
                i, j = rng.sample(range(n), 2)
                out = tolist(fn([xs[i], xs[j]]))[0]
                want = ref[0][np.ix_([i, j], [i, j])]
                if not np.allclose(out, want, rtol=1e-9, atol=1e-12):
                    ctx.violation("%s/single" % name, "the pair %r gives %s alone, %s in the matrix" % ([xs[i], xs[j]], out, want), wit)
            else:
                i = rng.randrange(n)
                out = tolist(fn([xs[i]]))
                if not same([o.reshape(o.shape[:-1]) for o in out], [r[..., i] for r in ref]):
                    ctx.violation("%s/single" % name, "element %r gives another value alone" % xs[i], wit)
                if name.startswith(TABLES) and ref[0].ndim == 1:
                    shape = rng.choice([(n, 1), (1, n), (1, n, 1)] + ([(2, n // 2), (n // 2, 2)] if n % 2 == 0 else []))
                    ctx.count("tables")
                    try:
                        out = tolist(fn(np.array(np.array(xs).reshape(shape), order=rng.choice("CF"))))
                    except Exception as e:
                        out = []
                        ctx.violation("%s/table-raised" % name, "%r for an array of shape %s" % (e, shape), wit)
                    if out and not same(out, [r.reshape(shape) for r in ref]):
                        ctx.violation("%s/table" % name, "an array of shape %s gives other values than its elements" % (shape,), wit)
                    # of three dimensions, none of them of one value
                    many = [rng.randrange(n) for _ in range(12)]
                    shape = rng.choice([(2, 2, 3), (2, 3, 2), (3, 2, 2)])
                    ctx.count("cubes")
                    try:
                        out = tolist(fn(np.array(np.array([xs[i] for i in many]).reshape(shape), order=rng.choice("CF"))))
                    except Exception as e:
                        out = []
                        ctx.violation("%s/cube-raised" % name, "%r for an array of shape %s" % (e, shape), wit)
                    if out and not same(out, [r[many].reshape(shape) for r in ref]):
                        ctx.violation("%s/cube" % name, "an array of shape %s gives other values than its elements" % (shape,), wit)
                dup = tolist(fn([xs[i], xs[i]]))
                if not same(dup, [np.stack([r[..., i]] * 2, -1) for r in ref]):
                    ctx.violation("%s/repeated" % name, "repeating element %r gives other values" % xs[i], wit)

    def size(hi):
        """Mostly short, at times far longer arrays."""
        return rng.randint(1, hi) if rng.random() < 0.8 else rng.randint(hi + 1, 12 * hi)

    gmms = [n for n in models.ORDER if models.SPECS[n].kind == "gmm"]
    for rnd in range(ctx.n(20)):
        # interpolation of every spectral model
        for name in gmms:
            spec = models.SPECS[name]
            m = sut.build(spec, gen.scenario(spec, rng, "limits", 0.5))
            per = [float(x) for x in m.periods]
            T = query_periods(rng, per, size(7))
            if rng.random() < 0.3:
                T = [float(x) for x in rng.sample([1, 2, 3, 4], 3)]
            f = rng.choice(["interp_spec_accels", "interp_ln_spec_accels", "interp_ln_stds"])
            run(name + "." + f, getattr(m, f), T)
        spec = models.SPECS["GA11"]
        m = sut.build(spec, gen.scenario(spec, rng, "limits", 0.5))
        T = query_periods(rng, [0.01, 0.1, 0.5, 1.0, 10.0], size(7))
        run("GA11.interp_ratio", m.interp_ratio, T)
        run("GA11.interp_ln_std", m.interp_ln_std, T)
        # AS96
        spec = models.SPECS["AS96"]
        m = sut.build(spec, gen.scenario(spec, rng, "limits", 0.5))
        ia = [rng.choice([0.1, 0.5, 0.75, 0.95, rng.uniform(0.1, 0.95), rng.uniform(0, 1), 0.0, 1.0]) for _ in range(size(7))]
        run("AS96.interp", m.interp, ia)
        st = [rng.choice([-1.0, 0.0, 1.0, rng.uniform(-2, 2)]) for _ in range(size(4))]
        run("AS96.interp(stds)", lambda a: m.interp(a, st), ia, "rows")
        run("AS96.interp(.., stds)", lambda a: np.asarray(m.interp(ia, a)).T, st, "rows")
        inside = [x for x in ia if 0.1 <= x <= 0.95] or [0.3]
        run("AS96.calc_ln_dur_incr", lambda a: pygmm.AbrahamsonSilva1996.calc_ln_dur_incr(np.asarray(a)), inside)
        # correlations
        T = [10 ** rng.uniform(-2, 1) for _ in range(size(8))]
        if rng.random() < 0.4:
            T[0] = rng.choice([0.109, 0.2, 0.01, 1.0, 10.0])
        tc = rng.choice(T + [0.109, 0.2, 10 ** rng.uniform(-2, 1)])
        run("calc_correls", lambda a: calc_correls(a, tc), T)
        T = sorted(set(T))
        if len(T) > 1:
            ln, sd = [rng.uniform(-4, 1) for _ in T], [rng.uniform(0.4, 0.9) for _ in T]
            if rng.random() < 0.4:  # whole numbers, which may come as integers
                ln, sd = [float(round(v)) for v in ln], [float(rng.randint(1, 2)) for _ in T]
            t2 = rng.choice(T)
            x = rng.uniform(-3, 1)
            run("cms(periods)", lambda a: calc_cond_mean_spectrum(a, ln, sd, t2, x), T, singles=False, perm=False)
            run("cms(ln_psas)", lambda a: calc_cond_mean_spectrum(T, a, sd, t2, x), ln, singles=False, perm=False)
            run("cms(ln_stds)", lambda a: calc_cond_mean_spectrum(T, ln, a, t2, x), sd, singles=False, perm=False)
            mask = [rng.random() < 0.5 for _ in T]
            mask[rng.randrange(len(T))] = False
            tgt = np.ma.array([v + rng.uniform(-1, 1) for v in ln], mask=mask)
            run("cmsv(periods)", lambda a: calc_cond_mean_spectrum_vector(a, ln, sd, tgt), T, singles=False, perm=False)
            run("cmsv(ln_psas)", lambda a: calc_cond_mean_spectrum_vector(T, a, sd, tgt), ln, singles=False, perm=False)
            run("cmsv(ln_stds)", lambda a: calc_cond_mean_spectrum_vector(T, ln, a, tgt), sd, singles=False, perm=False)
            # the target itself: partly, fully and nowhere masked, without a mask, the mask of the caller, a view, read-only
            for form in ("partly", "full-mask-array", "no-masked-entry", "no-mask", "view", "read-only"):
                vals = np.array([v + rng.uniform(-1, 1) for v in ln])
                if form in ("partly", "view", "read-only"):
                    owned = np.ma.array(np.repeat(vals, 2), mask=np.repeat(mask, 2))
                    t = np.ma.array(vals, mask=list(mask)) if form != "view" else owned[::2]
                elif form == "full-mask-array":
                    t = np.ma.array(vals, mask=np.zeros(len(vals), dtype=bool))
                elif form == "no-masked-entry":
                    t = np.ma.array(vals, mask=[False] * len(vals), shrink=False, fill_value=rng.choice([0.0, -999.0]))
                else:
                    t = np.ma.array(vals)
                if form == "read-only":
                    t.data.flags.writeable = False
                t0, m0, f0 = np.ma.getdata(t).copy(), np.ma.getmaskarray(t).copy(), getattr(t, "fill_value", None)
                wit = dict(periods=T, target=t0, mask=m0, form=form)
                ctx.case(("cmsv target", form, tuple(T)))
                ctx.count("conditioning_targets")
                given = [np.array(T), np.array(ln), np.array(sd)]
                try:
                    res = calc_cond_mean_spectrum_vector(*given, t)
                except Exception as e:
                    ctx.violation("cmsv/raised/" + form, "%r" % e, wit)
                    continue
                for r in res:
                    for part in (np.ma.getdata(r), np.ma.getmaskarray(r) if isinstance(r, np.ma.MaskedArray) else np.zeros(0)):
                        if any(np.shares_memory(part, q) for q in (np.ma.getdata(t), np.ma.getmask(t), *given)):
                            ctx.violation("cmsv/target-shared", "a result shares memory with an argument", wit)
                    try:
                        np.ma.getdata(r)[...] = 77.0  # the caller's own array from here on
                    except ValueError:
                        pass
                if not (np.array_equal(t0, np.ma.getdata(t)) and np.array_equal(m0, np.ma.getmaskarray(t)) and f0 == getattr(t, "fill_value", None)):
                    ctx.violation("cmsv/target-modified", "the conditioning target was modified", wit)
        F = [10 ** rng.uniform(-1, 1.4) for _ in range(rng.randint(1, 6) if rnd % 7 else rng.randint(7, 30))]
        if rng.random() < 0.3:
            F = [float(v) for v in rng.sample([1, 2, 3, 5, 8, 10, 20], 4)]
        B, S = pygmm.BaylessAbrahamson2018, pygmm.Stafford2017
        run("BA18.corr", B.corr, F, "matrix")
        comp = rng.choice(["tau", "phi_s2s", "phi_s", "sigma"])
        run("BA18.cov", lambda a: B.cov(a, component=comp), F, "matrix")
        sd = [rng.uniform(0.3, 1.0) for _ in F]
        run("BA18.cov(std)", lambda a: B.cov(F, std=a), sd, "matrix", singles=False, perm=False)
        mg = rng.uniform(3.5, 8)
        run("Stafford.cov", lambda a: S.cov(a, mag=mg), F, "matrix")
        run("Stafford.cor", lambda a: S.cor(a, mag=mg), F, "matrix")
        for k in ("sigma_E", "sigma_S", "sigma_A"):
            run("Stafford.cov(%s)" % k, lambda a: S.cov(F, mag=mg, **{k: a}), sd, "matrix", singles=False, perm=False)
        run("Stafford.compute_variances", S.compute_variances, F)
        # PR24 over arrays
        n = size(6)
        ms = [rng.choice([5.0, 6.0, 6.5, 7.0, rng.uniform(4.5, 8.5)]) for _ in range(n)]
        rs = [rng.choice([0.0, 250.0, rng.uniform(0, 400)]) for _ in range(n)]
        reg, et = rng.choice([("Japan", "interface"), ("Japan", "slab"), ("Taiwan", "slab"), ("New Zealand", "interface"), ("South America", "slab")])
        en = rng.choice([0.1, 0.35, 0.75, 0.95])
        vs = rng.uniform(150, 2000)
        if rng.random() < 0.3:
            ms, rs = [float(round(v)) for v in ms], [float(round(v)) for v in rs]
        run("PR24.duration_model(mag)", lambda a: duration_model(a, 80.0, vs, reg, et, en), ms)
        run("PR24.duration_model(rrup)", lambda a: duration_model(6.7, a, vs, reg, et, en), rs)
        run("PR24.duration_model(vs30)", lambda a: duration_model(6.7, 80.0, a, reg, et, en), [150.0 + 30 * abs(r) for r in rs])
        # the AGA16 adjustments
        spec = models.SPECS["AGA16"]
        s = gen.scenario(spec, rng, "limits", 0.5)
        adj = [rng.uniform(-0.5, 0.5) if rnd % 3 else float(rng.randint(-1, 1)) for _ in range(23)]
        cls = spec.load()
        got = []
        for form, arg in forms(np, adj, rng):
            before = np.array(arg, copy=True)
            try:
                m = sut.build(spec, s, "scenario", dict(adjust_c1=arg), cls)
                o = models.observe(spec, m, np)
            except Exception as e:
                ctx.violation("AGA16.adjust_c1/raised/" + form, "%r" % e, dict(inputs=gen.clean(s)))
                continue
            ctx.case(("AGA16.adjust_c1", gen.key(s), form))
            if not np.array_equal(before, np.asarray(arg)):
                ctx.violation("AGA16.adjust_c1/modified", "the adjustments given as %s were modified" % form, dict(inputs=gen.clean(s)))
            got.append(o)
            # the array stays the caller's: what happens to it afterwards is
            # nothing to the model
            kept = np.array(m.adjust_c1, copy=True)
            if isinstance(arg, np.ndarray):
                if np.shares_memory(arg, np.asarray(m.adjust_c1)):
                    ctx.violation("AGA16.adjust_c1/shared", "the model keeps the array of adjustments it was given as %s" % form, dict(inputs=gen.clean(s)))
                if arg.flags.writeable:
                    arg[...] = 77
            elif isinstance(arg, list):
                arg[:] = [77.0] * len(arg)
            if not np.array_equal(kept, np.asarray(m.adjust_c1)) or models.compare(o, models.observe(spec, m, np), np, 0)[1]:
                ctx.violation("AGA16.adjust_c1/kept", "writing to the adjustments given as %s changed the model" % form, dict(inputs=gen.clean(s)))
            if models.compare(got[0], o, np, 1e-12)[1]:
                ctx.violation("AGA16.adjust_c1/container", "adjustments given as %s give other values" % form, dict(inputs=gen.clean(s)))
    ctx.require(len([k for k in ctx.counters]) > 20, "few functions exercised")
