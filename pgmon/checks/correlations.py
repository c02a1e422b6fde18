"""Correlation models and conditional spectra."""
import math

from .. import gen, sut
from .. import ref_other as O
from ..reach import Reach
from ..refutil import lin, table


def period(rng):
    r = rng.random()
    if r < 0.4:
        return 10 ** rng.uniform(-2, 1)
    if r < 0.6:
        return gen.near(rng.choice([0.109, 0.2, 0.01, 0.05, 0.1, 0.15, 1.0, 10.0, 5.0]), rng)
    if r < 0.75:
        return rng.uniform(0.01, 0.109)
    if r < 0.9:
        return rng.uniform(0.1, 0.25)
    return rng.choice([0.01, 0.02, 0.05, 0.075, 0.1, 0.15, 0.2, 0.3, 0.5, 1.0, 2.0, 5.0, 10.0])


def inside(x):
    return min(max(x, 0.01), 10.0)


def spectrum(rng, n):
    T = sorted({inside(period(rng)) for _ in range(n)})
    ln = [rng.uniform(-4, 1) for _ in T]
    sd = [rng.uniform(0.3, 1.0) for _ in T]
    return T, ln, sd


def whole(rng, np, ln, sd):
    """At times the spectrum in whole numbers, as integers: the arguments to pass (lists or arrays)."""
    if rng.random() > 0.15:
        return ln, sd, ln, sd
    if rng.random() < 0.8:
        ln = [float(round(v)) for v in ln]
    if rng.random() < 0.3:
        sd = [float(rng.randint(1, 2)) for _ in sd]
    form = rng.choice([list, np.array, lambda v: np.array(v, dtype=np.int32)])
    ints = lambda v: form([int(x) for x in v]) if all(x.is_integer() for x in v) else v
    return ln, sd, ints(ln), ints(sd)


def baker_jayaram(ctx):
    """Correlations follow Baker and Jayaram (2008); the conditional mean spectrum follows from them."""
    import numpy as np
    from pygmm.baker_jayaram_2008 import calc_cond_mean_spectrum, calc_correls

    rng = ctx.rng
    calc_correls, calc_cond_mean_spectrum = (sut.neighbourly(f, rng, np) for f in (calc_correls, calc_cond_mean_spectrum))
    ctx.rule = (
        "periods over and between the published ranges, on and next to 0.109 s and 0.2 s; conditioning periods on, between and next to the "
        "spectral periods. Distinct by periods and conditioning values"
    )
    with Reach(["baker_jayaram_2008"]) as reach:
        for _ in range(ctx.n(4000)):
            T = [inside(period(rng)) for _ in range(gen.length(rng, 10, 600, 0.02))]
            tc = inside(rng.choice(T) if rng.random() < 0.2 else period(rng))
            got = np.asarray(calc_correls(T, tc), dtype=float)
            want = np.array([O.bj08(t, tc) for t in T])
            ctx.case(("correls", tuple(T), tc), sample=dict(periods=T, period_cond=tc))
            wit = dict(periods=T, period_cond=tc, got=got, expected=want)
            if got.shape != want.shape or not np.allclose(got, want, rtol=0, atol=1e-10):
                ctx.violation("correls", "calc_correls(%s, %r) gives %s, published %s" % (T, tc, got, want), wit)
            if (got > 1 + 1e-12).any() or (got < -1e-9).any():
                ctx.violation("correls/range", "a correlation is outside [0, 1]", wit)
            i = rng.randrange(len(T))
            a, b = np.ravel(calc_correls([T[i]], tc))[0], np.ravel(calc_correls([tc], T[i]))[0]
            if abs(a - b) > 1e-12:
                ctx.violation("correls/symmetry", "rho(%r, %r) = %r but reversed %r" % (T[i], tc, a, b), wit)
            one = np.ravel(calc_correls([tc], tc))[0]
            if abs(one - 1) > 1e-9:
                ctx.violation("correls/unit", "rho(%r, %r) = %r" % (tc, tc, one), wit)
            ctx.count("correlations", len(T))
        for _ in range(ctx.n(2500)):
            T, ln, sd = spectrum(rng, gen.length(rng, 15, 400, 0.02, lo=2))
            if len(T) < 2:
                continue
            on = rng.random() < 0.5
            tc = rng.choice(T) if on else math.exp(rng.uniform(math.log(T[0]), math.log(T[-1])))
            if rng.random() < 0.1:
                tc = inside(period(rng))
                on = tc in T
            beyond = not T[0] <= tc <= T[-1]
            x = rng.uniform(-4, 2) if rng.random() < 0.9 else float(rng.randint(-4, 2))
            ln, sd, al, asd = whole(rng, np, ln, sd)
            # the periods come in any order, mostly increasing
            p = list(range(len(T)))
            if rng.random() < 0.3:
                ctx.count("periods_not_increasing")
                p.reverse() if rng.random() < 0.4 else rng.shuffle(p)
            at = lambda v: v[p] if isinstance(v, np.ndarray) else [v[i] for i in p]
            m, s = calc_cond_mean_spectrum(at(T), at(al), at(asd), tc, x if rng.random() < 0.9 or x != round(x) else int(x))
            back = np.argsort(p)
            m, s = np.asarray(m, dtype=float), np.asarray(s, dtype=float)
            if m.shape == s.shape == (len(T),):
                m, s = m[back], s[back]
            rho = [O.bj08(t, tc) for t in T]
            if beyond:
                # which spectrum holds there is not said: one epsilon for all ordinates
                ctx.count("conditioned_beyond_the_periods")
                i = max(range(len(T)), key=lambda i: abs(rho[i]) * sd[i])
                eps = (m[i] - ln[i]) / (rho[i] * sd[i]) if m.shape == (len(T),) else 0.0
            else:
                eps = (x - lin(tc, T, ln)) / lin(tc, T, sd)
            wm = [a + b * r * eps for a, b, r in zip(ln, sd, rho)]
            ws = [b * math.sqrt(max(0.0, 1 - r * r)) for b, r in zip(sd, rho)]
            wit = dict(periods=T, ln_psas=ln, ln_stds=sd, period_cond=tc, ln_psa_cond=x, given_in_order=p)
            ctx.case(("cms", tuple(T), tc, x), sample=wit)
            ctx.count("conditional_spectra")
            if m.shape != (len(T),) or not np.allclose(m, wm, rtol=1e-9, atol=1e-9):
                ctx.violation("cms/mean", "conditional mean is %s, expected %s" % (m, wm), wit)
            if s.shape != (len(T),) or not np.allclose(s, ws, rtol=0, atol=1e-7, equal_nan=False):
                ctx.violation("cms/std", "conditional std is %s, expected %s" % (s, ws), wit)
            if on:
                i = T.index(tc)
                if abs(m[i] - x) > 1e-9 or not s[i] < 1e-6:
                    ctx.violation("cms/conditioned", "at the conditioning period the mean is %r (asked %r), std %r" % (m[i], x, s[i]), wit)
    ctx.counters["reach"] = reach.report()


def condition(np, T, ln, sd, tgt, mask):
    """Multivariate-normal conditioning with the published correlations."""
    n = len(T)
    C = np.array([[O.bj08(a, b) * sd[i] * sd[j] for j, b in enumerate(T)] for i, a in enumerate(T)])
    k = [i for i in range(n) if not mask[i]]
    u = [i for i in range(n) if mask[i]]
    m, s = np.array(ln, dtype=float), np.zeros(n)
    cond = np.linalg.cond(C[np.ix_(k, k)])
    w = np.linalg.solve(C[np.ix_(k, k)], np.array([tgt[i] - ln[i] for i in k]))
    for i in k:
        m[i] = tgt[i]
    if u:
        B = C[np.ix_(u, k)]
        m[u] = np.array([ln[i] for i in u]) + B @ w
        s[u] = np.array([C[i, i] for i in u]) - np.einsum("ij,ji->i", B, np.linalg.solve(C[np.ix_(k, k)], B.T))
    return m, s, cond


def close(rng, T, ln, sd, k):
    """Add unconditioned periods just above some others."""
    rows = []
    for i, t in enumerate(T):
        rows.append((t, ln[i], sd[i], i in k))
        if (i in k and rng.random() < 0.6) or rng.random() < 0.1:
            u = t * (1 + 10 ** rng.uniform(-13, -1.6))
            if t < u < (T[i + 1] if i + 1 < len(T) else 1e9):
                rows.append((u, ln[i] + rng.choice([0.0, 0.1]), sd[i] * rng.choice([1.0, 1.0, 1 + 1e-9, 1.1]), False))
    return [r[0] for r in rows], [r[1] for r in rows], [r[2] for r in rows], [i for i, r in enumerate(rows) if r[3]]


def kishida(ctx):
    """Conditional mean spectrum vector is the multivariate-normal conditioning of the published correlations."""
    import numpy as np
    from pygmm.baker_jayaram_2008 import calc_cond_mean_spectrum
    from pygmm.kishida_2017 import calc_cond_mean_spectrum_vector as cmsv

    rng = ctx.rng
    cmsv = sut.neighbourly(cmsv, rng, np)
    ctx.rule = (
        "random spectra with one, several or all periods conditioned, in every position; judged against direct conditioning, against the "
        "single-period conditional mean spectrum, and for non-increasing periods. Distinct by periods, mask and targets"
    )
    with Reach(["kishida_2017"]) as reach:
        for _ in range(ctx.n(2500)):
            T, ln, sd = spectrum(rng, gen.length(rng, 12, 200, 0.02, lo=2))
            # nearly equal conditioning periods make the problem singular
            T = [t for i, t in enumerate(T) if i == 0 or t / T[i - 1] > 1.03]
            ln, sd = ln[: len(T)], sd[: len(T)]
            n = len(T)
            if n < 2:
                continue
            r = rng.random()
            nk = 1 if r < 0.35 else (n if r < 0.45 else rng.randint(1, n))
            if n > 12:
                nk = min(nk, 6)
            k = rng.sample(range(n), nk)
            if rng.random() < 0.4:  # periods next to a conditioned one, or to one another
                T, ln, sd, k = close(rng, T, ln, sd, k)
                n = len(T)
                ctx.count("periods_next_to_a_conditioned_one")
            mask = [i not in k for i in range(n)]
            ln, sd, al, asd = whole(rng, np, ln, sd)
            tgt = [a + rng.uniform(-1.5, 1.5) for a in ln]
            if al is not ln and rng.random() < 0.4:
                tgt = [int(a) + rng.randint(-1, 1) for a in ln]
            if rng.random() < 0.5 and not all(isinstance(v, int) for v in tgt):  # masked entries hold anything
                tgt = [rng.choice([math.nan, 1e9, 0.0]) if mask[i] else v for i, v in enumerate(tgt)]
            arr = np.ma.array(tgt, mask=mask) if any(mask) or rng.random() < 0.5 else np.ma.array(tgt)
            wit = dict(periods=T, ln_psas=ln, ln_stds=sd, target=[None if b else v for v, b in zip(tgt, mask)])
            ctx.case((tuple(T), tuple(mask), tuple(ln)), sample=wit)
            ctx.count("conditioned_periods_%s" % ("one" if nk == 1 else "all" if nk == n else "several"))
            try:
                m, s = cmsv(T, al, asd, arr)
            except Exception as e:
                ctx.violation("raised/" + type(e).__name__, "%r" % e, wit)
                continue
            m, s = np.asarray(m, dtype=float), np.asarray(s, dtype=float)
            wm, var, cond = condition(np, T, ln, sd, tgt, mask)
            if m.shape != (n,) or s.shape != (n,):
                ctx.violation("shape", "shapes %s and %s" % (m.shape, s.shape), wit)
                continue
            if not all(abs(m[i] - tgt[i]) < 1e-9 and s[i] == 0 for i in k):
                ctx.violation("conditioned", "conditioned ordinates are %s with std %s" % (m[k], s[k]), wit)
            if cond < 1e8:
                ctx.count("compared_with_conditioning")
                tol = 1e-12 * cond + 1e-8
                if not np.allclose(m, wm, rtol=0, atol=tol):
                    ctx.violation("mean", "means are %s, conditioning gives %s" % (m, wm), wit)
                if not np.allclose(s**2, np.maximum(var, 0), rtol=1e-6, atol=1e-12 * cond + 1e-12):  # also not NaN
                    ctx.violation("variance", "stds are %s, conditioning gives variances %s" % (s, var), wit)
                ok = var > 1e-9 * cond
                if not np.allclose(s[ok], np.sqrt(var[ok]), rtol=1e-6 + 1e-10 * cond, atol=1e-9):
                    ctx.violation("std", "stds are %s, conditioning gives %s" % (s[ok], np.sqrt(var[ok])), wit)
                if (s[ok] > np.array(sd)[ok] * (1 + 1e-9)).any():
                    ctx.violation("std-grows", "conditioning increases a standard deviation", wit)
            if nk == 1:
                cm, cs = calc_cond_mean_spectrum(T, ln, sd, T[k[0]], tgt[k[0]])
                ctx.count("compared_with_single_period")
                if not np.allclose(m, cm, rtol=0, atol=1e-8) or not np.allclose(s**2, np.asarray(cs) ** 2, rtol=0, atol=1e-8):
                    ctx.violation("single", "one conditioned period differs from the conditional mean spectrum", wit)
        for _ in range(ctx.n(300)):
            T, ln, sd = spectrum(rng, 6)
            if len(T) < 3:
                continue
            U = list(T)
            i, j = sorted(rng.sample(range(len(U)), 2))
            if rng.random() < 0.5:
                U[i], U[j] = U[j], U[i]
            else:
                U[j] = U[i] if j == i + 1 else U[j - 1]
            mask = [True] * len(U)
            mask[rng.randrange(len(U))] = False
            ctx.case(("order", tuple(U)))
            try:
                cmsv(rng.choice([list, np.array])(U), ln, sd, np.ma.array(ln, mask=mask))
            except ValueError:
                ctx.count("unordered_rejected")
            except Exception as e:
                ctx.violation("order/raised", "%r" % e, dict(periods=U))
            else:
                ctx.violation("order", "periods that are not increasing are accepted", dict(periods=U))
    ctx.counters["reach"] = reach.report()
    ctx.require(ctx.counters.get("compared_with_conditioning", 0) > 500, "few well-conditioned cases")


def freq(rng, lo=0.05, hi=30.0):
    r = rng.random()
    if r < 0.55:
        return math.exp(rng.uniform(math.log(lo), math.log(hi)))
    return gen.near(rng.choice([0.1, 0.25, 0.5, 1.0, 2.0, 4.0, 5.0, 10.0, 20.0, 24.0]), rng)


def bayless_abrahamson(ctx):
    """Inter-frequency correlations of Bayless and Abrahamson (2018)."""
    import numpy as np
    import pygmm

    rng = ctx.rng
    M = sut.neighbourly(pygmm.BaylessAbrahamson2018, rng, np)
    ctx.rule = "sets of frequencies inside, between and beyond the tabulated ones; distinct by frequencies and component"
    rows = table("bayless_abrahamson_2018.csv")
    x = [r.freq_hz for r in rows]
    cache = {}

    def rho(a, b):
        k = (min(a, b), max(a, b))
        if k not in cache:
            cache[k] = O.ba18_corr(a, b)
        return cache[k]

    with Reach(["bayless_abrahamson_2018"]) as reach:
        for _ in range(ctx.n(500)):
            f = list(dict.fromkeys(rng.choice([freq(rng), rng.choice(x)]) for _ in range(gen.length(rng, 7, 250, 0.01))))
            got = np.asarray(M.corr(f), dtype=float)
            n = len(f)
            want = np.array([[rho(a, b) for b in f] for a in f])
            wit = dict(freqs=f)
            ctx.case(("corr", tuple(f)), sample=wit)
            ctx.count("correlations", n * n)
            if got.shape != (n, n) or not np.allclose(got, want, rtol=0, atol=1e-9):
                ctx.violation("corr", "corr(%s) gives %s, published %s" % (f, got, want), wit)
                continue
            if (np.abs(got) > 1 + 1e-12).any() or not np.array_equal(got, got.T) or not (np.diag(got) == 1).all():
                ctx.violation("corr/laws", "not a correlation matrix: %s" % got, wit)
            comp = rng.choice(["tau", "phi_s2s", "phi_s", "sigma"])
            sd = [lin(a, x, [getattr(r, comp) for r in rows]) for a in f]
            c = np.asarray(M.cov(f, component=comp), dtype=float)
            ctx.case(("cov", tuple(f), comp))
            if c.shape != (n, n) or not np.allclose(c, want * np.outer(sd, sd), rtol=0, atol=1e-9):
                ctx.violation("cov/component", "cov(%s, component=%s) is wrong" % (f, comp), wit)
            own = [rng.uniform(0.2, 1.2) for _ in f]
            if rng.random() < 0.15:
                own = rng.choice([[0.0] * n, [1] * n, [v * (rng.random() < 0.5) for v in own]])
            c = np.asarray(M.cov(f, std=rng.choice([list, np.array])(own)), dtype=float)
            if c.shape != (n, n) or not np.allclose(c, want * np.outer(own, own), rtol=0, atol=1e-9):
                ctx.violation("cov/std", "cov(%s, std=%s) is wrong" % (f, own), wit)
            one = rng.uniform(0.2, 1.2)
            if not np.allclose(M.cov(f, std=one), want * one * one, rtol=0, atol=1e-9):
                ctx.violation("cov/scalar-std", "cov with one standard deviation is wrong", wit)
            try:
                M.cov(f)
            except NotImplementedError:
                ctx.count("missing_std_rejected")
            except Exception as e:
                ctx.violation("cov/no-std", "without standard deviation: %r" % e, wit)
            else:
                ctx.violation("cov/no-std", "a covariance without standard deviation was returned", wit)
    ctx.counters["reach"] = reach.report()


def stafford(ctx):
    """Covariances and correlations of Stafford (2017)."""
    import numpy as np
    import pygmm

    rng = ctx.rng
    M = sut.neighbourly(pygmm.Stafford2017, rng, np)
    ctx.rule = "sets of frequencies, magnitudes and provided standard deviations (none, some, all); distinct by all of them"
    with Reach(["stafford_2017"]) as reach:
        for _ in range(ctx.n(700)):
            f = [freq(rng, 0.1, 25) for _ in range(gen.length(rng, 6, 50, 0.005))]
            if rng.random() < 0.2 and len(f) > 1:
                f[-1] = f[0] * rng.choice([1.0, 1 + 1e-7, 1.00005, 1.001, 1.01])
            n = len(f)
            dflt = rng.random() < 0.25
            mag = 6.0 if dflt else rng.choice([rng.uniform(3, 8), 6.0, 4.0])
            kw = {} if dflt else dict(mag=mag)
            wit = dict(freqs=f, mag=mag)
            sds = [list(O.st_std(a)) for a in f]
            E, S, A = (np.asarray(v, dtype=float) for v in M.compute_variances(f))
            if not np.allclose(np.array([E, S, A]).T, sds, rtol=1e-10):
                ctx.violation("std", "standard deviations %s, published %s" % ([E, S, A], sds), wit)
            if not (np.array([E, S, A]) > 0).all():
                ctx.violation("std/sign", "a standard deviation is not positive", wit)
            given = [k for k in range(3) if rng.random() < 0.35]
            for k in given:
                own = [rng.uniform(0.05, 1.2) for _ in f]
                r = rng.random()
                if r < 0.1:
                    own = [rng.choice([1, 2]) for _ in f]
                elif r < 0.35 and k == given[0]:  # the component left out, everywhere or at some frequencies
                    own = [0.0] * n if r < 0.25 else [v * (rng.random() < 0.5) for v in own]
                for i in range(n):
                    sds[i][k] = own[i]
                kw[("sigma_E", "sigma_S", "sigma_A")[k]] = rng.choice([list, np.array])(own)
            ctx.count("given_%d" % len(given))
            ctx.case((tuple(f), mag, str(kw)), sample=dict(wit, given=[("sigma_E", "sigma_S", "sigma_A")[k] for k in given]))
            want = np.array([[O.st_cov(a, b, sds[i], sds[j], mag) for j, b in enumerate(f)] for i, a in enumerate(f)])
            arg = rng.choice([list, tuple, np.array])(f)
            cov, cor = np.asarray(M.cov(arg, **kw), dtype=float), np.asarray(M.cor(arg, **kw), dtype=float)
            if cov.shape != (n, n) or not np.allclose(cov, want, rtol=1e-9, atol=1e-12):
                ctx.violation("cov", "cov is %s, published %s" % (cov, want), dict(wit, options=kw))
                continue
            d = np.sqrt(np.diag(want))
            if cor.shape != (n, n) or not np.allclose(cor, want / np.outer(d, d), rtol=1e-9, atol=1e-12):
                ctx.violation("cor", "cor is %s, published %s" % (cor, want / np.outer(d, d)), dict(wit, options=kw))
            if (np.abs(cor) > 1 + 1e-9).any() or not np.allclose(cor, cor.T, rtol=0, atol=1e-12) or not np.allclose(np.diag(cor), 1):
                ctx.violation("cor/laws", "not a correlation matrix: %s" % cor, wit)
            a, b = f[0], f[-1]
            parts = dict(
                between_event_correlation=(M.between_event_correlation(a, b, mag), O.st_rho_e(a, b, mag)),
                between_site_correlation=(M.between_site_correlation(a, b), O.st_rho_s(a, b)),
                within_event_correlation=(M.within_event_correlation(a, b), O.st_rho_a(a, b)),
                compute_corner_frequency=(M.compute_corner_frequency(mag), 10 ** (2.181 - 0.496 * mag)),
            )
            for k, (g, w) in parts.items():
                ctx.count(k)
                if abs(float(g) - w) > 1e-9:
                    ctx.violation(k, "%s gives %r, published %r" % (k, g, w), dict(wit, pair=[a, b]))
                if k.endswith("correlation") and not -1e-9 <= float(g) <= 1 + 1e-9:
                    ctx.violation(k + "/range", "%s is %r" % (k, g), dict(wit, pair=[a, b]))
            if n > 1:
                try:
                    M.cov(f, sigma_E=[0.5] * (n - 1), **({} if dflt else dict(mag=mag)))
                except ValueError:
                    ctx.count("length_mismatch_rejected")
                except Exception as e:
                    ctx.violation("length", "standard deviations of another length: %r" % e, wit)
                else:
                    ctx.violation("length", "standard deviations of another length are accepted", wit)
    ctx.counters["reach"] = reach.report()
    ctx.require(ctx.counters.get("given_1", 0) > 20 and ctx.counters.get("given_0", 0) > 20, "provided standard deviations not exercised")
