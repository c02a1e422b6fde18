"""What /verif believes about every model: inputs, limits, options, outputs and reference values.

Written from the documentation and publications; nothing here is read from the tree under test.
"""
import importlib
import math

from . import ref_nga as N
from . import ref_other as O
from .refutil import jdata, table

NAN = float("nan")


class P:
    """One model input."""

    def __init__(self, name, req=False, lo=None, hi=None, default=None, options=None, gen=None):
        self.name, self.req, self.lo, self.hi, self.default = name, req, lo, hi, default
        self.options = options
        self.gen = gen or (lo, hi)
        self.cat = options is not None


SS3 = ["SS", "NS", "RS"]
BOOL = [True, False]


def mag(lo, hi, gen=None):
    return P("mag", True, lo, hi, gen=gen or (lo, hi))


class Spec:
    def __init__(self, name, module, cls, params, kind, ref, derive=None, fix=None, layout=None, tabname=None, rowmap=None, std=True):
        self.name, self.module, self.cls, self.params = name, module, cls, params
        self.kind, self.ref_fn, self.derive_fn, self.fix = kind, ref, derive, fix
        self.layout, self.tabname, self.std = layout, tabname, std
        self.pmap = {p.name: p for p in params}
        self.cache = {}

    def load(self):
        mod = importlib.import_module("pygmm." + self.module)
        return getattr(mod, self.cls)

    def resolve(self, given):
        """Apply defaults, then published estimates, to the given inputs."""
        s = {}
        for p in self.params:
            v = given.get(p.name)
            if v is None:
                v = p.default
            if p.cat and v not in p.options:
                v = p.default
            s[p.name] = v
        if self.derive_fn:
            s.update(self.derive_fn(s))
        return s

    def expect(self, given, **ctor):
        s = self.resolve(given)
        r = self.ref_fn(fl(s), **ctor)
        return expected(self, r)


def fl(s):
    """Plain floats for the reference."""
    return {k: (float(v) if isinstance(v, (int, float)) and not isinstance(v, bool) else v) for k, v in s.items()}


def in_limits(spec, s):
    """Whether every numeric input is inside the recommended limits."""
    return all(
        p.cat or s.get(p.name) is None or ((p.lo is None or s[p.name] >= p.lo) and (p.hi is None or s[p.name] <= p.hi)) for p in spec.params
    )


TABLES = {
    "ASK14": "abrahamson_silva_kamai_2014.csv", "BSSA14": "boore_stewart_seyhan_atkinson-2014.csv",
    "CB14": "campbell_bozorgnia_2014.csv", "CY14": "chiou_youngs_2014.csv", "I14": "idriss_2014-small.csv",
    "AB06": "atkinson_boore_2006-bc.csv", "C03": "campbell_2003.csv", "TP05": "tavakoli_pezeshk_2005.csv",
    "Pea11": "pezeshk_zandieh_tavakoli_2011.csv", "ASB14": "akkar-sandikkaya-bommer-2014-dist_jb.csv",
    "AGA16": "abrahamson_gregor_addo_2016.csv", "CoppB14": "coppersmith_bommer_2014.csv",
}


def native(name):
    """Published periods of the spectral ordinates."""
    spec = SPECS[name]
    per = jdata("derras_bard_cotton_2014.json")["period"] if name == "DBC14" else [r.period for r in table(TABLES[name])]
    return [float(per[i]) for i in spec.layout["psa"]]


def expected(spec, r):
    """Observable values implied by a reference result."""
    out = {}
    if spec.kind == "gmm":
        lay = spec.layout
        ln = r["ln"]
        if "periods" not in spec.cache:
            spec.cache["periods"] = native(spec.name)
        out["periods"] = spec.cache["periods"]
        out["ln_sa"] = [ln[i] for i in lay["psa"]]
        for k in ("pga", "pgv", "pgd"):
            i = lay.get(k)
            if i is not None:
                out["ln_" + k] = ln[i] + math.log(lay.get(k + "_scale", 1.0))
        if spec.std:
            sd = r["std"]
            out["std_sa"] = [sd[i] for i in lay["psa"]]
            for k in ("pga", "pgv", "pgd"):
                i = lay.get(k)
                if i is not None:
                    out["std_" + k] = sd[i]
        for k in ("tau", "phi"):
            if k in r:
                out[k] = list(r[k])
    elif spec.kind == "ratio":
        out["ln_ratio"] = r["ln"]
        out["std"] = r["std"]
    elif spec.kind == "eas":
        out["ln_eas"] = r["ln"]
        out["std"] = r["std"]
    elif spec.kind == "durvec":
        for n, d, sd in zip(spec.layout, r["dur"], r["std"]):
            out["ln_" + n] = math.log(d) if d > 0 else NAN
            out["std_" + n] = sd
    elif spec.kind == "as96":
        out["ln_duration"] = math.log(r["dur"][0])
        out["std_err"] = r["std"][0]
    elif spec.kind == "pr":
        for n, d in zip(("duration", "plus", "minus"), r["dur"]):
            out[n] = d
        if "d575" in r:
            out["d575_median"], out["d575_sigma"] = r["d575"]
    return out


def observe(spec, m, np, with_parts=True):
    """The same observables read from a model instance through its public interface."""
    out = {}

    def ln(x):
        with np.errstate(all="ignore"):
            return np.log(np.asarray(x, dtype=float))

    if spec.kind == "gmm":
        lay = spec.layout
        out["periods"] = m.periods
        out["ln_sa"] = ln(m.spec_accels)
        for k in ("pga", "pgv", "pgd"):
            if lay.get(k) is not None:
                out["ln_" + k] = ln(getattr(m, k))
        if spec.std:
            out["std_sa"] = m.ln_stds
            for k in ("pga", "pgv", "pgd"):
                if lay.get(k) is not None:
                    out["std_" + k] = getattr(m, "ln_std_" + k)
        if with_parts:
            for k in ("tau", "phi"):
                v = getattr(m, "_" + k, None)
                if v is not None:
                    out[k] = v
    elif spec.kind == "ratio":
        out["ln_ratio"] = ln(m.ratio)
        out["std"] = m.ln_std
    elif spec.kind == "eas":
        out["ln_eas"] = m.ln_eas
        out["ln_eas2"] = ln(m.eas)
        out["std"] = m.ln_std
    elif spec.kind == "durvec":
        d, e = m.duration, m.std_err
        for n in spec.layout:
            out["ln_" + n] = ln(d[n])
            out["std_" + n] = e[n]
    elif spec.kind == "as96":
        out["ln_duration"] = ln(m.duration)
        out["std_err"] = m.std_err
    elif spec.kind == "pr":
        out["duration"] = m.duration
        out["plus"] = m.duration_plus_sigma
        out["minus"] = m.duration_minus_sigma
        if spec.name == "PR24":
            out["d575_median"] = m.d575_median
            out["d575_sigma"] = m.d575_sigma
    return {k: np.asarray(v, dtype=float) for k, v in out.items()}


def compare(exp, obs, np, tol=1e-7):
    """First disagreement between expected and observed values, or None; counts the decided values."""
    decided = 0
    bad = None
    for k, e in exp.items():
        if k not in obs:
            if k in ("tau", "phi"):
                continue
            return decided, (k, None, "missing", None)
        e = np.asarray(e, dtype=float)
        o = obs[k]
        if o.shape != e.shape:
            if k in ("tau", "phi"):  # not part of the public interface: judged only in the known form
                continue
            if o.size == e.size == 1:
                o = o.reshape(e.shape)
            else:
                return decided, (k, None, "shape %s" % (o.shape,), "shape %s" % (e.shape,))
        fin = np.isfinite(e) & (np.abs(e) < 600)  # beyond that exp() leaves the float range
        err = np.abs(o - e)
        bound = tol * np.maximum(1.0, np.abs(e))
        wrong = fin & ~(err <= bound)
        decided += int(fin.sum())
        if wrong.any() and bad is None:
            i = int(np.argmax(wrong)) if e.ndim else 0
            bad = (k, i, float(o.reshape(-1)[i]), float(e.reshape(-1)[i]))
    return decided, bad


# ------------------------------------------------------------------ coherence fixers
def fix_ask(s, rng):
    if s.get("on_hanging_wall") and s.get("dist_x") is None:
        s["dist_x"] = round(rng.uniform(0, 60), 3)


def fix_asb(s, rng):
    if all(s.get(k) is None for k in ("dist_jb", "dist_hyp", "dist_epi")):
        s[rng.choice(["dist_jb", "dist_hyp", "dist_epi"])] = round(rng.uniform(0, 200), 2)


def fix_aga(s, rng):
    if s.get("event_type") == "intraslab":
        if s.get("dist_hyp") is None:
            s["dist_hyp"] = round(rng.uniform(20, 300), 2)
        if s.get("depth_hyp") is None:
            s["depth_hyp"] = round(rng.uniform(20, 160), 2)
    elif s.get("dist_rup") is None:
        s["dist_rup"] = round(rng.uniform(5, 300), 2)


def fix_copp(s, rng):
    if s.get("dist_rup") is None:
        s["dist_rup"] = round(rng.uniform(5, 300), 2)


def fix_pr24(s, rng):
    if s.get("region") == "Taiwan" and s.get("event_type") == "interface":
        s[rng.choice(["region", "event_type"])] = None
        if s["region"] is None:
            s["region"] = rng.choice(["Japan", "New Zealand", "South America"])
        else:
            s["event_type"] = "slab"


def fix_cb(s, rng):
    """Keep the rupture inside the crust and its geometry defined."""
    if s["depth_tor"] is not None and s["depth_bot"] is not None:
        s["depth_bot"] = max(s["depth_bot"], s["depth_tor"] + 1)
    if s["depth_bor"] is not None and s["depth_hyp"] is None:
        zt = s["depth_tor"] if s["depth_tor"] is not None else N.cy14_ztor(s["mag"], s["mechanism"])
        if s["depth_bor"] <= zt + 0.5:
            s["depth_bor"] = zt + 0.5 + abs(s["depth_bor"])
    # the estimated width is only defined above the seismogenic depth
    zt = s["depth_tor"] if s["depth_tor"] is not None else N.cy14_ztor(s["mag"], s["mechanism"])
    if s["width"] is None and (s["depth_bot"] if s["depth_bot"] is not None else 15.0) <= zt:
        s["depth_bot"] = zt + 2.0


def fix_as16(s, rng):
    pass


RUP300 = P("dist_rup", True, None, 300, gen=(0, 300))
Z1 = P("depth_1_0", gen=(0.0, 1.5))
HW = P("on_hanging_wall", default=False, options=BOOL)
VSS = P("vs_source", default="measured", options=["measured", "inferred"])
REG_CB = ["global", "california", "japan", "italy", "china"]
R = range


def _n(name):
    return len(table(name))


SPECS = {}


def add(spec):
    SPECS[spec.name] = spec


add(Spec("ASK14", "abrahamson_silva_kamai_2014", "AbrahamsonSilvaKamai2014", [
    RUP300, P("dist_jb", True, gen=(0, 300)), mag(3, 8.5), P("v_s30", True, 180, 1000), Z1,
    P("depth_tor", gen=(0, 20)), P("dip", True, gen=(15, 90)), P("dist_crjb", default=15, gen=(0, 30)),
    P("dist_x", gen=(-60, 120)), P("dist_y0", gen=(0, 60)), P("width", gen=(1, 40)),
    P("mechanism", True, options=SS3),
    P("region", default="global", options=["global", "california", "china", "italy", "japan", "taiwan"]),
    VSS, P("is_aftershock", default=False, options=BOOL), HW],
    "gmm", N.ask14_ref, N.ask14_derive, fix_ask,
    dict(psa=list(R(22)), pga=22, pgv=23), N.T_ASK))
add(Spec("BSSA14", "boore_stewart_seyhan_atkinson_2014", "BooreStewartSeyhanAtkinson2014", [
    mag(3, 8.5), Z1, P("dist_jb", True, None, 300, gen=(0, 300)), P("v_s30", True, 150, 1500),
    P("mechanism", default="U", options=["U", "SS", "NS", "RS"]),
    P("region", default="global", options=["global", "california", "china", "italy", "japan", "new_zealand", "taiwan", "turkey"])],
    "gmm", N.bssa14_ref, None, None, dict(psa=list(R(2, 107)), pga=1, pgv=0), N.T_BSSA))
add(Spec("CB14", "campbell_bozorgnia_2014", "CampbellBozorgnia2014", [
    Z1, P("depth_2_5", lo=0, hi=10), P("depth_bor", gen=(1, 30)), P("depth_bot", default=15.0, gen=(8, 30)),
    P("depth_hyp", lo=0, hi=20), P("depth_tor", lo=0, hi=20), P("dip", True, 15, 90),
    P("dist_jb", True, gen=(0, 300)), RUP300, P("dist_x", True, gen=(-120, 200)), mag(3.3, 8.5),
    P("v_s30", True, 150, 1500), P("width", gen=(1, 40)),
    P("region", default="global", options=REG_CB), P("mechanism", True, options=SS3)],
    "gmm", N.cb14_ref, N.cb14_derive, fix_cb, dict(psa=list(R(21)), pga=21, pgv=22), N.T_CB))
add(Spec("CY14", "chiou_youngs_2014", "ChiouYoungs2014", [
    P("dist_rup", True, 0, 300), P("dist_x", True, gen=(-120, 200)), P("dist_jb", True, gen=(0, 300)),
    mag(3.5, 8.5), P("v_s30", True, 180, 1500), P("depth_tor", lo=0, hi=20), Z1,
    P("dpp_centered", default=0, gen=(-3, 5)), P("dip", True, gen=(15, 90)),
    P("mechanism", default="U", options=["U", "SS", "NS", "RS"]), HW,
    P("region", default="california", options=["california", "china", "italy", "japan"]), VSS],
    "gmm", N.cy14_ref, N.cy14_derive, None, dict(psa=list(R(24)), pga=24, pgv=25), N.T_CY))
add(Spec("I14", "idriss_2014", "Idriss2014", [
    P("dist_rup", True, None, 150, gen=(0, 150)), P("mag", True, 5, None, gen=(5, 8.5)),
    P("v_s30", True, 450, 1200), P("mechanism", True, default="SS", options=["SS", "RS"])],
    "gmm", N.i14_ref, None, None, dict(psa=list(R(22)), pga=0)))
add(Spec("AB06", "atkinson_boore_2006", "AtkinsonBoore2006", [
    P("mag", True, gen=(3.5, 8)), P("dist_rup", True, gen=(1, 1000)), P("v_s30", True, gen=(150, 2500))],
    "gmm", O.ab06_ref, None, None,
    dict(psa=list(R(3, 27)), pga=2, pgv=1, pgd=0, pgv_scale=O.G_CM, pgd_scale=O.G_CM), "atkinson_boore_2006-bc.csv"))
add(Spec("C03", "campbell_2003", "Campbell2003", [
    P("mag", True, 5, 8.2), P("dist_rup", True, None, 1000, gen=(0.5, 1000))],
    "gmm", O.c03_ref, None, None, dict(psa=list(R(16)))))
add(Spec("TP05", "tavakoli_pezeshk_2005", "TavakoliPezeshk05", [
    P("dist_rup", True, None, 1000, gen=(0, 1000)), P("mag", True, 5, 8.2)],
    "gmm", O.tp05_ref, None, None, dict(psa=list(R(1, 14)), pga=0)))
add(Spec("Pea11", "pezeshk_zandieh_tavakoli_2011", "PezeshkZandiehTavakoli2011", [
    P("mag", True, 5, 8), P("dist_rup", True, None, 1000, gen=(0.5, 1000))],
    "gmm", O.pea11_ref, None, None, dict(psa=list(R(1, 23)), pga=0)))
add(Spec("ASB14", "akkar_sandikkaya_bommer_2014", "AkkarSandikkayaBommer2014", [
    P("dist_jb", lo=0, hi=200), P("dist_epi", lo=0, hi=200), P("dist_hyp", lo=0, hi=200),
    mag(4, 8), P("v_s30", True, 150, 1200), P("mechanism", True, options=SS3)],
    "gmm", O.asb14_ref, None, fix_asb, dict(psa=list(R(2, 64)), pga=0, pgv=1), "akkar-sandikkaya-bommer-2014-dist_jb.csv"))
add(Spec("DBC14", "derras_bard_cotton_2014", "DerrasBardCotton2014", [
    P("dist_jb", True, 5, 200), mag(4, 7), P("v_s30", True, 200, 800), P("depth_hyp", True, 0, 25),
    P("mechanism", True, options=SS3)],
    "gmm", O.dbc14_ref, None, None, dict(psa=list(R(2, 64)), pga=1, pgv=0)))
add(Spec("AGA16", "abrahamson_gregor_addo_2016", "AbrahamsonGregorAddo2016", [
    mag(3, 8.5, (4.5, 9.2)), P("dist_rup", gen=(1, 400)), P("dist_hyp", gen=(1, 400)), P("depth_hyp", gen=(0, 200)),
    P("v_s30", True, 150, 1500), P("event_type", True, options=["interface", "intraslab"]),
    P("tectonic_region", default="unknown", options=["forearc", "backarc", "unknown"])],
    "gmm", O.aga16_ref, None, fix_aga, dict(psa=list(R(1, 23)), pga=0), "abrahamson_gregor_addo_2016.csv"))
add(Spec("CoppB14", "coppersmith_bommer_2014", "CoppersmithBommer2014", [
    mag(3, 8.5, (4.5, 9.2)), P("dist_rup", gen=(1, 400)), P("v_s30", True, 150, 1500),
    P("event_type", True, options=["interface", "intraslab"])],
    "gmm", O.copp14_ref, None, fix_copp, dict(psa=list(R(14)), pga=0), "coppersmith_bommer_2014.csv"))
add(Spec("GA11", "gulerce_abrahamson_2011", "GulerceAbrahamson2011", [
    P("dist_rup", True, None, 200, gen=(0, 200)), mag(5, 8.5), P("v_s30", True, 450, 1200),
    P("pga_ref", True, 0.001, 10, gen=(0.001, 3)), P("mechanism", True, options=SS3)],
    "ratio", O.ga11_ref, None, None, None, "gulerce_abrahamson_2011-coefficients.csv"))
add(Spec("BA19", "bayless_abrahamson_2019", "BaylessAbrahamson2019", [
    P("dist_rup", True, 0, 300), mag(3, 8), P("v_s30", True, 180, 1500), P("depth_tor", True, 0, 20),
    P("depth_1_0", gen=(0.0, 3.0)), P("mechanism", default="SS", options=SS3)],
    "eas", O.ba19_ref, lambda s: {"depth_1_0": O.ba19_z1(s["v_s30"])} if s["depth_1_0"] is None else {}, None))
add(Spec("AS96", "abrahamson_silva_1996", "AbrahamsonSilva1996", [
    mag(4, 7.5), P("dist_rup", True, 0, 250), P("site_cond", True, options=["soil", "rock"])],
    "as96", O.as96_ref))
add(Spec("KS06", "kempton_stewart_2006", "KemptonStewart2006", [
    mag(5, 7.6), P("dist_rup", True, 0, 200), P("v_s30", True, 200, 1000)],
    "durvec", O.ks06_ref, None, None, ["D_5t75a", "D_5t95a", "D_5t75v", "D_5t95v"]))
add(Spec("AS16", "afshari_stewart_2016", "AfshariStewart2016", [
    mag(3, 7.9), P("dist_rup", True, 0, 200), P("v_s30", True, 200, 1000), P("mechanism", True, options=SS3), Z1],
    "durvec", O.as16_ref, None, None, ["D_5t75", "D_5t95", "D_20t80"]))
add(Spec("PR23", "pinilla_ramos_et_al_2023", "PinillaRamosEtAl2023", [
    mag(4, 8), P("dist_rup", True, 0, 300), P("v_s30", True, 150, 2000)], "pr", O.pr23_ref))
add(Spec("PR24", "pinilla_ramos_et_al_2024", "PinillaRamosEtAl2024", [
    mag(4.5, 8.5), P("dist_rup", True, 0, 300), P("v_s30", True, 150, 2000),
    P("event_type", True, options=["interface", "slab"]),
    P("region", True, options=["Japan", "New Zealand", "South America", "Taiwan"])],
    "pr", O.pr24_ref, None, fix_pr24))

ORDER = list(SPECS)
