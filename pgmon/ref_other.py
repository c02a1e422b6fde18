"""Scalar reference implementations of the remaining models (see ref_nga)."""
from math import cos, cosh, exp, isnan, log, log10, pi, sqrt, tanh

from .refutil import LN10, clip, jdata, lin, table
from .ref_nga import cy14_z1

NAN = float("nan")
G_CM = 980.665


def interp_rows(rows, attr_vals, x):
    return lin(x, [r.period for r in rows], attr_vals)


# --------------------------------------------------------------------------- ENA
def ab06_ref(s):
    M, R, vs = s["mag"], s["dist_rup"], s["v_s30"]
    # a velocity of zero stands for hard rock, with coefficients of its own
    rows = table("atkinson_boore_2006-bc.csv" if vs else "atkinson_boore_2006-rock.csv")
    sf = table("atkinson_boore_2006-sf.csv")
    st = table("atkinson_boore_2006-site.csv")
    f0 = max(log10(10.0 / R), 0.0)
    f1 = min(log10(R), log10(70.0))
    f2 = max(log10(R / 140.0), 0.0)
    # Equation (6) is for a doubling of the stress parameter from 140 bar; at most two doublings
    fac = min(2.0, (3.45 - 0.2 * M - log10(140.0)) / log10(2.0))
    sfv = [
        fac * min(c.delta + 0.05, 0.05 + c.delta * max(M - c.m_1, 0) / (c.m_h - c.m_1)) for c in sf
    ]

    def bc(c):
        y = c.c_1 + c.c_2 * M + c.c_3 * M**2 + (c.c_4 + c.c_5 * M) * f1
        y += (c.c_6 + c.c_7 * M) * f2 + (c.c_8 + c.c_9 * M) * f0 + c.c_10 * R
        return y + interp_rows(sf, sfv, c.period)

    pga = max(10 ** bc(rows[2]), 60.0)

    def site(c):
        if vs <= 180:
            b = c.b_1
        elif vs <= 300:
            b = (c.b_1 - c.b_2) * log(vs / 300) / log(180 / 300) + c.b_2
        elif vs <= 760:
            b = c.b_2 * log(vs / 760) / log(300 / 760)
        else:
            b = 0.0
        return (c.b_lin * log(vs / 760) + b * log(pga / 100)) / LN10

    sv = [site(c) if vs else 0.0 for c in st]
    return dict(
        ln=[(bc(c) + interp_rows(st, sv, c.period)) * LN10 - log(G_CM) for c in rows],
        std=[0.30 * LN10 for _ in rows],
    )


def c03_ref(s):
    M, R = s["mag"], s["dist_rup"]
    out = dict(ln=[], std=[])
    for c in table("campbell_2003.csv"):
        f = c.c_1 + c.c_2 * M + c.c_3 * (8.5 - M) ** 2
        f += c.c_4 * log(sqrt(R**2 + (c.c_7 * exp(c.c_8 * M)) ** 2)) + (c.c_5 + c.c_6 * M) * R
        if R > 70:
            f += c.c_9 * log(R / 70)
        if R > 130:
            f += c.c_10 * log(R / 130)
        out["ln"].append(f)
        out["std"].append(c.c_11 + c.c_12 * M if M < 7.16 else c.c_13)
    return out


def tp05_ref(s):
    M, R = s["mag"], s["dist_rup"]
    out = dict(ln=[], std=[])
    q = (8.5 - M) ** 2.5
    for c in table("tavakoli_pezeshk_2005.csv"):
        f = c.c_1 + c.c_2 * M + c.c_3 * q + c.c_9 * log(R + 4.5)
        if R > 70:
            f += c.c_10 * log(R / 70)
        if R > 130:
            f += c.c_11 * log(R / 130)
        r = sqrt(R**2 + (c.c_5 * exp(c.c_6 * M + c.c_7 * q)) ** 2)
        f += (c.c_4 + c.c_13 * M) * log(r) + (c.c_8 + c.c_12 * M) * r
        out["ln"].append(f)
        out["std"].append(c.c_14 + c.c_15 * M if M < 7.2 else c.c_16)
    return out


def pea11_ref(s):
    M, R = s["mag"], s["dist_rup"]
    out = dict(ln=[], std=[])
    for c in table("pezeshk_zandieh_tavakoli_2011.csv"):
        r = sqrt(R**2 + c.c_11**2)
        f = c.c_1 + c.c_2 * M + c.c_3 * M**2 + (c.c_4 + c.c_5 * M) * min(log10(r), log10(70.0))
        f += (c.c_6 + c.c_7 * M) * clip(log10(r / 70), 0.0, log10(2.0))
        f += (c.c_8 + c.c_9 * M) * max(log10(r / 140), 0.0) + c.c_10 * r
        out["ln"].append(f * LN10)
        m = c.c_12 * M + c.c_13 if M <= 7 else -6.95e-3 * M + c.c_14
        out["std"].append(LN10 * sqrt(m**2 + c.sigma_reg**2))
    return out


# --------------------------------------------------------------------------- Europe
def asb14_ref(s):
    for k in ("dist_jb", "dist_hyp", "dist_epi"):
        if s[k] is not None:
            break
    M, R, vs = s["mag"], s[k], s["v_s30"]
    rows = table("akkar-sandikkaya-bommer-2014-%s.csv" % k)

    def rock(c):
        f = c.a_1 + (c.a_2 if M <= c.c_1 else c.a_7) * (M - c.c_1) + c.a_3 * (8.5 - M) ** 2
        f += (c.a_4 + c.a_5 * (M - c.c_1)) * log(sqrt(R**2 + c.a_6**2))
        return f + {"NS": c.a_8, "RS": c.a_9}.get(s["mechanism"], 0.0)

    pga = exp(rock(rows[0]))
    out = dict(ln=[], std=[c.sd_total for c in rows], within=[c.sd_within for c in rows], between=[c.sd_between for c in rows])
    for c in rows:
        if vs <= 750:
            q = vs / 750
            site = c.b_1 * log(q) + c.b_2 * log((pga + c.c * q**c.n) / ((pga + c.c) * q**c.n))
        else:
            site = c.b_1 * log(min(vs, c.v_con) / 750)
        out["ln"].append(rock(c) + site)
    return out


def dbc14_ref(s):
    c = jdata("derras_bard_cotton_2014.json")
    vals = dict(
        log10_dist_jb=log10(s["dist_jb"]),
        mag=s["mag"],
        log10_v_s30=log10(s["v_s30"]),
        depth_hyp=s["depth_hyp"],
        mechanism={"NS": 1, "RS": 3, "SS": 4}[s["mechanism"]],
    )
    mm = c["min_max"]
    x = []
    for k in ("log10_dist_jb", "mag", "log10_v_s30", "depth_hyp", "mechanism"):
        lo, hi = mm[k]
        x.append(2 * (vals[k] - lo) / (hi - lo) - 1)

    def flat(v):
        return [a[0] if isinstance(a, list) else a for a in v]

    b1 = c["b_1"][0] if len(c["b_1"]) == 1 and isinstance(c["b_1"][0], list) else flat(c["b_1"])
    b2 = c["b_2"][0] if len(c["b_2"]) == 1 and isinstance(c["b_2"][0], list) else flat(c["b_2"])
    hid = [tanh(b + sum(w * xi for w, xi in zip(row, x))) for b, row in zip(b1, c["w_1"])]
    ln = []
    lim = mm["log10_resp"]
    for i, (b, row) in enumerate(zip(b2, c["w_2"])):
        y = b + sum(w * h for w, h in zip(row, hid))
        lo, hi = lim[i]
        ly = 0.5 * (y + 1) * (hi - lo) + lo
        ly -= log10(0.01) if i == 0 else log10(9.80665)
        ln.append(ly * LN10)
    return dict(ln=ln, std=[v * LN10 for v in c["log10_std"]["total"]])


# --------------------------------------------------------------------------- subduction
def _c1_default(T, intraslab):
    if intraslab:
        return -0.3
    return lin(log(max(0.01, T)), [log(v) for v in (0.3, 0.5, 1, 2, 3)], [0.2, 0.1, 0.0, -0.1, -0.2])


def _sub_mag(c, M, dc1):
    m1 = 7.8 + dc1
    return (c.t_4 if M <= m1 else c.t_5) * (M - m1) + c.t_13 * (10 - M) ** 2


def _sub_site(c, pga, vs):
    r = min(vs, 1000.0) / c.v_lin
    if vs < c.v_lin:
        return c.t_12 * log(r) - c.b * log(pga + c.c) + c.b * log(pga + c.c * r**c.n)
    return (c.t_12 + c.b * c.n) * log(r)


def aga16_ref(s, adjust_c1=None, scale_atten=1.0):
    rows = table("abrahamson_gregor_addo_2016.csv")
    M, slab = s["mag"], s["event_type"] == "intraslab"
    R = s["dist_hyp"] if slab else s["dist_rup"]
    n = len(rows)
    if adjust_c1 is None:
        adj = [_c1_default(c.period, slab) for c in rows]
    elif isinstance(adjust_c1, (int, float)):
        adj = [float(adjust_c1)] * n
    else:
        adj = list(adjust_c1)

    def rock(c, dc1):
        f = c.t_1 + c.t_4 * dc1
        f += (c.t_2 + (c.t_14 if slab else 0) + c.t_3 * (M - 7.8)) * log(R + c.c_4 * exp(c.t_9 * (M - 6)))
        f += scale_atten * c.t_6 * R + (c.t_10 if slab else 0) + _sub_mag(c, M, dc1)
        if s["tectonic_region"] == "backarc":
            if slab:
                f += c.t_7 + c.t_8 * log(max(R, 85) / 40)
            else:
                f += c.t_15 + c.t_16 * log(max(R, 100) / 40)
        if slab:
            f += c.t_11 * (min(s["depth_hyp"], 120) - 60)
        return f

    pga = exp(rock(rows[0], adj[0]) + _sub_site(rows[0], NAN, 1000.0))
    return dict(
        ln=[rock(c, a) + _sub_site(c, pga, s["v_s30"]) for c, a in zip(rows, adj)],
        std=[sqrt(c.phi**2 + c.tau**2) for c in rows],
        adjust_c1=adj,
    )


def copp14_ref(s, scale_atten=1.0):
    rows = table("coppersmith_bommer_2014.csv")
    M, R = s["mag"], s["dist_rup"]
    slab = s["event_type"] == "intraslab"
    adj = [_c1_default(c.period, slab) for c in rows]

    def rock(c, dc1):
        f = c.t_1 + c.t_4 * dc1 + (c.t_2 + c.t_3 * (M - 7.8)) * log(R + c.c_4 * exp(c.t_9 * (M - 6)))
        f += scale_atten * c.t_6 * R + _sub_mag(c, M, dc1)
        return f + c.t_16 * log(max(R, 40) / 40)

    pga = exp(rock(rows[0], adj[0]) + _sub_site(rows[0], NAN, 1000.0))
    return dict(
        ln=[rock(c, a) + _sub_site(c, pga, s["v_s30"]) for c, a in zip(rows, adj)],
        std=[sqrt(c.phi**2 + c.tau**2) for c in rows],
        adjust_c1=adj,
    )


# --------------------------------------------------------------------------- GA11 V/H
def ga11_ref(s):
    M, R, vs, pga = s["mag"], s["dist_rup"], s["v_s30"], s["pga_ref"]
    out = dict(ln=[], std=[])
    for c in table("gulerce_abrahamson_2011-coefficients.csv"):
        r = sqrt(R**2 + c.c4**2)
        f = c.a1 + c.a8 * (8.5 - M) ** 2 + (c.a2 + c.a3 * (M - c.c1)) * log(r)
        f += (c.a4 if M < c.c1 else c.a5) * (M - c.c1)
        T = c.period
        if T < 0:
            v1 = 862.0
        elif T <= 0.5:
            v1 = 1500.0
        elif T <= 1.0:
            v1 = exp(8 - 0.795 * log(T / 0.21))
        elif T <= 2.0:
            v1 = exp(6.76 - 0.297 * log(T))
        else:
            v1 = 700.0
        v = min(vs, v1)
        q = v / c.v_lin
        f += c.a10 * log(q)
        if v < c.v_lin:
            f -= -c.b * log(pga + c.c) + c.b * log(pga + c.c * q**c.n)
        else:
            f -= c.b * c.n * log(q)
        f += {"RS": c.a6, "NS": c.a7}.get(s["mechanism"], 0.0)
        out["ln"].append(f)
        w = clip((M - 5) / 2, 0, 1)
        out["std"].append(sqrt((c.s1 + (c.s2 - c.s1) * w) ** 2 + (c.s3 + (c.s4 - c.s3) * w) ** 2))
    return out


# --------------------------------------------------------------------------- BA19 EAS
def ba19_z1(vs):
    return exp(-7.67 / 4 * log((vs**4 + 610.0**4) / (1360.0**4 + 610.0**4))) / 1000


def ba19_ref(s):
    M, R = s["mag"], s["dist_rup"]
    rows = table("bayless_abrahamson_2019.csv")
    imax, i5 = 238, 170

    def base(c, vs, z1):
        f = c.c1 + c.c2 * (M - 6) + (c.c2 - c.c3) / c.cn * log(1 + exp(c.cn * (c.cM - M)))
        f += c.c4 * log(R + c.c5 * cosh(c.c6 * max(M - c.chm, 0)))
        f += (-0.5 - c.c4) * log(sqrt(R**2 + 2500)) + c.c7 * R
        f += c.c9 * min(s["depth_tor"], 20)
        if s["mechanism"] == "NS":
            f += c.c10
        k = c.c11a if vs <= 200 else c.c11b if vs <= 300 else c.c11c if vs <= 500 else c.c11d
        return f + k * log((min(z1, 2) + 0.01) / (ba19_z1(vs) + 0.01))

    ref = base(rows[i5], 760.0, ba19_z1(760.0))
    ir = exp(1.238 + 0.846 * ref)
    vs, z1 = s["v_s30"], s["depth_1_0"]
    use = rows[: imax + 1]
    nl = []
    for c in use:
        f2 = c.f4 * (exp(c.f5 * (min(vs, 760.0) - 360)) - exp(c.f5 * 400.0))
        nl.append(f2 * log((ir + c.f3) / c.f3))
    i = nl.index(min(nl))
    low = nl[i]
    for k in range(i + 1, len(nl)):
        nl[k] = low
    sm = []
    for k in range(len(nl)):
        sm.append(sum(nl[max(0, k - 3) : k + 4]) / 7)
    for k in range(len(nl) - 7, len(nl)):
        sm[k] = low
    ln = [base(c, vs, z1) + c.c8 * log(min(vs, 1000) / 1000) + x for c, x in zip(use, sm)]
    kappa = exp(-0.4 * log(vs / 760) - 3.5)
    fm = rows[imax].freq_hz
    ln += [ln[imax] - pi * kappa * (c.freq_hz - fm) for c in rows[imax + 1 :]]
    w = clip((M - 4) / 2, 0, 1)
    std = []
    for c in rows:
        c1a = 0.0 if isnan(c.c1a) else c.c1a
        std.append(
            sqrt(
                (c.s1 + (c.s2 - c.s1) * w) ** 2
                + (c.s3 + (c.s4 - c.s3) * w) ** 2
                + (c.s5 + (c.s6 - c.s5) * w) ** 2
                + c1a**2
            )
        )
    return dict(ln=ln, std=std)


# --------------------------------------------------------------------------- durations
def _moment(M):
    return 10 ** (1.5 * M + 16.05)


def as96_incr(i):
    x = log((i - 0.05) / (1 - i))
    return -0.532 + 0.552 * x - 0.0262 * x * x


AS96_STD = dict(
    x=[0.10 + 0.05 * i for i in range(18)],
    y=[0.843, 0.759, 0.713, 0.691, 0.674, 0.660, 0.646, 0.636, 0.628, 0.616, 0.605, 0.594, 0.582, 0.565, 0.545, 0.528, 0.510, 0.493],
)


def as96_base(s):
    M, R = s["mag"], s["dist_rup"]
    ds = exp(5.204 + 0.851 * (M - 6))
    d = (ds / _moment(M)) ** (-1 / 3) / (4.9e6 * 3.2)
    if s["site_cond"] == "soil":
        d += 0.805
    return d + 0.063 * max(R - 10, 0)


def as96_ref(s):
    return dict(dur=[as96_base(s) * exp(as96_incr(0.75))], std=[0.55])


def as96_interp(s, i, k=0.0):
    if not 0.10 <= i <= 0.95:
        return NAN
    return as96_base(s) * exp(as96_incr(i) + k * lin(i, AS96_STD["x"], AS96_STD["y"]))


def ks06_ref(s):
    M = s["mag"]
    out = []
    for ls, b, a, v in (
        (log(exp(6.02)), 0.07, 0.82, -0.0013),
        (2.79 + 0.82 * (M - 6), 0.15, 3.00, -0.0041),
        (5.46, 0.10, 1.40, -0.0022),
        (1.53 + 1.34 * (M - 6), 0.15, 3.99, -0.0062),
    ):
        src = (exp(ls) / _moment(M)) ** (-1 / 3) / (4.9e6 * 3.2)
        d = src + b * s["dist_rup"] + a + v * s["v_s30"]
        out.append(d if d > 0 else NAN)
    return dict(dur=out, std=[0.57, 0.47, 0.66, 0.52])


def as16_ref(s):
    M, R, vs = s["mag"], s["dist_rup"], s["v_s30"]
    B = {
        None: ((1.280, 2.182, 0.8822), (5.576, 3.628, 6.182)),
        "NS": ((1.555, 2.541, 1.409), (4.992, 3.170, 4.778)),
        "RS": ((0.7806, 1.612, 0.7729), (7.061, 4.536, 6.579)),
        "SS": ((1.279, 2.302, 0.8804), (5.578, 3.467, 6.188)),
    }[s["mechanism"]]
    dur, std = [], []
    for j in range(3):
        b0, b1 = B[0][j], B[1][j]
        b2 = (0.9011, 0.9443, 0.7414)[j]
        b3 = (-1.684, -3.911, -3.164)[j]
        m1 = (5.35, 5.2, 5.2)[j]
        m2 = (7.15, 7.4, 7.4)[j]
        if M <= m1:
            fe = b0
        else:
            if M <= m2:
                ds = exp(b1 + b2 * (M - 6))
            else:
                ds = exp(b1 + b2 * (m2 - 6) + b3 * (M - m2))
            fe = 1 / (4.9e6 * 3.2 * (ds / _moment(M)) ** (1 / 3))
        c1 = (0.1159, 0.3165, 0.0646)[j]
        c2 = (0.1065, 0.2539, 0.0865)[j]
        c3 = (0.0682, 0.0932, 0.0373)[j]
        c4 = (-0.2246, -0.3183, -0.4237)[j]
        c5 = (0.0006, 0.0006, 0.0005)[j]
        vr = (368.2, 369.9, 369.6)[j]
        fp = c1 * min(R, 10) + c2 * clip(R - 10, 0, 40) + c3 * max(R - 50, 0)
        fs = c4 * log(min(vs, 600) / vr)
        if s["depth_1_0"] is not None:
            fs += c5 * min(1000 * (s["depth_1_0"] - cy14_z1(vs, None)), 200)
        dur.append((fe + fp) * exp(fs))
        t1, t2 = ((0.28, 0.25), (0.25, 0.19), (0.30, 0.19))[j]
        p1, p2 = ((0.54, 0.41), (0.43, 0.35), (0.56, 0.45))[j]
        tau = t1 + (t2 - t1) * clip((M - 6.5) / 0.5, 0, 1)
        phi = p1 + (p2 - p1) * clip((M - 5.5) / 0.25, 0, 1)
        std.append(sqrt(tau**2 + phi**2))
    return dict(dur=dur, std=std)


# --------------------------------------------------------------------------- PR23 / PR24
PR23 = jdata("pr23.json")
PR24 = jdata("pr24.json")


def _pw(x, p):
    """x**p as float, NaN for a negative base."""
    return x**p if x >= 0 else NAN


def pr23_base(s):
    M, R, vs = s["mag"], s["dist_rup"], s["v_s30"]
    if M < 6.75:
        e = 0.515
    elif R <= 10:
        e = 0.41 + (0.455 - 0.41) * R / 10
    elif R <= 42:
        e = 0.455 + (0.54 - 0.455) * (R - 10) / 32
    else:
        e = 0.54 + (0.575 - 0.54) * (R - 42) / 158
    src = 3.655 * 10 ** ((M - 6.75) * e)
    path = 0.041 * R
    if R < 44:
        path += 0.063 * R
    elif R < 130:
        path += 0.063 * 44 + 0.034 * (R - 44)
    else:
        path += 0.063 * 44 + 0.034 * 86 + 0.083 * (R - 130)
    if vs >= 2000:
        sv = 0.0
    elif vs >= 2000 * 0.95:
        sv = 0.565 * log(2000 / vs) / log(1 / 0.95)
    elif vs >= 275:
        sv = 0.565
    elif vs >= 200:
        sv = 0.565 + (1.11 - 0.565) * log(275 / vs) / log(275 / 200)
    else:
        sv = 1.11
    site = -0.619 * log(vs / 2000) * exp(0.278 * sv)
    sig = 0.537 - 0.093 * R / 100 + 0.0278 * (R / 100) ** 2 - 0.0372 * M + 0.00179 * M**2
    sig += min(0.0206 * (200 / vs) ** 2.401, 0.0419)
    return src + path + site, sig


def pr23_energy(s, energy):
    med, sig = pr23_base(s)
    if abs(energy - 0.75) <= 1e-8 + 1e-5 * 0.75:
        return med, _pw(_pw(med, 0.3) + sig, 1 / 0.3), _pw(_pw(med, 0.3) - sig, 1 / 0.3)
    k = min(range(len(PR23["energy"])), key=lambda i: abs(PR23["energy"][i] - energy))
    c = PR23["cmed"][k] + PR23["a0"][k] + PR23["r1x"][k] * s["dist_rup"]
    c += PR23["v1x"][k] * log(s["v_s30"] / 2000)
    da = _pw(c, 0.3)
    dc = _pw(med, 0.3) * 0.3 * _pw(c, -0.7)
    sc, rho = PR23["std_c"][k], PR23["r"][k]
    s2 = (da * sig) ** 2 + (dc * sc) ** 2 + 2 * rho * da * dc * sig * sc
    sg = sqrt(s2) if s2 >= 0 else NAN
    m = c * med
    return m, _pw(_pw(m, 0.3) + sg, 1 / 0.3), _pw(_pw(m, 0.3) - sg, 1 / 0.3)


def pr23_ref(s):
    return dict(dur=list(pr23_energy(s, 0.75)))


def pr24_base(s):
    M, R, vs = s["mag"], s["dist_rup"], s["v_s30"]
    if s["event_type"] == "interface":
        c31, c312 = 0.031, 0.029
        cb, c4 = {"Japan": (0.03, -2.485), "New Zealand": (0.024, -2.420), "South America": (0.024, -2.248)}[s["region"]]
        src = 5.268 * 10 ** ((M - 7) * 0.275)
        sg = (0.3107, -0.0393, 0.0062, -0.0519, 0.0041, 0.0028)
    else:
        c31, c312 = 0.013, 0.020
        cb, c4 = {
            "Japan": (0.046, -1.480),
            "New Zealand": (0.032, -1.252),
            "South America": (0.042, -1.510),
            "Taiwan": (0.038, -1.151),
        }[s["region"]]
        if M < 6:
            src = 0.340 * 10 ** ((M - 4.25) * 0.5)
        else:
            src = 0.340 * 10 ** (1.75 * 0.5) + 2.770 * (M - 6) / 2.5
        sg = (0.3035, -0.0188, 0.004, -0.0288, 0.0019, 0.0038)
    path = c31 * R if R < 250 else c312 * (R - 250) + 250 * c31
    med = src + c4 * log(vs / 3100) + path + cb * R
    sig = sg[0] + sg[1] * R / 100 + sg[2] * (R / 100) ** 2 + sg[3] * M + sg[4] * M**2 + sg[5] * log(vs)
    return med, sig


def pr24_energy(s, energy):
    med, sig = pr24_base(s)
    inter = s["event_type"] == "interface"
    n = 0.15 if inter else 0.25
    if abs(energy - 0.75) <= 1e-8 + 1e-5 * 0.75:
        return med, _pw(_pw(med, n) + sig, 1 / n), _pw(_pw(med, n) - sig, 1 / n)
    E = [round(0.10 + 0.05 * i, 2) for i in range(18)]
    k = min(range(18), key=lambda i: abs(E[i] - energy))
    if k == 13:
        c, sc, rho = 1.0, 0.0, 0.0
    T = PR24["interface" if inter else "slab"]
    c = T["c_median"][k] + T["a0"][k] + T["m1"][k] * s["mag"] + T["r1"][k] * s["dist_rup"] / 100
    c += T["v1"][k] * log(s["v_s30"] / 3100)
    sc, rho = T["sigma_c"][k], T["rho"][k]
    m = med * c
    var = sig**2 * _pw(c, 2 * n) + n**2 * sc**2 * _pw(med, 2 * n) * _pw(c, 2 * n - 2)
    var += 2 * n * rho * _pw(c, 2 * n - 1) * _pw(med, n) * sig * sc
    sd = sqrt(var) if var >= 0 else NAN
    return m, _pw(_pw(m, n) + sd, 1 / n), _pw(_pw(m, n) - sd, 1 / n)


def pr24_ref(s):
    return dict(dur=list(pr24_energy(s, 0.75)), d575=list(pr24_base(s)))


PR24_SCALE = {
    "D5-10": 0.25, "D5-20": 0.35, "D5-30": 0.50, "D5-40": 0.65, "D5-50": 0.75, "D5-60": 0.85,
    "D5-70": 0.95, "D5-75": 1.00, "D5-80": 1.10, "D5-85": 1.25, "D5-90": 1.45, "D5-95": 1.80,
}


# --------------------------------------------------------------------------- correlations
def bj08(t1, t2):
    lo, hi = (t1, t2) if t1 < t2 else (t2, t1)
    c1 = 1 - cos(pi / 2 - 0.366 * log(hi / max(lo, 0.109)))
    c2 = 0.0
    if hi < 0.2:
        c2 = 1 - 0.105 * (1 - 1 / (1 + exp(100 * hi - 5))) * (hi - lo) / (hi - 0.0099)
    c3 = c2 if hi < 0.109 else c1
    c4 = c1 + 0.5 * (sqrt(c3) - c3) * (1 + cos(pi * lo / 0.109)) if c3 >= 0 else NAN
    if hi < 0.109:
        return c2
    if lo > 0.109:
        return c1
    if hi < 0.2:
        return min(c2, c4)
    return c4


def ba18_corr(f1, f2):
    rows = table("bayless_abrahamson_2018.csv")
    if f1 == f2:
        return 1.0
    fr, fm = abs(log(f1 / f2)), min(f1, f2)
    x = [r.freq_hz for r in rows]
    a, b, c, d = (lin(fm, x, [getattr(r, k) for r in rows]) for k in "ABCD")
    return tanh(a * exp(b * fr) + c * exp(d * fr))


ST = jdata("stafford_2017.json")


def _sig(f, a0, a1, a2):
    return a0 / (1 + exp(-a2 * log(f / a1)))


def st_std(f):
    k = ST
    e = k["sigma_E0"] + _sig(f, k["sigma_E1"], k["sigma_E2"], k["sigma_E3"]) + _sig(f, k["sigma_E4"], k["sigma_E5"], k["sigma_E6"])
    s = k["sigma_S0"] + _sig(f, k["sigma_S1"], k["sigma_S2"], k["sigma_S3"]) + _sig(f, k["sigma_S4"], k["sigma_S5"], k["sigma_S6"])
    a = k["sigma_A0"] + k["sigma_A1"] * log(max(f, 5.0) / 5.0) ** 2
    return e, s, a


def st_rho_e(f1, f2, M):
    k = ST
    lo, hi = min(f1, f2), max(f1, f2)
    fn = lo / 10 ** (2.181 - 0.496 * M)
    g = k["gamma_E0"] + _sig(fn, k["gamma_E1"], k["gamma_E2"], k["gamma_E3"]) + k["gamma_E4"] * log(fn / k["gamma_E2"])
    return exp(g * log(hi / lo))


def _isclose(a, b):
    return abs(a - b) <= 1e-8 + 1e-5 * abs(b)


def st_rho_a(f1, f2):
    if _isclose(f1, f2):
        return 1.0
    k = ST
    lo, hi = min(f1, f2), max(f1, f2)
    eta = _sig(lo, k["eta_A0"], k["eta_A1"], k["eta_A2"]) * (1 + _sig(lo, k["eta_A3"], k["eta_A4"], k["eta_A5"]))
    m = min(lo, 10.0)
    S = m / (m + k["gamma_A2"] * (1 - m / 10.0))
    g = k["gamma_A0"] + S * k["gamma_A1"] + k["gamma_A3"] * log(max(lo, 10.0) / 10.0) ** 2
    r0 = (1 - eta) * exp(-g * log(hi / lo))
    n = exp(-50 * log(hi / lo))
    return r0 * (1 - n) + n


def st_rho_s(f1, f2):
    if _isclose(f1, f2):
        return 1.0
    k = ST
    lo, hi = min(f1, f2), max(f1, f2)
    eta = k["eta_S0"] * log(clip(lo, 0.25, 4.0) / 0.25) + k["eta_S1"] * log(max(lo, 4.0) / 4.0)
    g = k["gamma_S0"] + _sig(lo, k["gamma_S1"], k["gamma_S2"], k["gamma_S3"]) + _sig(lo, k["gamma_S4"], k["gamma_S5"], k["gamma_S6"])
    r0 = (1 - eta) * exp(g * log(hi / lo))
    n = exp(-50 * log(hi / lo))
    return r0 * (1 - n) + n


def st_cov(f1, f2, sd1, sd2, M):
    return (
        st_rho_e(f1, f2, M) * sd1[0] * sd2[0]
        + st_rho_s(f1, f2) * sd1[1] * sd2[1]
        + st_rho_a(f1, f2) * sd1[2] * sd2[2]
    )
