"""Scalar reference implementations of the NGA-West2 models.

Each ``*_ref(s)`` takes a dict with every input resolved (defaults and estimates applied)
and returns a dict of lists aligned with the rows of the snapshot table.  Written from the
published equations as plain per-period scalar code, independent of numpy broadcasting.
"""
from math import cos, cosh, exp, isnan, log, radians, sin, sqrt, tan, tanh

from .refutil import clip, lin, table

NAN = float("nan")


# --------------------------------------------------------------------------- estimators
def cy14_z1(vs, region):
    if region == "japan":
        return exp(-5.23 / 2 * log((vs**2 + 412.39**2) / (1360.0**2 + 412.39**2))) / 1000
    return exp(-7.15 / 4 * log((vs**4 + 570.94**4) / (1360.0**4 + 570.94**4))) / 1000


def ask14_z1(vs, region):
    if region == "japan":
        return exp(-5.23 / 2 * log((vs**2 + 412.0**2) / (1360.0**2 + 412.0**2))) / 1000
    return exp(-7.67 / 4 * log((vs**4 + 610.0**4) / (1360.0**4 + 610.0**4))) / 1000


def cy14_ztor(mag, mech):
    if mech == "RS":
        z = 2.704 - 1.226 * max(mag - 5.849, 0)
    else:
        z = 2.673 - 1.136 * max(mag - 4.970, 0)
    return max(z, 0) ** 2


def ask14_width(mag, dip):
    return min(18 / sin(radians(dip)), 10 ** (-1.75 + 0.45 * mag))


def ask14_ztor(mag):
    return lin(mag, [5.0, 7.2], [7.8, 0.0])


def cb14_z25(vs, region, z1=None):
    if vs:
        a, b, x = (5.359, 1.102, vs) if region == "japan" else (7.089, 1.144, vs)
    elif z1:
        a, b, x = (0.408, -1.745, z1) if region == "japan" else (1.392, -1.798, z1)
    else:
        raise NotImplementedError
    return exp(a - b * log(x))


def cb14_width(mag, dip, ztor, zbot):
    return min(sqrt(10 ** ((mag - 4.07) / 0.98)), (zbot - ztor) / sin(radians(dip)))


def cb14_zbor(ztor, dip, width):
    return ztor + width * sin(radians(dip))


def cb14_zhyp(mag, dip, ztor, zbor):
    f_m = -4.317 + 0.984 * mag if -4.317 + 0.984 * mag < 2.325 else 2.325
    f_d = 0.0445 * (dip - 40) if dip < 40 else 0.0
    arg = 0.9 * (zbor - ztor)
    lim = log(arg) if arg > 0 else (float("-inf") if arg == 0 else NAN)
    v = f_m + f_d
    return ztor + exp(lim if lim < v else v)


# --------------------------------------------------------------------------- ASK14
T_ASK = "abrahamson_silva_kamai_2014.csv"


def ask14_derive(s):
    d = {}
    if s["width"] is None:
        d["width"] = ask14_width(s["mag"], s["dip"])
    if s["depth_tor"] is None:
        d["depth_tor"] = ask14_ztor(s["mag"])
    return d


def ask14_site_row(c, ref, vs, z1, region):
    v1 = exp(-0.35 * log(clip(c.period, 0.5, 3.0) / 0.5) + log(1500.0))
    ratio = min(vs, v1) / c.v_lin
    if ratio < 1:
        f5 = c.a10 * log(ratio) - c.b * log(ref + c.c) + c.b * log(ref + c.c * ratio**c.n)
    else:
        f5 = (c.a10 + c.b * c.n) * log(ratio)
    f10 = 0.0
    if z1 is not None and vs != 1180.0:
        slope = lin(vs, [150, 250, 400, 700], [c.a43, c.a44, c.a45, c.a46])
        f10 = slope * log((z1 + 0.01) / (ask14_z1(vs, region) + 0.01))
    return f5 + f10


def ask14_ref(s):
    M, R, vs = s["mag"], s["dist_rup"], s["v_s30"]
    out = dict(ln=[], std=[], tau=[], phi=[])
    hw = 0.0
    if s["on_hanging_wall"]:
        t1 = min(90 - s["dip"], 60) / 45
        if M <= 5.5:
            t2 = 0.0
        elif M < 6.5:
            t2 = 1 + 0.2 * (M - 6.5) - 0.8 * (M - 6.5) ** 2
        else:
            t2 = 1 + 0.2 * (M - 6.5)
        rx = s["dist_x"]
        r1 = s["width"] * cos(radians(s["dip"]))
        r2 = 3 * r1
        if rx < r1:
            t3 = 0.25 + 1.5 * (rx / r1) - 0.75 * (rx / r1) ** 2
        elif rx < r2:
            t3 = 1 - (rx - r1) / (r2 - r1)
        else:
            t3 = 0.0
        t4 = clip(1 - s["depth_tor"] ** 2 / 100, 0, 1)
        if s["dist_y0"] is None:
            t5 = clip(1 - s["dist_jb"] / 30, 0, 1)
        else:
            t5 = clip(1 - (s["dist_y0"] - rx * tan(radians(20))) / 5, 0, 1)
        hw = t1 * t2 * t3 * t4 * t5

    for c in table(T_ASK):

        def resp(v, ref):
            h = c.c4 - (c.c4 - 1) * clip(5 - M, 0, 1)
            dist = sqrt(R**2 + h**2)
            if M > c.m1:
                f1 = c.a5 * (M - c.m1) + c.a8 * (8.5 - M) ** 2
                f1 += (c.a2 + c.a3 * (M - c.m1)) * log(dist)
            elif M > c.m2:
                f1 = c.a4 * (M - c.m1) + c.a8 * (8.5 - M) ** 2
                f1 += (c.a2 + c.a3 * (M - c.m1)) * log(dist)
            else:
                f1 = c.a4 * (c.m2 - c.m1) + c.a8 * (8.5 - c.m2) ** 2
                f1 += c.a6 * (M - c.m2) + c.a7 * (M - c.m2) ** 2
                f1 += (c.a2 + c.a3 * (c.m2 - c.m1)) * log(dist)
            f1 += c.a1 + c.a17 * R
            f4 = c.a13 * hw
            f6 = c.a15 * clip(s["depth_tor"] / 20, 0, 1)
            f78 = 0.0
            if s["mechanism"] == "RS":
                f78 = c.a11 * clip(M - 4, 0, 1)
            elif s["mechanism"] == "NS":
                f78 = c.a12 * clip(M - 4, 0, 1)
            f11 = 0.0
            if s["is_aftershock"]:
                f11 = c.a14 * clip(1 - (s["dist_crjb"] - 5) / 10, 0, 1)
            freg = 0.0
            if s["region"] == "taiwan":
                v1 = exp(-0.35 * log(clip(c.period, 0.5, 3.0) / 0.5) + log(1500.0))
                freg = c.a31 * log(min(v, v1) / c.v_lin) + c.a25 * R
            elif s["region"] == "china":
                freg = c.a28 * R
            elif s["region"] == "japan":
                freg = c.a29 * R + lin(
                    v,
                    [150, 250, 350, 450, 600, 850, 1150],
                    [c.a36, c.a37, c.a38, c.a39, c.a40, c.a41, c.a42],
                )
            return f1 + f4 + f6 + f78 + f11 + freg + ask14_site_row(c, ref, v, s["depth_1_0"], s["region"])

        ref = exp(resp(1180.0, NAN))
        out["ln"].append(resp(vs, ref))

        if s["region"] == "japan":
            phi_al = c.s5 + (c.s6 - c.s5) * clip((R - 30) / 50, 0, 1)
        elif s["vs_source"] == "measured":
            phi_al = c.s1m + (c.s2m - c.s1m) * clip((M - 4) / 2, 0, 1)
        else:
            phi_al = c.s1e + (c.s2e - c.s1e) * clip((M - 4) / 2, 0, 1)
        tau_b = c.s3 + (c.s4 - c.s3) * clip((M - 5) / 2, 0, 1)
        phi_b = sqrt(max(phi_al**2 - 0.4**2, 0))
        d = 0.0
        if vs < c.v_lin:
            d = -c.b * ref / (ref + c.c) + c.b * ref / (ref + c.c * (vs / c.v_lin) ** c.n)
        tau = tau_b * (1 + d)
        phi = sqrt((phi_b * (1 + d)) ** 2 + 0.4**2)
        out["tau"].append(tau)
        out["phi"].append(phi)
        out["std"].append(sqrt(tau**2 + phi**2))
    return out


# --------------------------------------------------------------------------- BSSA14
T_BSSA = "boore_stewart_seyhan_atkinson-2014.csv"


def bssa14_site_row(c, pga, vs, z1, region):
    f_lin = c.c * log(min(vs, c.V_c) / c.V_ref)
    f2 = c.f_4 * (exp(c.f_5 * (min(vs, 760.0) - 360)) - exp(c.f_5 * (760.0 - 360)))
    f_nl = c.f_1 + f2 * log((pga + c.f_3) / c.f_3)
    fz = 0.0
    dz = z1 - cy14_z1(vs, region) if z1 is not None else 0.0
    if c.period >= 0.65:
        fz = min(c.f_6 * dz, c.f_7)
    return f_lin + f_nl + fz


def bssa14_ref(s):
    M, R, vs = s["mag"], s["dist_jb"], s["v_s30"]
    rows = table(T_BSSA)

    def rock(c):
        f_e = {"SS": c.e_1, "NS": c.e_2, "RS": c.e_3}.get(s["mechanism"], c.e_0)
        if M <= c.M_h:
            f_e += c.e_4 * (M - c.M_h) + c.e_5 * (M - c.M_h) ** 2
        else:
            f_e += c.e_6 * (M - c.M_h)
        dc3 = c.dc_3global
        if s["region"] in ("china", "turkey"):
            dc3 = c.dc_3ct
        elif s["region"] in ("italy", "japan"):
            dc3 = c.dc_3ij
        r = sqrt(R**2 + c.h**2)
        return f_e + (c.c_1 + c.c_2 * (M - c.M_ref)) * log(r / c.R_ref) + (c.c_3 + dc3) * (r - c.R_ref)

    pga = exp(rock(rows[1]))
    out = dict(ln=[], std=[], tau=[], phi=[])
    for c in rows:
        out["ln"].append(rock(c) + bssa14_site_row(c, pga, vs, s["depth_1_0"], s["region"]))
        w = clip(M, 4.5, 5.5) - 4.5
        tau = c.tau_1 + (c.tau_2 - c.tau_1) * w
        phi = c.phi_1 + (c.phi_2 - c.phi_1) * w
        if R > c.R_2:
            phi += c.dphi_R
        elif R > c.R_1:
            phi += c.dphi_R * log(R / c.R_1) / log(c.R_2 / c.R_1)
        if vs <= c.V_1:
            phi -= c.dphi_V
        elif vs < c.V_2:
            phi -= c.dphi_V * log(c.V_2 / vs) / log(c.V_2 / c.V_1)
        out["tau"].append(tau)
        out["phi"].append(phi)
        out["std"].append(sqrt(tau**2 + phi**2))
    return out


# --------------------------------------------------------------------------- CB14
T_CB = "campbell_bozorgnia_2014.csv"
CB_C, CB_N = 1.88, 1.18


def cb14_derive(s):
    d = dict(s)
    if d["depth_2_5"] is None:
        d["depth_2_5"] = cb14_z25(d["v_s30"], d["region"], d["depth_1_0"])
    if d["depth_tor"] is None:
        d["depth_tor"] = cy14_ztor(d["mag"], d["mechanism"])
    if d["width"] is None:
        d["width"] = cb14_width(d["mag"], d["dip"], d["depth_tor"], d["depth_bot"])
    if d["depth_bor"] is None:
        d["depth_bor"] = cb14_zbor(d["depth_tor"], d["dip"], d["width"])
    if d["depth_hyp"] is None:
        d["depth_hyp"] = cb14_zhyp(d["mag"], d["dip"], d["depth_tor"], d["depth_bor"])
    return {k: v for k, v in d.items() if s[k] is None and v is not None}


def cb14_site_row(c, pga, vs, z25, region):
    r = vs / c.k_1
    if vs <= c.k_1:
        f = c.c_11 * log(r) + c.k_2 * (log(pga + CB_C * r**CB_N) - log(pga + CB_C))
    else:
        f = (c.c_11 + c.k_2 * CB_N) * log(r)
    if region == "japan":
        if vs <= 200:
            f += (c.c_12 + c.k_2 * CB_N) * (log(r) - log(200 / c.k_1))
        else:
            f += (c.c_13 + c.k_2 * CB_N) * log(r)
    if z25 <= 1:
        f += (c.c_14 + (c.c_15 if region == "japan" else 0.0)) * (z25 - 1)
    elif z25 > 3:
        f += c.c_16 * c.k_3 * exp(-0.75) * (1 - exp(-0.25 * (z25 - 3)))
    return f


def cb14_ref(s):
    M, R, vs = s["mag"], s["dist_rup"], s["v_s30"]
    rows = table(T_CB)

    def resp(c, pga, v, z25):
        f = c.c_0 + c.c_1 * M
        f += c.c_2 * max(M - 4.5, 0) + c.c_3 * max(M - 5.5, 0) + c.c_4 * max(M - 6.5, 0)
        f += (c.c_5 + c.c_6 * M) * log(sqrt(R**2 + c.c_7**2))
        if s["mechanism"] == "RS":
            f += c.c_8 * clip(M - 4.5, 0, 1)
        elif s["mechanism"] == "NS":
            f += c.c_9 * clip(M - 4.5, 0, 1)
        # hanging wall
        r1 = s["width"] * cos(radians(s["dip"]))
        r2 = 62 * M - 350
        rx = s["dist_x"]
        if rx < 0:
            fx = 0.0
        elif rx <= r1:
            q = rx / r1
            fx = c.h_1 + c.h_2 * q + c.h_3 * q**2
        else:
            q = (rx - r1) / (r2 - r1)
            fx = max(0.0, c.h_4 + c.h_5 * q + c.h_6 * q**2)
        fr = 1.0 if R == 0 else (R - s["dist_jb"]) / R
        fm = 0.0 if M <= 5.5 else min(M - 5.5, 1) * (1 + c.a_2 * (M - 6.5))
        fz = 1 - 0.06 * s["depth_tor"] if s["depth_tor"] <= 16.66 else 0.0
        f += c.c_10 * fx * fr * fm * fz * (90 - s["dip"]) / 45
        f += cb14_site_row(c, pga, v, z25, s["region"])
        f += clip(s["depth_hyp"] - 7, 0, 13) * (c.c_17 + (c.c_18 - c.c_17) * clip(M - 5.5, 0, 1))
        f += c.c_19 * s["dip"] * clip(5.5 - M, 0, 1)
        dc20 = {"japan": c.dc_20jp, "italy": c.dc_20jp, "china": c.dc_20ch}.get(s["region"], c.dc_20ca)
        f += (c.c_20 + dc20) * max(R - 80, 0)
        return f

    cp = rows[-2]
    pga = exp(resp(cp, NAN, 1100.0, cb14_z25(1100.0, s["region"])))
    w = clip(5.5 - M, 0, 1)
    tau_p = cp.tau_2 + (cp.tau_1 - cp.tau_2) * w
    phi_p = cp.phi_2 + (cp.phi_1 - cp.phi_2) * w
    phi_pb = sqrt(phi_p**2 - cp.phi_lnAF**2)
    out = dict(ln=[], std=[], tau=[], phi=[])
    for c in rows:
        out["ln"].append(resp(c, pga, vs, s["depth_2_5"]))
        ty = c.tau_2 + (c.tau_1 - c.tau_2) * w
        py = c.phi_2 + (c.phi_1 - c.phi_2) * w
        a = 0.0
        if vs < c.k_1:
            a = c.k_2 * pga * (1 / (pga + CB_C * (vs / c.k_1) ** CB_N) - 1 / (pga + CB_C))
        tau = sqrt(ty**2 + (a * tau_p) ** 2 + 2 * a * c.rho_lnPGAlnY * ty * tau_p)
        pb = sqrt(py**2 - c.phi_lnAF**2)
        phi = sqrt(pb**2 + c.phi_lnAF**2 + (a * phi_pb) ** 2 + 2 * a * c.rho_lnPGAlnY * pb * phi_pb)
        out["tau"].append(tau)
        out["phi"].append(phi)
        out["std"].append(sqrt(tau**2 + phi**2))
    # Equation (1): ln Y = ln PGA where PSA < PGA and T < 0.25 s
    out["ln"] = [max(y, out["ln"][-2]) if 0 < c.period < 0.25 else y for c, y in zip(rows, out["ln"])]
    return out


# --------------------------------------------------------------------------- CY14
T_CY = "chiou_youngs_2014.csv"


def cy14_derive(s):
    d = {}
    if s["depth_tor"] is None:
        d["depth_tor"] = cy14_ztor(s["mag"], s["mechanism"])
    if s["depth_1_0"] is None:
        d["depth_1_0"] = cy14_z1(s["v_s30"], s["region"])
    return d


def cy14_site_row(c, y, vs, z1, region):
    jp = region == "japan"
    f = (c.phi_1jp if jp else c.phi_1) * min(log(vs / 1130.0), 0)
    f += (
        c.phi_2
        * (exp(c.phi_3 * (min(vs, 1130.0) - 360)) - exp(c.phi_3 * (1130.0 - 360)))
        * log((y + c.phi_4) / c.phi_4)
    )
    dz = 1000 * (z1 - cy14_z1(vs, region))
    f += (c.phi_5jp if jp else c.phi_5) * (1 - exp(-dz / (c.phi_6jp if jp else c.phi_6)))
    return f


def cy14_ref(s):
    M, R, vs = s["mag"], s["dist_rup"], s["v_s30"]
    out = dict(ln=[], std=[], tau=[], phi=[])
    ch = cosh(2 * max(M - 4.5, 0))
    for c in table(T_CY):
        f = c.c_1
        if s["mechanism"] == "RS":
            f += c.c_1a + c.c_1c / ch
        elif s["mechanism"] == "NS":
            f += c.c_1b + c.c_1d / ch
        f += (c.c_7 + c.c_7b / ch) * (s["depth_tor"] - cy14_ztor(M, s["mechanism"]))
        f += (c.c_11 + c.c_11b / ch) * cos(radians(s["dip"])) ** 2
        f += c.c_2 * (M - 6) + (c.c_2 - c.c_3) / c.c_n * log(1 + exp(c.c_n * (c.c_m - M)))
        f += c.c_4 * log(R + c.c_5 * cosh(c.c_6 * max(M - c.c_hm, 0)))
        f += (c.c_4a - c.c_4) * log(sqrt(R**2 + c.c_rb**2))
        g = 1.0
        if s["region"] in ("japan", "italy") and 6 < M < 6.9:
            g = c.gamma_ji
        elif s["region"] == "china":
            g = c.gamma_c
        f += g * (c.c_gamma1 + c.c_gamma2 / cosh(max(M - c.c_gamma3, 0))) * R
        f += (
            c.c_8
            * max(1 - max(R - 40, 0) / 30, 0)
            * min(max(M - 5.5, 0) / 0.8, 1)
            * exp(-c.c_8a * (M - c.c_8b) ** 2)
            * s["dpp_centered"]
        )
        if s["on_hanging_wall"]:
            f += (
                c.c_9
                * cos(radians(s["dip"]))
                * (c.c_9a + (1 - c.c_9a) * tanh(s["dist_x"] / c.c_9b))
                * (1 - sqrt(s["dist_jb"] ** 2 + s["depth_tor"] ** 2) / (R + 1))
            )
        y = exp(f)
        out["ln"].append(f + cy14_site_row(c, y, vs, s["depth_1_0"], s["region"]))
        s2 = c.sigma_2jp if s["region"] == "japan" else c.sigma_2
        w = clip(M, 5.0, 6.5) - 5
        tau = c.tau_1 + (c.tau_2 - c.tau_1) / 1.5 * w
        nl = (
            c.phi_2
            * (exp(c.phi_3 * (min(vs, 1130.0) - 360)) - exp(c.phi_3 * (1130.0 - 360)))
            * (y / (y + c.phi_4))
        )
        k = 0.7 if s["vs_source"] == "measured" else c.sigma_3
        phi = (c.sigma_1 + (s2 - c.sigma_1) / 1.5 * w) * sqrt(k + (1 + nl) ** 2)
        tau = abs(1 + nl) * tau
        out["tau"].append(tau)
        out["phi"].append(phi)
        out["std"].append(sqrt(tau**2 + phi**2))
    return out


# --------------------------------------------------------------------------- I14
def i14_ref(s):
    M, R = s["mag"], s["dist_rup"]
    rows = table("idriss_2014-small.csv" if M <= 6.75 else "idriss_2014-large.csv")
    out = dict(ln=[], std=[])
    for c in rows:
        f = c.alpha_1 + c.alpha_2 * M + c.alpha_3 * (8.5 - M) ** 2
        f += -(c.beta_1 + c.beta_2 * M) * log(R + 10) + c.gamma * R
        f += c.epsilon * log(s["v_s30"])
        if s["mechanism"] == "RS":
            f += c.phi
        out["ln"].append(f)
        out["std"].append(1.18 + 0.035 * log(clip(c.period, 0.05, 3.0)) - 0.06 * clip(M, 5.0, 7.5))
    return out
