"""Random small but complete model set-ups (in memory), and the documented relations evaluated from the raw inputs.
Everything comes from one recorded seed, so that a failing case replays."""
import math
import random

import numpy as np
import pandas as pd

HALO = {"CFC-11": (3, 0), "CFC-12": (2, 0), "CFC-113": (3, 0), "CFC-115": (1, 0), "HCFC-22": (1, 0), "HCFC-141b": (2, 0), "HCFC-142b": (1, 0),
        "CCl4": (4, 0), "CH3CCl3": (3, 0), "CH2Cl2": (2, 0), "CH3Br": (0, 1), "H-1211": (1, 1), "H-1301": (0, 1), "H-2402": (0, 2),
        "HFC125": (0, 0), "HFC134a": (0, 0), "CF4": (0, 0), "SF6": (0, 0), "C2F6": (0, 0)}
NEEDED = ["LANDUSE", "OTHER", "SO4_IND", "TROP_O3", "STRAT_O3", "STRAT_H2O", "BMB_AEROS"]
EMITTED = ["SO2", "BC", "OC", "NOx", "CO", "NMVOC", "NH3", "BMB_AEROS_OC", "BMB_AEROS_BC"]
REGION = ["ASIA", "LAM", "MAF", "OECD", "REF"]
QDEF = {"qbmb": 0.0, "qo3": 0.5, "qdirso2": -0.00308, "qindso2": -0.97 / 57.052577209999995, "qbc": 0.0279, "qoc": -0.00433,
        "qh2o_ch4": 0.091915, "ref_yr": 2010, "qnmvoc": 0.0, "qnh3": 0.0, "qnox": 0.0}
QPAR = {"SO2": ("SO2", "qdirso2"), "SO4_IND": ("SO2", "qindso2"), "OC": ("OC", "qoc"), "BC": ("BC", "qbc"),
        "BMB_AEROS": ("BMB_AEROS_OC", "qbmb"), "NMVOC": ("NMVOC", "qnmvoc"), "NH3": ("NH3", "qnh3"), "NOx": ("NOx", "qnox")}
SPLIT = {"SO2": 1.47, "SO4_IND": 1.47, "BC": 1.47, "OC": 1.47, "BMB_AEROS": 1.47, "BMB_AEROS_OC": 1.47, "BMB_AEROS_BC": 1.47,
         "TROP_O3": 1.45, "LANDUSE": 1.42}
FIXED = {"results_as_dict": True, "carbon_cycle_outputs": True}
UDM_DEFAULTS = {"rlamdo": 16.0, "akapa": 0.66, "cpi": 0.4, "W": 4.0, "beto": 3.5, "threstemp": 7.0, "lambda": 0.540, "mixed": 60.0,
                "foan": 0.61, "foas": 0.81, "ebbeta": 0.0, "fnso": 0.7531, "lm": 40, "ldtime": 12, "dt": 1 / 12}


class Sc:
    pass


def scen(env, regional=None, conc_run=None, carbon=None, thermal=None, sunvolc=None, emstart=None, pert_em=False, pert_forc=False, tag="scen", nyears=None):
    seed = env.int(tag + ".seed", 0, None, 0, 2 ** 30)
    R = random.Random(seed)
    s = Sc()
    s.R = R
    s.y0 = R.randint(1985, 2000)
    s.y1 = R.randint(2011, 2016) if nyears is None else max(2011, s.y0 + nyears)
    s.years = list(range(s.y0, s.y1 + 1))
    s.emstart = R.choice([s.y0, s.y0 + 1, s.y0 + 1, s.y0 + 4, s.y1 - 3, s.y1, s.y1 + 2, s.y0 - 5]) if emstart is None else (s.y0 + emstart)
    s.conc_run = R.random() < 0.3 if conc_run is None else conc_run
    s.carbon = R.choice(["default", "box"]) if carbon is None else carbon
    s.thermal = R.choice(["default", "twolayer"]) if thermal is None else thermal
    s.sunvolc = R.choice([0, 1]) if sunvolc is None else sunvolc
    halo = R.sample(sorted(HALO), R.randint(4, 9))
    reg = []
    if R.random() < 0.4 if regional is None else regional:
        for a in R.sample(["SO2", "BC", "OC"], R.randint(1, 3)):
            reg += [f"{a}_{r}" for r in R.sample(REGION, R.randint(1, 3))]
    rest = EMITTED + NEEDED + reg + halo
    R.shuffle(rest)
    s.gases = ["CO2", "CH4", "N2O"] + rest
    if R.random() < 0.5:
        R.shuffle(s.gases)
    s.halo, s.reg = [g for g in s.gases if g in HALO], reg
    u = R.uniform
    rows = {}
    for g in s.gases:
        conc = g in ("CO2", "CH4", "N2O") or g in HALO
        rows[g] = {"EM_UNIT": "X" if g in NEEDED else {"CO2": "Pg_C"}.get(g, "Tg"), "CONC_UNIT": {"CO2": "ppm", "CH4": "ppb", "N2O": "ppb"}.get(g, "ppt") if conc else "-",
                   "BETA": u(1, 30), "ALPHA": u(1e-5, 4e-4) if g in HALO else (u(-0.02, 0.04) if g in reg else 0.0),
                   "TAU1": u(1, 150) if conc else u(0.02, 1), "TAU2": u(80, 200), "TAU3": u(80, 200),
                   "NAT_EM": {"CO2": 0.0, "CH4": 275.0, "N2O": 9.5}.get(g, u(0, 20) if g in HALO else 0.0), "SARF_TO_ERF": u(0.8, 1.25)}
    rows["CH4"].update(BETA=2.78, TAU1=u(8, 11))
    rows["N2O"].update(BETA=4.81, TAU1=u(100, 130))
    if R.random() < 0.3:
        rows["CO2"]["NAT_EM"] = u(0, 0.5)
    s.gas = rows
    s.gaspam = pd.DataFrame.from_dict(rows, orient="index")
    e0 = s.y0 - R.choice([0, 0, 3])
    c0 = s.y0 - R.choice([0, 0, 4])
    e1, c1 = s.y1 + R.choice([0, 0, 2]), s.y1 + R.choice([0, 0, 3])

    def walk(n, lo, hi):
        x = [u(lo, hi)]
        for _ in range(n - 1):
            x.append(min(max(x[-1] + u(-0.08, 0.1) * (hi - lo), lo), hi))
        return x
    em = {"CO2_FF": walk(e1 - e0 + 1, 4, 11), "CO2_AFOLU": walk(e1 - e0 + 1, *R.choice([(0, 2), (0, 2), (-1.5, 1)]))}
    rng = {"CH4": (100, 400), "N2O": (3, 10), "SO2": (30, 120), "CO": (400, 1100), "NOx": (10, 60), "NMVOC": (80, 250)}
    for g in s.gases:
        if g == "CO2" or g in NEEDED:
            continue
        em[g] = walk(e1 - e0 + 1, *rng.get(g, (1, 60)))
    for g in R.sample(s.gases, 2):      # a year of net removal
        if g in em and g != "CH4" and R.random() < 0.4:
            em[g][R.randrange(len(em[g]))] = -u(0, 4)
    s.emis = pd.DataFrame(em, index=range(e0, e1 + 1))
    crng = {"CO2": (330, 420), "CH4": (1600, 1900), "N2O": (300, 335)}
    s.conc = pd.DataFrame({g: walk(c1 - c0 + 1, *crng.get(g, (5, 400))) for g in s.gases if rows[g]["CONC_UNIT"] != "-"}, index=range(c0, c1 + 1))
    if R.random() < 0.25:   # monotone rising CO2, as in practice
        s.conc["CO2"] = np.linspace(340, 415, c1 - c0 + 1)
    ny = s.y1 - s.y0 + 1
    s.natch4 = pd.DataFrame({"CH4": [u(200, 300) for _ in range(ny)]}, index=s.years) if R.random() < 0.6 else None
    s.natn2o = pd.DataFrame({"N2O": [u(6, 12) for _ in range(ny)]}, index=s.years) if R.random() < 0.6 else None
    s.sun = pd.DataFrame([u(-0.2, 0.2) for _ in range(ny)], index=s.years)
    s.volc_n = pd.DataFrame([[u(-1, 0.2) for _ in range(12)] for _ in range(ny)], index=s.years)
    s.volc_s = pd.DataFrame([[u(-1, 0.2) for _ in range(12)] for _ in range(ny)], index=s.years)
    s.luc = pd.DataFrame([u(-0.3, 0.1) for _ in range(ny)], index=s.years)
    s.pert_em = s.pert_forc = None
    comps = [g for g in s.gases if g in s.emis.columns]
    if pert_em:
        rr = [(R.choice(comps + ["CO2_FF", "CO2", "CO2_AFOLU"]), R.choice(s.years), u(-2, 6)) for _ in range(R.randint(1, 4))]
        if R.random() < 0.5:
            rr.append((rr[0][0], rr[0][1], u(-1, 1)))
        if R.random() < 0.5:     # the very same once more
            rr.append(R.choice(rr))
        if R.random() < 0.4:     # one component in many years
            g = R.choice(comps)
            rr += [(g, y, u(-1, 3)) for y in R.sample(s.years, R.randint(3, len(s.years)))]
        s.pert_em = pd.DataFrame(rr, columns=["component", "year", "emission"])
    if pert_forc:
        fc = [g for g in s.gases] + ["not_in_run"]
        big = R.choice([1, 1, 1, 5])
        rr = [(R.choice(fc), R.choice(s.years), big * u(-1, 1)) for _ in range(R.randint(1, 5))]
        if R.random() < 0.6:
            k = R.randrange(len(rr))
            rr.append((rr[k][0], rr[k][1], u(-1, 1)))
        if R.random() < 0.6:     # the very same once more
            rr.append(R.choice(rr))
        if R.random() < 0.4:     # one component in many years
            g = R.choice(s.halo if R.random() < 0.5 else s.gases)
            rr += [(g, y, u(-1, 1)) for y in R.sample(s.years, R.randint(3, len(s.years)))]
        s.pert_forc = pd.DataFrame(rr, columns=["component", "year", "forcing"])
    s.emiconc = {k: u(-0.05, 0.05) for k in QDEF if R.random() < 0.6}
    s.emiconc.pop("ref_yr", None)
    if R.random() < 0.6:
        s.emiconc["ref_yr"] = R.choice(s.years)
    if R.random() < 0.7:
        s.emiconc["lifetime_mode"] = R.choice(["TAR", "CONSTANT_12", "WIGLEY"])
    s.just_one = None
    s.p = dict(QDEF, lifetime_mode="TAR")
    s.p.update({k: v for k, v in s.emiconc.items()})
    s.udm = udm_pams(R, s.thermal)
    s.carb = {}
    s.conf = {}
    return s


def carbon_pams(s, narrow=False):
    """random parameters, response functions and step count of the default carbon cycle, each given where the interface allows:
    s.carb goes to the run, s.conf to the configuration; returns all that the carbon cycle should have got"""
    R, u = s.R, s.R.uniform
    rng = {"beta_f": (0.15, 0.45), "mixed_carbon": (40, 120), "ml_w_sigmoid": (2, 4), "ml_fracmax": (0.3, 0.8), "ml_t_half": (-0.5, 1), "t_half": (0.3, 0.8),
           "w_sigmoid": (5, 10), "t_threshold": (3, 7), "w_threshold": (5, 10), "solubility_sens": (0.01, 0.03), "solubility_limit": (0.4, 0.8), "ml_depth_min": (5, 60)}
    s.carb = {k: u(*v) for k, v in rng.items() if R.random() < 0.4}
    s.conf = {"idtm": R.choice([24, 24, 12, 6, 1])} if R.random() < 0.5 else {}
    if narrow:
        s.conf.pop("idtm", None)
    got = dict(s.carb)
    if R.random() < 0.6:
        rs = {"coeffs": [u(0.02, 0.2), u(0.3, 0.7), u(0.1, 0.3), u(0.1, 0.3)], "timescales": [u(0.5, 3), u(5, 20), u(40, 200)]}
        got["rs_function"] = rs
        R.choice([s.carb, s.conf])["rs_function"] = rs
    if R.random() < 0.6:
        rb = {"coeffs": [u(0.3, 0.7), u(0.1, 0.4), u(0.1, 0.4)], "timescales": [u(1, 5), u(5, 20), u(40, 200)]}
        got["rb_function"] = rb
        R.choice([s.carb, s.conf])["rb_function"] = rb
    return got


def udm_pams(R, thermal):
    u = R.uniform
    if thermal == "twolayer":
        return {"lambda": u(0.6, 2), "mixed": u(20, 120), "deep": u(500, 3000), "k": u(0.2, 1.2), "ocean_efficacy": u(0.8, 1.5), "foan": u(0.5, 0.7), "foas": u(0.7, 0.9)}
    p = {"rlamdo": u(8, 22), "akapa": u(0.2, 0.9), "cpi": u(0.1, 0.6), "W": u(0.5, 6), "beto": u(1, 6), "threstemp": u(2, 8), "lambda": u(0.35, 0.9), "mixed": u(30, 110)}
    if R.random() < 0.3:
        p["ldtime"] = R.choice([6, 12, 24])
    return {k: v for k, v in p.items() if R.random() < 0.8}


def cfg(s, **kw):
    c = {"nystart": s.y0, "nyend": s.y1, "emstart": s.emstart, "gaspam_data": s.gaspam, "emissions_data": s.emis, "concentrations_data": s.conc,
         "carbon_cycle_model": s.carbon, "thermal_model": s.thermal, "conc_run": s.conc_run, "rf_luc_data": s.luc}
    if s.natch4 is not None:
        c["nat_ch4_data"] = s.natch4
    if s.natn2o is not None:
        c["nat_n2o_data"] = s.natn2o
    if s.sunvolc:
        c.update(sunvolc=1, rf_sun_data=s.sun, rf_volc_n_data=s.volc_n, rf_volc_s_data=s.volc_s)
    if s.pert_em is not None:
        c["perturb_em_data"] = s.pert_em
    if s.pert_forc is not None:
        c["perturb_forc_data"] = s.pert_forc
    c.update({k: dict(v) if isinstance(v, dict) else v for k, v in s.conf.items()})
    c.update(kw)
    return c


def model(env, s, **kw):
    return env.mod("").CICEROSCM(cfg(s, **kw))


def run(env, s, m=None, **kw):
    m = model(env, s, **kw) if m is None else m
    pe = dict(s.emiconc)
    if s.just_one:
        pe["just_one"] = s.just_one
    m._run(dict(FIXED), pamset_udm=dict(s.udm), pamset_emiconc=pe, pamset_carbon=dict(s.carb) or None)
    return m.results


def handler(env, s, **kw):
    c = cfg(s, **kw)
    ih = env.mod("input_handler").InputHandler(c)
    pam = {"carbon_cycle_model": s.carbon, "emstart": s.emstart, "nystart": s.y0, "nyend": s.y1, "idtm": s.conf.get("idtm", 24)}
    h = env.mod("concentrations_emissions_handler").ConcentrationsEmissionsHandler(ih, pam, {})
    pe = dict(s.emiconc)
    if s.just_one:
        pe["just_one"] = s.just_one
    h.reset_with_new_pams(pe)
    return h


def sun(s, y):
    return float(s.sun.loc[y].iloc[0]) if s.sunvolc else 0.0


def luc(s, y):
    return float(s.luc.loc[y].iloc[0])


# ------------------------------------------------------------------ the documented relations
def emissions(s):
    """emissions the run uses: the data plus the emission perturbations"""
    e = s.emis.copy()
    if s.pert_em is not None:
        for r in s.pert_em.itertuples():
            c = "CO2_FF" if r.component == "CO2" else r.component
            e.loc[r.year, c] = e.loc[r.year, c] + r.emission
    return e


def q_params(s):
    p = dict(s.p)
    for a, q in (("SO2", "qdirso2"), ("BC", "qbc"), ("OC", "qoc")):
        if any(g.startswith(a + "_") for g in s.gases):
            p[q] = 0.0
    return p


def concentrations(s):
    """every gas except CO2 (None where the carbon cycle decides)"""
    e, p = emissions(s), s.p
    out = {}
    for g in s.conc.columns:
        if g == "CO2":
            continue
        o = {}
        for y in s.years:
            if s.conc_run or y < s.emstart:
                o[y] = float(s.conc.loc[y, g])
                continue
            prev = o[y - 1] if y > s.y0 else float(s.conc.loc[y, g])
            G = s.gas[g]
            nat = G["NAT_EM"]
            q = 1 / G["TAU1"]
            if g == "CH4":
                nat = s.natch4.loc[y, "CH4"] if s.natch4 is not None else nat
                if p["lifetime_mode"] == "TAR":
                    oh = -0.32 * (math.log(prev) - math.log(1751.0)) + sum(k * (e.loc[y, x] - e.loc[2000, x]) for k, x in ((0.0042, "NOx"), (-0.000105, "CO"), (-0.000315, "NMVOC")))
                    q = q * (oh + 1)
                elif p["lifetime_mode"] == "CONSTANT_12":
                    q = 1 / 12.0
                else:
                    q = q * (prev / 1700.0) ** -0.238
                q += 1 / G["TAU2"] + 1 / G["TAU3"]
            if g == "N2O":
                nat = s.natn2o.loc[y, "N2O"] if s.natn2o is not None else nat
            eq = (e.loc[y, g] + nat) / G["BETA"] / q
            o[y] = eq + (prev - eq) * math.exp(-q)
        out[g] = o
    return out


def forcings(s, co2, conc=None, perturbed=True):
    """documented component forcings; co2: concentration per year"""
    C = dict(conc or concentrations(s))
    C["CO2"] = co2
    e, p, y0 = emissions(s), q_params(s), s.y0
    ref = p["ref_yr"]
    F = {}
    for g in s.gases:
        erf = s.gas[g]["SARF_TO_ERF"]
        f = {}
        for y in s.years:
            if g in ("CO2", "CH4", "N2O"):
                c, c0, n, n0, m, m0 = C["CO2"][y], C["CO2"][y0], C["N2O"][y], C["N2O"][y0], C["CH4"][y], C["CH4"][y0]
                cb, nb, mb = (c + c0) / 2, (n + n0) / 2, (m + m0) / 2
                if g == "CO2":
                    v = (-2.4e-7 * (c - c0) ** 2 + 7.2e-4 * abs(c - c0) - 2.1e-4 * nb + 5.36) * math.log(c / c0)
                elif g == "N2O":
                    v = (-8e-6 * cb + 4.2e-6 * nb - 4.9e-6 * mb + 0.117) * (math.sqrt(n) - math.sqrt(n0))
                else:
                    v = (-1.3e-6 * mb - 8.2e-6 * nb + 0.043) * (math.sqrt(m) - math.sqrt(m0))
                v *= erf
            elif g in HALO:
                v = erf * s.gas[g]["ALPHA"] * (C[g][y] - C[g][y0])
            elif g == "LANDUSE":
                v = luc(s, y)
            elif g in s.reg:
                v = s.gas[g]["ALPHA"] * (e.loc[y, g] - e.loc[y0, g])
            elif g in QPAR:
                src, q = QPAR[g]
                v = p[q] * (e.loc[y, src] - e.loc[y0, src])
            elif g == "TROP_O3":
                v = p["qo3"] * (o3(s, e, C, ref, y) - o3(s, e, C, ref, y0)) / (30 - o3(s, e, C, ref, y0)) * erf if o3(s, e, C, ref, y0) != 30 else 0.0
            elif g == "STRAT_O3":
                if y < y0 + 3:
                    v = 0.0
                else:
                    cl = br = 0.0
                    for k in s.halo:
                        d = C[k][y - 3] - C[k][y0]
                        ncl, nbr = HALO[k]
                        cl += math.copysign(abs(ncl * d) ** 1.7, d) if ncl and d else 0.0
                        br += nbr * d
                    v = -(0.05 / 0.17377 * (0.000552 * cl + 3.048 * br)) / 1000 * erf
            elif g == "STRAT_H2O":
                v = p["qh2o_ch4"] * F["CH4"][y] * erf if "CH4" in F else None
            else:
                v = 0.0
            f[y] = v
        F[g] = f
    if any(v is None for v in F["STRAT_H2O"].values()):
        F["STRAT_H2O"] = {y: p["qh2o_ch4"] * F["CH4"][y] * s.gas["STRAT_H2O"]["SARF_TO_ERF"] for y in s.years}
    if perturbed and s.pert_forc is not None:
        for r in s.pert_forc.itertuples():
            if r.component in F:
                F[r.component][r.year] += r.forcing
    return F


def o3(s, e, C, ref, y):
    return 30 + 6.7 * (math.log(C["CH4"][y]) - math.log(s.conc.loc[ref, "CH4"])) + 0.17 * (e.loc[y, "NOx"] - e.loc[ref, "NOx"]) \
        + 0.0014 * (e.loc[y, "CO"] - e.loc[ref, "CO"]) + 0.0042 * (e.loc[y, "NMVOC"] - e.loc[ref, "NMVOC"])


def is_aero(g):
    return g in ("NMVOC", "NH3", "NOx") or g[:2] in ("BC", "OC", "SO", "BM")


def fcol(g):
    return "SO4_DIR" if g == "SO2" else g


def series(df, g, years):
    return np.array([float(df.loc[y, g]) for y in years])


def ser(d, years):
    return np.array([d[y] for y in years])
