"""Shared: a ConcentrationsEmissionsHandler in an arbitrary state, and the documented relations as spec functions."""
HM = "concentrations_emissions_handler"
CLS = HM + ".ConcentrationsEmissionsHandler"
MAIN = ["CO2", "CH4", "N2O"]
AERO = ["SO2", "SO4_IND", "BC", "OC", "BMB_AEROS", "BMB_AEROS_OC", "BMB_AEROS_BC", "NMVOC", "NH3", "NOx"]
REG = ["SO2_ASIA", "BC_REF", "OC_LAM"]
OTHERS = ["LANDUSE", "OTHER", "TROP_O3", "STRAT_H2O", "CO", "HFC-new"]
EMSP = ["SO2", "BC", "OC", "BMB_AEROS_OC", "BMB_AEROS_BC", "NMVOC", "NH3", "NOx", "CO", "CO2_FF", "CO2_AFOLU", "CH4", "N2O", "HFC-new", "SO2_ASIA", "BC_REF", "OC_LAM"]
LINEAR = {"HFC-new", "SO2_ASIA", "BC_REF", "OC_LAM"}      # non-zero ALPHA
QPAR = {"SO2": ("SO2", "qdirso2"), "SO4_IND": ("SO2", "qindso2"), "OC": ("OC", "qoc"), "BC": ("BC", "qbc"),
        "BMB_AEROS": ("BMB_AEROS_OC", "qbmb"), "NMVOC": ("NMVOC", "qnmvoc"), "NH3": ("NH3", "qnh3"), "NOx": ("NOx", "qnox")}


class S:
    pass


def build(env, tracers=None, pert=None, extra=None):
    """a handler object with every input it reads arbitrary"""
    m = env.mod(HM)
    s = S()
    s.m = m
    s.tracers = tracers or (MAIN + AERO + REG + OTHERS)
    s.y0 = env.int("y0", 1, None, 1994, 1999)
    s.ny = env.int("ny", 1, None, 8, 14)
    s.off = env.int("off", 0, None, 0, 9)
    s.ref = s.y0 + env.int("roff", 0, None, 0, 7)
    s.yr = s.y0 + s.off
    y1 = s.y0 + s.ny - 1
    s.y1 = y1
    env.assume(s.off < s.ny)
    p = {k: env.anyreal(k, -1, 1) for k in ("qbmb", "qo3", "qdirso2", "qindso2", "qbc", "qoc", "qh2o_ch4", "qnmvoc", "qnh3", "qnox")}
    p.update(ref_yr=s.ref, nystart=s.y0, nyend=y1, emstart=s.y0, lifetime_mode="TAR", conc_run=False, idtm=24, carbon_cycle_model="default")
    s.p = p
    s.gas = {}
    for t in s.tracers:
        hasconc = t in MAIN + ["TROP_O3", "HFC-new"]
        s.gas[t] = {"CONC_UNIT": "ppb" if hasconc and t != "TROP_O3" else "-", "EM_UNIT": "Tg",
                    "ALPHA": env.real("alpha." + t, nonzero=True, sample=(-1, 1)) if t in LINEAR else 0,
                    "SARF_TO_ERF": env.anyreal("erf." + t, 0.5, 1.5),
                    "BETA": env.pos("beta." + t, 0.5, 10), "TAU1": env.pos("tau1." + t, 0.5, 200),
                    "TAU2": env.pos("tau2." + t, 50, 300), "TAU3": env.pos("tau3." + t, 50, 300), "NAT_EM": env.anyreal("nat." + t, 0, 10)}
    h = m.ConcentrationsEmissionsHandler.__new__(m.ConcentrationsEmissionsHandler)
    s.h = h
    h.df_gas = env.gastable(s.gas)
    h.years = m.np.arange(s.y0, y1 + 1)
    h.pamset = dict(p)
    h.emis = env.yframe("em", EMSP, s.y0, y1, slo=-5, shi=50)
    h.conc_in = env.yframe("cin", [t for t in s.tracers if t in MAIN + ["HFC-new"]], s.y0, y1, positive=True, slo=100, shi=900)
    h.nat_emis_ch4 = env.yframe("natch4", ["CH4"], s.y0, y1, slo=0, shi=300)
    h.nat_emis_n2o = env.yframe("natn2o", ["N2O"], s.y0, y1, slo=0, shi=20)
    h.conc = {t: env.ymap("c." + t, s.y0, y1, positive=True, slo=100, shi=900) for t in s.tracers if t in MAIN + ["TROP_O3", "HFC-new"]}
    h.forc = {t: m.np.zeros(s.ny) for t in s.tracers}
    h.forc["Total_forcing"] = m.np.zeros(s.ny)
    h.precalc_dict = {"precalc_erf": env.yframe("pre", ["TOT_vanilla"], s.y0, y1)}
    s.idx = s.off
    if pert:
        rows = []
        names = pert
        for i, t in enumerate(names):
            rows.append({"component": t, "year": s.y0 + env.int(f"pyr{i}", 0, None, 0, 7), "forcing": env.anyreal(f"pf{i}", -1, 1)})
        s.pert = rows
        pm = env.mod("perturbations")
        fp = pm.ForcingPerturbation(Inp({"perturb_forc": env.rowtable(rows, ["component", "year", "forcing"])}), s.y0)
        h.pamset["forc_pert"] = fp
    return s


class Inp:
    """an input handler that hands out the given data"""

    def __init__(self, d):
        self.d = d

    def get_data(self, k):
        return self.d[k]

    def optional_pam(self, k):
        return k in self.d


def pert_sum(env, s, t, yr=None):
    """documented effect of the perturbation table on component t in the year"""
    r = 0
    for q in s.pert:
        if q["component"] == t:
            r = r + env.ite(q["year"] == s.yr, q["forcing"], 0)
    return r


def absval(env, x):
    return env.ite(x >= 0, x, -x) if env.symbolic else abs(x)


def etminan(env, k, c, c0, n, n0, m, m0):
    L = env.lit
    if k == "CO2":
        d = c - c0
        ad = env.ite(d >= 0, d, -d)
        return (L("-2.4e-7") * d * d + L("7.2e-4") * ad - L("2.1e-4") * (n + n0) / 2 + L("5.36")) * env.log(c / c0)
    if k == "N2O":
        return (L("-8e-6") * (c + c0) / 2 + L("4.2e-6") * (n + n0) / 2 - L("4.9e-6") * (m + m0) / 2 + L("0.117")) * (env.sqrt(n) - env.sqrt(n0))
    return (L("-1.3e-6") * (m + m0) / 2 - L("8.2e-6") * (n + n0) / 2 + L("0.043")) * (env.sqrt(m) - env.sqrt(m0))


def main_spec(env, s, k):
    C = s.h.conc
    a = [C[x][y] for x in ("CO2", "N2O", "CH4") for y in (s.yr, s.y0)]
    return s.gas[k]["SARF_TO_ERF"] * etminan(env, k, *a)


def aero_spec(env, s, t):
    em = s.h.emis
    if t in LINEAR:
        return s.gas[t]["ALPHA"] * (em[t][s.yr] - em[t][s.y0])
    if t in QPAR:
        src, q = QPAR[t]
        return s.p[q] * (em[src][s.yr] - em[src][s.y0])
    return 0


def split(t):
    """documented northern-hemisphere share of the agent (twice the fraction)"""
    if t in ("SO2", "SO4_IND", "BC", "OC", "BMB_AEROS", "BMB_AEROS_OC", "BMB_AEROS_BC"):
        return "1.47"
    return {"TROP_O3": "1.45", "LANDUSE": "1.42"}.get(t, "1")


def o3_conc(env, s, y):
    L, em = env.lit, s.h.emis
    d = lambda g: em[g][y] - em[g][s.ref]
    return 30 + L("6.7") * (env.log(s.h.conc["CH4"][y]) - env.log(s.h.conc_in["CH4"][s.ref])) + L("0.17") * d("NOx") + L("0.0014") * d("CO") + L("0.0042") * d("NMVOC")
