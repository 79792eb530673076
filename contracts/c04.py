"""C04 concentrations obey the one-box mass balance"""
from pyvc.contract import contract
from . import _handler as H

LEVEL = "proof"
REG = []
GASES = ["CO2", "CH4", "N2O", "HFC-new", "TROP_O3"]


class Carbon:
    """stands for the carbon cycle: its own contracts are C05-C08; here only what it is handed matters"""

    def __init__(self, v):
        self.v, self.calls = v, []

    def co2em2conc(self, yr, em_co2_common, feedback_dict=None):
        self.calls.append((yr, em_co2_common, feedback_dict))
        return self.v


def state(env):
    s = H.build(env, tracers=GASES + ["SO2", "NOx"])
    h = s.h
    h.conc = {t: env.ymap("c." + t, s.y0, s.y1, positive=True, slo=100, shi=900) for t in GASES}
    h.carbon_cycle = Carbon(env.pos("co2", 200, 900))
    h.pamset["emstart"] = s.y0 + env.int("emoff", None, None, -3, 14)
    s.mode = env.choice("mode", ["TAR", "CONSTANT_12", "WIGLEY"])
    h.pamset["lifetime_mode"] = s.mode
    s.em0 = h.pamset["emstart"]
    s.fb = {"dtemp": env.anyreal("dtemp", -1, 3)}
    s.before = {t: (h.conc[t].copy() if hasattr(h.conc[t], "copy") else dict(h.conc[t])) for t in GASES}
    return s


@contract(REG, functions=[H.CLS + ".emi2conc", H.CLS + ".methane_lifetime", H.CLS + ".add_row_of_zeros_conc"], samples=80)
def emission_driven_year(env):
    """From the emission start year on: exact one-year solution with lifetime loss, for any state, emissions and mode; CO2 is
    the carbon cycle's answer to fossil plus land-use plus natural emissions of that year; no other year changes."""
    s = state(env)
    h, y = s.h, s.yr
    if not env.symbolic:
        h.emis = env.yframe("em", H.EMSP, min(s.y0, 2000), max(s.y1, 2000), slo=-5, shi=50)
    env.assume(y >= s.em0)
    env.cover()
    h.emi2conc(y, s.fb)
    L, em, G = env.lit, h.emis, s.gas
    for t in ("CH4", "N2O", "HFC-new"):
        prev = env.ite(s.off > 0, s.before[t][y - 1] if env.symbolic or s.off > 0 else 0, h.conc_in[t][y])
        q = 1 / G[t]["TAU1"]
        nat = G[t]["NAT_EM"]
        if t == "CH4":
            nat = h.nat_emis_ch4["CH4"][y]
            if s.mode == "TAR":
                oh = L("-0.32") * (env.log(prev) - env.log(L("1751"))) + L("0.0042") * (em["NOx"][y] - em["NOx"][2000]) \
                    - L("0.000105") * (em["CO"][y] - em["CO"][2000]) - L("0.000315") * (em["NMVOC"][y] - em["NMVOC"][2000])
                q = q * (1 + oh)
            elif s.mode == "CONSTANT_12":
                q = 1 / L("12")
            else:
                q = q * (prev / L("1700")) ** L("-0.238")
            q = q + 1 / G[t]["TAU2"] + 1 / G[t]["TAU3"]
            env.assume(q != 0)
        if t == "N2O":
            nat = h.nat_emis_n2o["N2O"][y]
        eqc = (em[t][y] + nat) / G[t]["BETA"] / q
        d = env.exp(-q)
        env.eq(t, h.conc[t][y], eqc * (1 - d) + prev * d)
    env.eq("CO2", h.conc["CO2"][y], h.carbon_cycle.v)
    env.check("carbon cycle asked once", len(h.carbon_cycle.calls) == 1)
    cy, ce, cf = h.carbon_cycle.calls[0]
    env.eq("carbon cycle year", cy, y)
    env.eq("carbon emissions", ce, em["CO2_FF"][y] + em["CO2_AFOLU"][y] + G["CO2"]["NAT_EM"])
    env.check("feedbacks handed on", cf is s.fb)
    frame(env, s)


def frame(env, s):
    y2 = s.y0 + env.int("other", 0, None, 0, 7)
    env.assume(y2 != s.yr)
    env.assume(y2 <= s.y1)
    for t in GASES:
        env.eq(t + " of other years", s.h.conc[t][y2], s.before[t][y2])


@contract(REG, functions=[H.CLS + ".emi2conc", H.CLS + ".fill_one_row_conc"], samples=80)
def prescribed_year(env):
    """Before the emission start year, and in every year of a concentration-driven run, the prescribed concentrations are
    reproduced exactly (CO2 before the start year still comes from the carbon cycle); no other year changes."""
    s = state(env)
    h, y = s.h, s.yr
    conc_run = env.choice("conc_run", [True, False])
    h.pamset["conc_run"] = conc_run
    if not conc_run:
        env.assume(y < s.em0)
    env.cover()
    h.emi2conc(y, s.fb)
    for t in ("CH4", "N2O", "HFC-new"):
        env.eq(t, h.conc[t][y], h.conc_in[t][y])
    if conc_run:
        env.eq("CO2", h.conc["CO2"][y], h.conc_in["CO2"][y])
        env.check("carbon cycle not used", not h.carbon_cycle.calls)
    else:
        env.eq("CO2", h.conc["CO2"][y], h.carbon_cycle.v)
        cy, ce, cf = h.carbon_cycle.calls[0]
        env.eq("carbon cycle year", cy, y)
        env.eq("carbon emissions", ce, h.emis["CO2_FF"][y] + h.emis["CO2_AFOLU"][y] + s.gas["CO2"]["NAT_EM"])
        env.check("feedbacks handed on", cf is s.fb)
    frame(env, s)


@contract(REG, functions=[H.CLS + "._precalculate_concentrations_vanilla_gases"], samples=60)
def precalculated_gases(env):
    """Gases with constant lifetime, all years at once: prescribed before the start year, then the one-year solution from the
    year before, for any emissions, concentrations, lifetimes (windows of 1 to 5 years, data starting earlier or later)."""
    m = env.mod(H.HM)
    import pandas
    n = env.choice("nyears", [1, 2, 5])
    em0 = env.choice("emstart", [-1, 0, 1, 2, 4, 5, 7])
    conc_run = env.choice("conc_run", [False, True])
    ce, cc = env.choice("emis from", [0, 2]), env.choice("conc from", [0, 3])
    y0 = 1990
    years = list(range(y0, y0 + n))
    h = m.ConcentrationsEmissionsHandler.__new__(m.ConcentrationsEmissionsHandler)
    G = {g: {"TAU1": env.pos("tau." + g, 1, 100), "BETA": env.pos("beta." + g, 1, 20), "NAT_EM": env.anyreal("nat." + g, 0, 5), "CONC_UNIT": "ppt",
             "ALPHA": 0.1, "SARF_TO_ERF": 1} for g in ("A1", "B2")}
    h.pamset = {"nystart": y0, "nyend": y0 + n - 1, "emstart": y0 + em0, "conc_run": conc_run}
    h.years = m.np.arange(y0, y0 + n)
    dt = object if env.symbolic else float

    def table(nm, first, lo, hi):
        ys = list(range(first, y0 + n + 1))
        return pandas.DataFrame({g: pandas.Series([env.anyreal(f"{nm}.{g}.{y}", lo, hi) for y in ys], index=ys, dtype=dt) for g in ("X9", "A1", "B2")})
    h.conc_in, h.emis = table("c", y0 - cc, 1, 300), table("e", y0 - ce, 0, 50)
    env.cover()
    out = h._precalculate_concentrations_vanilla_gases(env.gastable(G))
    env.check("one row per year", list(out.index) == years)
    for g in G:
        q = 1 / G[g]["TAU1"]
        d = env.exp(-q)
        for y in years:
            if conc_run or y < y0 + em0:
                env.eq("prescribed", out[g][y], h.conc_in[g][y])
            else:
                prev = out[g][y - 1] if y > y0 else h.conc_in[g][y]
                env.eq("one-year solution", out[g][y], (h.emis[g][y] + G[g]["NAT_EM"]) / G[g]["BETA"] / q * (1 - d) + prev * d)


@contract(REG, functions=["ciceroscm.CICEROSCM._run", H.CLS + ".emi2conc", H.CLS + ".add_results_to_dict"], samples=40, thorough=600, symbolic=False, public=True)
def concentrations_of_whole_runs(env):
    """Whole runs: every reported non-CO2 concentration is the documented one-year solution chain from the raw inputs. (bounded)"""
    from . import _scen as S
    s = S.scen(env, pert_em=env.choice("pe", [True, False]))
    r = S.run(env, s)
    C = S.concentrations(s)
    for g in C:
        env.eq(g, S.series(r["concentrations"], g, s.years), S.ser(C[g], s.years), rtol=1e-7, atol=1e-9)
    if s.conc_run:
        env.eq("CO2 prescribed", S.series(r["concentrations"], "CO2", s.years), S.series(s.conc, "CO2", s.years), rtol=0, atol=0)
