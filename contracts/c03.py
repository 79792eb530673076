"""C03 concentrations and emissions map to forcing by the documented relations"""
from pyvc.contract import contract
from . import _handler as H

LEVEL = "proof"
REG = []


@contract(REG, functions=[H.CLS + ".conc2forc", H.CLS + ".calculate_forc_three_main", H.CLS + ".tropospheric_ozone_forcing",
                          H.CLS + ".calc_aerosol_forcing"], samples=60)
def component_forcings(env):
    """For every year, state and parameter vector each stored component forcing is the documented function of its drivers."""
    s = H.build(env)
    luc, sun = env.anyreal("luc", -1, 1), env.anyreal("sun", -1, 1)
    env.cover()
    s.h.conc2forc(s.yr, luc, sun)
    f = {t: env.elem(s.h.forc[t], s.idx) for t in s.tracers}
    for t in H.MAIN:
        env.eq(t, f[t], H.main_spec(env, s, t))
    for t in H.AERO + H.REG:
        env.eq(t, f[t], H.aero_spec(env, s, t))
    G, C = s.gas, s.h.conc
    env.eq("HFC-new", f["HFC-new"], G["HFC-new"]["ALPHA"] * G["HFC-new"]["SARF_TO_ERF"] * (C["HFC-new"][s.yr] - C["HFC-new"][s.y0]))
    env.eq("LANDUSE", f["LANDUSE"], luc)
    env.eq("OTHER", f["OTHER"], 0)
    env.eq("CO", f["CO"], 0)
    env.eq("STRAT_H2O", f["STRAT_H2O"], s.p["qh2o_ch4"] * H.main_spec(env, s, "CH4") * G["STRAT_H2O"]["SARF_TO_ERF"])
    env.eq("ozone concentration", C["TROP_O3"][s.yr], H.o3_conc(env, s, s.yr))
    v0, v = C["TROP_O3"][s.y0], C["TROP_O3"][s.yr]
    env.eq("TROP_O3 (times its denominator)", f["TROP_O3"] * (30 - v0), env.ite(v0 == 30, 0, (v - v0) * s.p["qo3"] * G["TROP_O3"]["SARF_TO_ERF"]))


@contract(REG, functions=[H.CLS + ".conc2forc", H.CLS + ".calculate_forc_three_main"], samples=60)
def no_change_no_forcing(env):
    """An agent whose driver is at its first-year value has zero forcing, whatever the other agents do."""
    s = H.build(env)
    y, y0, C, em = s.yr, s.y0, s.h.conc, s.h.emis
    which = env.choice("agent", ["CO2", "CH4", "N2O", "SO2", "BC", "NOx", "SO2_ASIA", "HFC-new", "BMB_AEROS"])
    src = {"BMB_AEROS": "BMB_AEROS_OC"}.get(which, which)
    if env.symbolic:
        T = C if which in ("CO2", "CH4", "N2O", "HFC-new") else em
        env.assume(T[src][y] == T[src][y0])
    elif which in ("CO2", "CH4", "N2O", "HFC-new"):
        C[src][y] = C[src][y0]
    else:
        em.loc[y, src] = em.loc[y0, src]
    env.cover()
    s.h.conc2forc(y, env.anyreal("luc", -1, 1), 0)
    env.eq("zero", env.elem(s.h.forc[which], s.idx), 0)
    if which == "SO2":
        env.eq("indirect zero", env.elem(s.h.forc["SO4_IND"], s.idx), 0)
    if which == "CH4":
        env.eq("stratospheric water zero", env.elem(s.h.forc["STRAT_H2O"], s.idx), 0)


@contract(REG, functions=[H.CLS + ".conc2forc", H.CLS + ".tropospheric_ozone_forcing"], samples=60)
def first_year_is_zero(env):
    """In the first model year every forcing but land use is zero."""
    s = H.build(env)
    env.assume(s.off == 0) if env.symbolic else None
    s.yr, s.idx = s.y0, 0
    env.cover()
    s.h.conc2forc(s.y0, env.anyreal("luc", -1, 1), 0)
    for t in s.tracers:
        if t != "LANDUSE":
            env.eq(t, env.elem(s.h.forc[t], 0), 0)


HALO = {"CFC-11": (3, 0), "H-1211": (1, 1), "H-1301": (0, 1), "HFC125": (0, 0), "CH3Br": (0, 1), "CCl4": (4, 0)}


@contract(REG, functions=[H.CLS + "._precalculate_erf_vanilla_gases", H.CLS + "._add_precalculated_strat_o3", H.CLS + ".calculate_strat_quantities",
                          "pub_utils.make_cl_and_br_dictionaries", "pub_utils.find_num_cl_in_hcfc"], samples=40)
def halocarbons_and_stratospheric_ozone(env):
    """For every concentration history (windows of 1 to 6 years), alpha and adjustment: halocarbon forcing is alpha times
    adjustment times the change since the first year; stratospheric ozone follows the chlorine/bromine loading three
    years before."""
    m = env.mod(H.HM)
    n = env.choice("nyears", [1, 3, 4, 6])
    names = list(HALO) + ["STRAT_O3"]
    gas = {g: {"CONC_UNIT": "ppt" if g in HALO else "-", "ALPHA": env.anyreal("alpha." + g, 0, 1), "SARF_TO_ERF": env.anyreal("erf." + g, 0.5, 1.5)} for g in names}
    h = m.ConcentrationsEmissionsHandler.__new__(m.ConcentrationsEmissionsHandler)
    y0 = 1990
    years = list(range(y0, y0 + n))
    h.years = __import__("numpy").arange(y0, y0 + n)
    h.df_gas = env.gastable(gas)
    cl, br = env.mod("pub_utils").make_cl_and_br_dictionaries(names)
    h.pamset = {"cl_dict": cl, "br_dict": br}
    C = {g: [env.anyreal(f"c.{g}.{y}", 0, 500) for y in years] for g in HALO}
    import pandas
    dt = object if env.symbolic else float
    pc = pandas.DataFrame({g: pandas.Series(C[g], index=years, dtype=dt) for g in HALO})
    h.precalc_dict = {"df_gas_vanilla": env.gastable({g: gas[g] for g in HALO}), "precalc_conc": pc}
    env.cover()
    h.precalc_dict["precalc_erf"] = h._precalculate_erf_vanilla_gases()
    h._add_precalculated_strat_o3()
    E = h.precalc_dict["precalc_erf"]
    L = env.lit
    for k, y in enumerate(years):
        for g in HALO:
            env.eq(f"{g} linear", E[g][y], gas[g]["ALPHA"] * gas[g]["SARF_TO_ERF"] * (C[g][k] - C[g][0]))
        got = E["STRAT_O3"][y]
        if k < 3:
            env.eq("no stratospheric ozone forcing in the first three years", got, 0)
            continue
        scl = sbr = 0
        for g, (ncl, nbr) in HALO.items():
            d = C[g][k - 3] - C[g][0]
            if ncl:
                sg = env.ite(d > 0, 1, env.ite(d < 0, -1, 0))
                scl = scl + sg * (ncl * H.absval(env, d)) ** L("1.7")
            sbr = sbr + nbr * d
        env.eq("stratospheric ozone", got, -(L("0.05") / L("0.17377") * (L("0.000552") * scl + L("3.048") * sbr)) / 1000 * gas["STRAT_O3"]["SARF_TO_ERF"])


@contract(REG, functions=["ciceroscm.CICEROSCM._run", H.CLS + ".conc2forc"], samples=40, thorough=600, symbolic=False, public=True)
def documented_forcing_of_whole_runs(env):
    """Whole runs through the public interface: each reported component forcing equals the documented relation evaluated from
    the raw inputs and the reported concentrations. (bounded)"""
    from . import _scen as S
    s = S.scen(env)
    r = S.run(env, s)
    c = r["concentrations"]
    C = {g: {y: float(c.loc[y, g]) for y in s.years} for g in s.conc.columns}
    F = S.forcings(s, C["CO2"], C)
    for g in s.gases:
        env.eq(g, S.series(r["forcing"], S.fcol(g), s.years), S.ser(F[g], s.years), rtol=1e-7, atol=1e-9)
        if g != "LANDUSE":
            env.eq(g + " starts at zero", float(r["forcing"].loc[s.y0, S.fcol(g)]), 0)


@contract(REG, functions=["pub_utils.make_regional_aerosol_gaspamdata", H.CLS + ".calc_aerosol_forcing"], samples=12, thorough=200, symbolic=False, public=True)
def regional_aerosol_efficacies(env):
    """Gas tables made from regional forcing data: each regional component has its region's value times the unit conversion and the
    rest of its row from the component, the other rows are as before, and the forcing of a handler using that table is that efficacy times the
    emission change. (bounded)"""
    import random
    import pandas as pd
    from . import _scen as S
    s = S.scen(env, regional=False, pert_em=False, pert_forc=False)
    R = s.R
    u = R.uniform
    P = env.mod("pub_utils")
    own = None if R.random() < 0.4 else {f"X{i}": R.choice(["EAS", "SAM", "NAF", "NAM", "RBU", "EUR"]) for i in range(R.randint(1, 4))}
    mapping = own or {"ASIA": "EAS", "LAM": "SAM", "MAF": "NAF", "OECD": "NAM", "REF": "RBU"}
    cols = R.sample([g for g in ("SO2", "BC", "OC", "NH3", "BMB_AEROS_OC") if g in s.gaspam.index], R.randint(1, 3))
    cols = [c for c in cols if c in ("SO2", "BC", "OC")] or ["BC"]
    regions = ["EUR", "RBU", "NAM", "NAF", "SAM", "EAS", "AUS"]
    R.shuffle(regions)
    data = pd.DataFrame({c: [u(-3, 3) * 1e-12 for _ in regions] for c in cols}, index=regions)
    conv = R.choice([None, 1e9, u(1e8, 1e10)])
    before, data0 = s.gaspam.copy(), data.copy()
    kw = {}
    if own:
        kw["reg_mapping"] = dict(own)
    if conv:
        kw["unit_conversion"] = conv
    new = P.make_regional_aerosol_gaspamdata(s.gaspam, data, **kw)
    env.check("the tables given are unchanged", s.gaspam.equals(before) and data.equals(data0))
    env.check("the components", sorted(new.index) == sorted(list(before.index) + [f"{c}_{k}" for c in cols for k in mapping]))
    for c in new.index:
        base = c if c in before.index else c.rsplit("_", 1)[0]
        for q in before.columns:
            if c not in before.index and q == "ALPHA":
                env.eq(f"efficacy of {c}", new.at[c, q], data.at[mapping[c.rsplit("_", 1)[1]], base] * (conv or 1e9))
            else:
                env.eq(f"{q} of {c}", new.at[c, q], before.at[base, q])
    reg = [f"{c}_{k}" for c in cols for k in mapping]
    for r in reg:
        s.emis[r] = [u(1, 60) for _ in range(len(s.emis))]
    s.gaspam = new
    m = S.model(env, s)
    m._run(dict(S.FIXED), pamset_udm=dict(s.udm), pamset_emiconc=dict(s.emiconc))
    for r in reg:
        base, k = r.rsplit("_", 1)
        a = data.at[mapping[k], base] * (conv or 1e9)
        env.eq("forcing of " + r, S.series(m.results["forcing"], r, s.years), S.ser({y: a * float(s.emis.loc[y, r] - s.emis.loc[s.y0, r]) for y in s.years}, s.years), rtol=1e-7, atol=1e-9)
