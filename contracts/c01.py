"""C01 total forcing is the sum of the reported component forcings"""
from pyvc.contract import contract
from . import _handler as H

LEVEL = "proof"
REG = []


@contract(REG, functions=[H.CLS + ".conc2forc", H.CLS + ".calculate_forc_three_main", H.CLS + ".tropospheric_ozone_forcing",
                          H.CLS + ".calc_aerosol_forcing", "perturbations.calculate_hemispheric_forcing"], samples=60)
def total_is_sum(env):
    """For every year, state, parameter vector and every agent the code distinguishes: the returned and stored total is the
    sum of the stored component forcings plus the pre-computed gases' sum of that year."""
    s = H.build(env)
    luc, sun = env.anyreal("luc", -1, 1), env.anyreal("sun", -1, 1)
    env.cover()
    tot = s.h.conc2forc(s.yr, luc, sun)[0]
    f = s.h.forc
    parts = sum(env.elem(f[t], s.idx) for t in f if t != "Total_forcing") + s.h.precalc_dict["precalc_erf"]["TOT_vanilla"][s.yr]
    env.eq("total is the sum of the components", tot, parts)
    env.eq("stored total is the returned total", env.elem(f["Total_forcing"], s.idx), tot)


@contract(REG, functions=[H.CLS + ".conc2forc", "perturbations.ForcingPerturbation.add_forcing_pert",
                          "perturbations.ForcingPerturbation.check_if_year_in_pert"], samples=80)
def total_with_perturbations(env):
    """With any three forcing perturbations (any years and amounts, repeated components, one not in the run) the total is
    still the sum of the stored components."""
    s = H.build(env, tracers=H.MAIN + ["SO2", "LANDUSE", "TROP_O3"], pert=["SO2", "SO2", "LANDUSE", "unknown"])
    luc = env.anyreal("luc", -1, 1)
    env.cover()
    tot = s.h.conc2forc(s.yr, luc, 0)[0]
    f = s.h.forc
    parts = sum(env.elem(f[t], s.idx) for t in f if t != "Total_forcing") + s.h.precalc_dict["precalc_erf"]["TOT_vanilla"][s.yr]
    env.eq("total is the sum of the components", tot, parts)
    env.eq("stored total", env.elem(f["Total_forcing"], s.idx), tot)


@contract(REG, functions=[H.CLS + ".conc2forc"], samples=60)
def only_one_component(env):
    """Restricted to one component, the total is that component's stored forcing."""
    one = env.choice("one", ["CO2", "CH4", "SO2", "TROP_O3", "LANDUSE", "HFC-new"])
    s = H.build(env, tracers=H.MAIN + ["SO2", "LANDUSE", "TROP_O3", "HFC-new"])
    s.h.pamset["just_one"] = one
    env.cover()
    tot = s.h.conc2forc(s.yr, env.anyreal("luc", -1, 1), env.anyreal("sun", -1, 1))[0]
    env.eq("total is the component", tot, env.elem(s.h.forc[one], s.idx))
    env.eq("stored total", env.elem(s.h.forc["Total_forcing"], s.idx), tot)


@contract(REG, functions=[H.CLS + "._precalculate_vanilla_gases", H.CLS + "._precalculate_erf_vanilla_gases", H.CLS + "._add_precalculated_strat_o3",
                          "perturbations.ForcingPerturbation.add_forcing_pert_for_vanilla"], samples=60)
def precalculated_gases_are_summed_once(env):
    """Any prescribed concentrations, parameters and forcing perturbations of any size, windows of 1 to 5 years: in every year the sum
    kept for the pre-computed gases is that of their stored forcings, perturbations included, and every other component is left to
    the yearly loop, each exactly once."""
    import numpy as np
    import pandas as pd
    m = env.mod(H.HM)
    n = env.choice("nyears", [1, 4, 5])
    y0 = 1990
    years = list(range(y0, y0 + n))
    halo = ["CFC-11", "H-1301", "HFC125"]
    names = ["CO2", "CH4", "HFC125", "N2O", "SO2", "STRAT_O3", "CFC-11", "TROP_O3", "H-1301", "LANDUSE"]
    gas = {g: {"CONC_UNIT": "ppt" if g in halo + ["CO2", "CH4", "N2O"] else "-", "ALPHA": env.anyreal("alpha." + g, -1, 1), "SARF_TO_ERF": env.anyreal("erf." + g, 0.5, 1.5),
               "TAU1": env.pos("tau." + g, 1, 100), "BETA": env.pos("beta." + g, 1, 10), "NAT_EM": 0} for g in names}
    h = m.ConcentrationsEmissionsHandler.__new__(m.ConcentrationsEmissionsHandler)
    h.years = np.arange(y0, y0 + n)
    h.df_gas = env.gastable(gas)
    cl, br = env.mod("pub_utils").make_cl_and_br_dictionaries(names)
    h.pamset = {"cl_dict": cl, "br_dict": br, "conc_run": True, "nystart": y0, "nyend": y0 + n - 1, "emstart": y0}
    dt = object if env.symbolic else float
    h.conc_in = pd.DataFrame({g: pd.Series([env.anyreal(f"c.{g}.{y}", 0, 500) for y in years], index=years, dtype=dt) for g in halo + ["CO2", "CH4", "N2O"]})
    h.emis = None
    pert = None
    if env.choice("pert", [True, False]):
        pert = [(g, y0 + k, env.anyreal(f"p{i}", -5, 5)) for i, (g, k) in enumerate([("CFC-11", 0), ("SO2", 0), ("STRAT_O3", n - 1), ("CFC-11", 0), ("unknown", 0)])]
        rows = [{"component": g, "year": y, "forcing": v} for g, y, v in pert]
        h.pamset["forc_pert"] = env.mod("perturbations").ForcingPerturbation(H.Inp({"perturb_forc": env.rowtable(rows, ["component", "year", "forcing"])}), y0)
    h.precalc_dict = {}
    env.cover()
    h._precalculate_vanilla_gases()
    E = h.precalc_dict["precalc_erf"]
    cols = [c for c in E.columns if c != "TOT_vanilla"]
    env.check("pre-computed once", sorted(cols) == sorted(halo + ["STRAT_O3"]))
    env.check("every component is computed once", sorted(list(h.precalc_dict["gases_list_spicy"]) + cols) == sorted(names))
    for y in years:
        env.eq("sum of the pre-computed forcings", E["TOT_vanilla"][y], sum(E[c][y] for c in cols))


@contract(REG, functions=["ciceroscm.CICEROSCM._run", H.CLS + ".add_results_to_dict", H.CLS + "._precalculate_vanilla_gases"],
          samples=40, thorough=600, symbolic=False, public=True)
def reported_total_of_whole_runs(env):
    """Whole runs through the public interface (random gases, parameters, perturbations, both carbon and thermal models): the
    reported total equals the sum of the reported components in every year, or the one component asked for. (bounded)"""
    from . import _scen as S
    s = S.scen(env, pert_forc=env.choice("pf", [True, False]), pert_em=env.choice("pe", [True, False]))
    if env.choice("one", [True, False, False]):
        s.just_one = s.R.choice([g for g in s.gases])
    r = S.run(env, s)
    f = r["forcing"]
    cols = [c for c in f.columns if c not in ("Year", "Total_forcing")]
    env.check("every component is reported once", sorted(cols) == sorted(S.fcol(g) for g in s.gases))
    tot = S.series(f, "Total_forcing", s.years)
    env.eq("total is the sum", tot, S.series(f, S.fcol(s.just_one), s.years) if s.just_one else sum(S.series(f, c, s.years) for c in cols))
    env.eq("total in the results", r["Total_forcing"], tot)
    if s.pert_forc is not None and not s.just_one:
        co2 = {y: float(r["concentrations"].loc[y, "CO2"]) for y in s.years}
        F = S.forcings(s, co2)
        env.eq("total is the documented sum with the perturbations", tot, sum(S.ser(F[g], s.years) for g in s.gases), rtol=1e-7, atol=1e-8)
