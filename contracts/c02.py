"""C02 hemispheric forcings average to the global forcing"""
from pyvc.contract import contract
from . import _handler as H

LEVEL = "proof"
REG = []
SPLIT = {"SO2": "1.47", "SO4_IND": "1.47", "BC": "1.47", "OC": "1.47", "BMB_AEROS": "1.47", "BMB_AEROS_OC": "1.47", "BMB_AEROS_BC": "1.47",
         "TROP_O3": "1.45", "LANDUSE": "1.42"}


@contract(REG, functions=["perturbations.calculate_hemispheric_forcing"], samples=200, public=True)
def split_of_any_agent(env):
    """For every agent name (any string), forcing and accumulated state: the mean of the hemispheres grows by exactly the
    forcing and the northern increment is the documented multiple of it."""
    m = env.mod("perturbations")
    t = env.string("agent", list(SPLIT) + ["CO2", "three_main", "SO2_ASIA", "NOx", "NH3", "NMVOC", "HFC-134a", "STRAT_O3", "", "so2", "BC_", "LANDUSE2"])
    q, a, b = env.anyreal("q"), env.anyreal("nh"), env.anyreal("sh")
    env.cover()
    nh, sh = m.calculate_hemispheric_forcing(t, q, a, b)
    env.eq("mean is conserved", (nh + sh) / 2, (a + b) / 2 + q)
    fac = env.lit("1")
    for k, v in SPLIT.items():
        fac = env.ite(t == k, env.lit(v), fac)
    env.eq("northern share", nh - a, fac * q)


@contract(REG, functions=[H.CLS + ".conc2forc", H.CLS + ".calculate_forc_three_main", "perturbations.calculate_hemispheric_forcing"], samples=60)
def yearly_hemispheric_forcing(env):
    """For every year, state and agent: what is handed to the thermal model is, per hemisphere, the split component
    forcings plus the pre-computed gases and the sun; their mean is the total plus the sun."""
    s = H.build(env, tracers=H.MAIN + H.AERO + ["SO2_ASIA"] + ["LANDUSE", "OTHER", "TROP_O3", "STRAT_H2O", "HFC-new"])
    luc, sun = env.anyreal("luc", -1, 1), env.anyreal("sun", -1, 1)
    env.cover()
    tot, nh, sh = s.h.conc2forc(s.yr, luc, sun)[:3]
    env.eq("mean of the hemispheres", (nh + sh) / 2, tot + sun)
    pre = s.h.precalc_dict["precalc_erf"]["TOT_vanilla"][s.yr]
    n = sum(env.lit(H.split(t)) * env.elem(s.h.forc[t], s.idx) for t in s.tracers) + pre + sun
    env.eq("northern hemisphere", nh, n)


@contract(REG, functions=[H.CLS + ".conc2forc", "perturbations.ForcingPerturbation.add_forcing_pert"], samples=80)
def hemispheres_with_perturbation_or_one_agent(env):
    """The mean of the hemispheres is the total plus the sun also with forcing perturbations and when the run is
    restricted to one agent; then the split is that agent's own."""
    one = env.choice("one", [None, "CO2", "SO2", "TROP_O3", "LANDUSE", "BC"])
    s = H.build(env, tracers=H.MAIN + ["SO2", "BC", "TROP_O3", "LANDUSE"], pert=["SO2", "TROP_O3", "not in the run"])
    if one:
        s.h.pamset["just_one"] = one
    luc, sun = env.anyreal("luc", -1, 1), env.anyreal("sun", -1, 1)
    env.cover()
    tot, nh, sh = s.h.conc2forc(s.yr, luc, sun)[:3]
    env.eq("mean of the hemispheres", (nh + sh) / 2, tot + sun)
    if one:
        env.eq("northern share of the one agent", nh - sun, env.lit(H.split(one)) * tot)
    else:
        pre = s.h.precalc_dict["precalc_erf"]["TOT_vanilla"][s.yr]
        env.eq("northern hemisphere", nh, sum(env.lit(H.split(t)) * env.elem(s.h.forc[t], s.idx) for t in s.tracers) + pre + sun)


@contract(REG, functions=[H.CLS + ".conc2forc", H.CLS + ".emi2conc", "ciceroscm.CICEROSCM._run"], samples=40, thorough=600, symbolic=False, public=True)
def hemispheres_of_whole_runs(env):
    """Whole runs: what reaches the thermal model is per hemisphere the documented split of the component forcings plus sun,
    averaging to total plus sun. (bounded)"""
    from . import _scen as S
    s = S.scen(env, pert_forc=env.choice("pf", [True, False]))
    if env.choice("one", [True, False, False]):
        s.just_one = s.R.choice([g for g in s.gases])
    h = S.handler(env, s)
    T, N, Q = [], [], []
    for y in s.years:
        h.emi2conc(y)
        t, n, q = h.conc2forc(y, S.luc(s, y), S.sun(s, y))[:3]
        T.append(t), N.append(n), Q.append(q)
    import numpy as np
    T, N, Q = (np.array(x, dtype=float) for x in (T, N, Q))
    sun = np.array([S.sun(s, y) for y in s.years])
    env.eq("mean is the total plus the sun", (N + Q) / 2, T + sun)
    f = h.add_results_to_dict({})["forcing"]
    g1 = [s.just_one] if s.just_one else s.gases
    env.eq("northern hemisphere", N, sum(S.SPLIT.get(g, 1.0) * S.series(f, S.fcol(g), s.years) for g in g1) + sun)
    env.eq("total", T, sum(S.series(f, S.fcol(g), s.years) for g in g1))


@contract(REG, functions=["ciceroscm.CICEROSCM._run"], samples=25, thorough=300, symbolic=False, public=True)
def thermal_model_gets_the_hemispheric_forcing(env):
    """Through the public run: with the two-layer model (which sees only the mean of the hemispheres) the imbalance and
    temperature respond to total plus sun plus the mean volcanic forcing. (bounded)"""
    from . import _scen as S
    import numpy as np
    s = S.scen(env, thermal="twolayer", conc_run=True)
    r = S.run(env, s)
    m = env.mod("thermal_model.two_layer_ocean").TwoLayerOceanModel(dict(s.udm))
    for i, y in enumerate(s.years):
        f = r["Total_forcing"][i] + S.sun(s, y)
        v = [np.array(x.loc[y]) if s.sunvolc else np.zeros(12) for x in (s.volc_n, s.volc_s)]
        o = m.energy_budget(f, f, v[0], v[1])
        env.eq("temperature", r["dT_glob"][i], o["dtemp"])
        env.eq("imbalance", r["RIB_glob"][i], o["RIB"])
