"""C05 carbon is conserved by the box carbon cycle"""
from pyvc.contract import contract

LEVEL = "proof"
REG = []
BOX = "carbon_cycle.carbon_cycle_mod_box"
POOLS = ["vegetation_carbon", "soil_carbon", "ocean_mixed_layer_carbon", "ocean_deep_carbon"]
PG = "2.123"


def mk(env, sym_pars=True):
    m = env.mod(BOX)
    pc = {
        "beta_f": env.real("beta_f", 0, 2),
        "land_temp_sensitivity": env.real("lts", -1, 5),
        "soil_respiration_rate": env.real("srr", 0, 1),
        "ocean_mixed_layer_depth": env.real("omld", 1, 500),
        "ocean_exchange_rate": env.real("oer", 0, 1),
        "vegetation_to_soil_fraction": env.real("v2s", 0, 1),
        "ocean_solubility_base": env.real("osb", 0, 1),
        "ocean_solubility_temp_coeff": env.real("ostc", -1, 1),
    }
    model = m.CarbonCycleModel({"idtm": 24, "nystart": 1750, "nyend": 2100}, pamset_carbon=pc)
    return model, pc


def total(env, model):
    t = env.lit(PG) * env.get(model, "atmospheric_co2")
    for p in POOLS:
        t = t + env.get(model, p)
    return t


@contract(REG, functions=["carbon_cycle_mod_box.CarbonCycleModel.co2em2conc", "CarbonCycleModel.calculate_npp",
                          "CarbonCycleModel.calculate_ocean_uptake"], samples=60)
def one_step_conserves_carbon(env):
    """For every state of the pools, parameter set, temperature and emission: atmosphere + vegetation + soil + mixed
    layer + deep ocean change by exactly the emitted carbon, the pools change by the stated fluxes, and the returned
    concentration is the new atmospheric one."""
    model, pc = mk(env)
    atm = env.pos("atm", 100, 3000)
    env.set(model, "atmospheric_co2", atm)
    st = {}
    for p in POOLS:
        st[p] = env.real(p, sample=(-500, 3000))
        env.set(model, p, st[p])
    em = env.anyreal("em", -20, 60)
    dt = env.anyreal("dtemp", -10, 20)
    env.cover()
    before = total(env, model)
    fb = env.choice("fb", [0, 1, 2])
    if fb == 0:
        r = model.co2em2conc(1800, em, feedback_dict={"dtemp": dt})
        t = dt
    elif fb == 1:
        r = model.co2em2conc(1800, em)
        t = 0
    else:
        r = model.co2em2conc(1800, em, feedback_dict={})
        t = 0
    env.eq("total carbon changes by the emissions", total(env, model), before + em, rtol=1e-11)
    env.eq("returned concentration is the atmospheric pool", r, env.get(model, "atmospheric_co2"))
    npp = env.max(0, 60 + pc["beta_f"] * env.log(atm / 278) - pc["land_temp_sensitivity"] * t)
    env.eq("vegetation", env.get(model, POOLS[0]) - st[POOLS[0]], npp - pc["vegetation_to_soil_fraction"] * st[POOLS[0]], atol=1e-7)
    env.eq("soil", env.get(model, POOLS[1]) - st[POOLS[1]],
           pc["vegetation_to_soil_fraction"] * st[POOLS[0]] - pc["soil_respiration_rate"] * st[POOLS[1]], atol=1e-7)
    ocean = env.get(model, POOLS[2]) + env.get(model, POOLS[3]) - st[POOLS[2]] - st[POOLS[3]]
    env.eq("ocean takes up what the air-sea flux gives", ocean,
           pc["ocean_solubility_base"] * (1 + pc["ocean_solubility_temp_coeff"] * t) * (atm - 278), atol=1e-7)


@contract(REG, functions=["carbon_cycle_mod_box.CarbonCycleModel.reset_co2_hold", "CarbonCycleModel.__init__"], samples=30)
def reset_restores_preindustrial_pools(env):
    """After construction and after a reset the pools are the documented pre-industrial ones, whatever happened before."""
    model, pc = mk(env)
    env.cover()
    want = {"atmospheric_co2": 278, "vegetation_carbon": 600, "soil_carbon": 3000, "ocean_mixed_layer_carbon": 0,
            "ocean_deep_carbon": 0}
    for k, v in want.items():
        env.eq("initial " + k, env.get(model, k), v)
    for k in want:
        env.set(model, k, env.pos("x_" + k))
    model.reset_co2_hold()
    for k, v in want.items():
        env.eq("reset " + k, env.get(model, k), v)
    for k in pc:
        env.eq("parameter kept " + k, model.pamset[k], pc[k])


@contract(REG, functions=["carbon_cycle_mod_box.CarbonCycleModel.get_carbon_cycle_output", "CarbonCycleModel.calculate_npp", "CarbonCycleModel.calculate_ocean_uptake"], samples=60, public=True)
def reported_fluxes(env):
    """For any concentrations, temperatures and number of years: the reported primary production and ocean flux of each year are the flux
    laws of the yearly update at that year's concentration and temperature (none given: no warming)."""
    model, pc = mk(env)
    n = env.int("n", 1, None, 1, 40)
    conc = env.arr("conc", n, positive=True, slo=150, shi=2500)
    dT = env.arr("dT", n, slo=-8, shi=15)
    how = env.choice("feedback", [0, 1, 2])
    y0 = env.int("y0", 1, None, 1700, 2000)
    env.cover()
    fb = {0: {"dtemp": dT}, 1: None, 2: {}}[how]
    env.set(model, "atmospheric_co2", env.pos("atm", 100, 3000))
    r = model.get_carbon_cycle_output(env.mod(BOX).np.arange(y0, y0 + n), conc_series=conc, feedback_dict_series=fb)

    def one(i):
        t = env.elem(dT, i) if how == 0 else 0
        c = env.elem(conc, i)
        env.eq("ocean flux", r["Ocean carbon flux"][y0 + i], pc["ocean_solubility_base"] * (1 + pc["ocean_solubility_temp_coeff"] * t) * (c - 278), atol=1e-7)
        env.eq("primary production", r["Net primary production"][y0 + i], env.max(0, 60 + pc["beta_f"] * env.log(c / 278) - pc["land_temp_sensitivity"] * t), atol=1e-7)
    env.forall(0, n, one)


@contract(REG, functions=["ciceroscm.CICEROSCM._run", "carbon_cycle_mod_box.CarbonCycleModel.co2em2conc"], samples=10, thorough=150, symbolic=False, public=True)
def box_books_of_whole_runs(env):
    """Emission-driven runs with the box carbon cycle: the reported CO2 concentrations are those of the box model with the run's CO2
    emissions and last year's temperature, the reported fluxes and airborne fraction by their definitions, and the carbon in all pools grows
    by the emissions. (bounded)"""
    import math
    import numpy as np
    from . import _scen as S
    s = S.scen(env, conc_run=False, carbon="box", pert_em=env.choice("pe", [True, False]))
    u = s.R.uniform
    lim = {"beta_f": (0.1, 1), "land_temp_sensitivity": (0, 1), "soil_respiration_rate": (0.01, 0.03), "ocean_exchange_rate": (0.005, 0.05), "vegetation_to_soil_fraction": (0.05, 0.2),
           "ocean_solubility_base": (0.01, 0.05), "ocean_solubility_temp_coeff": (-0.05, 0.0)}
    s.carb = {k: u(*v) for k, v in lim.items() if s.R.random() < 0.6}
    r = S.run(env, s)
    cc, em, ys = r["carbon cycle"], S.emissions(s), s.years
    model = env.mod(BOX).CarbonCycleModel({"idtm": 24, "nystart": s.y0, "nyend": s.y1}, pamset_carbon=dict(s.carb))
    p = dict(model.pamset, **s.carb)
    conc = S.series(r["concentrations"], "CO2", ys)
    dT = np.array(r["dT_glob"], dtype=float)
    ce = np.array([em.loc[y, "CO2_FF"] + em.loc[y, "CO2_AFOLU"] for y in ys], dtype=float)
    for i, y in enumerate(ys):
        before = total(env, model)
        x = model.co2em2conc(y, ce[i] + s.gas["CO2"]["NAT_EM"], feedback_dict={"dtemp": dT[i - 1]} if i else None)
        env.eq("concentration of the box with last year's temperature", conc[i], x, rtol=1e-9)
        env.eq("all carbon", total(env, model) - before, ce[i] + s.gas["CO2"]["NAT_EM"], atol=1e-8)
        env.eq("ocean flux", cc.loc[y, "Ocean carbon flux"], p["ocean_solubility_base"] * (1 + p["ocean_solubility_temp_coeff"] * dT[i]) * (conc[i] - 278), rtol=1e-8, atol=1e-9)
        env.eq("primary production", cc.loc[y, "Net primary production"], max(0, 60 + p["beta_f"] * math.log(conc[i] / 278) - p["land_temp_sensitivity"] * dT[i]), rtol=1e-8)
    if (np.cumsum(ce) != 0).all():
        env.eq("airborne fraction", np.array([cc.loc[y, "Airborne fraction CO2"] for y in ys]), (conc - 278) / np.cumsum(ce) * 2.123, rtol=1e-6)
