"""C13 parameters reach the model exactly as given, or the documented default is used"""
from pyvc.contract import contract

LEVEL = "proof"
REG = []
TRUSTED = []
ASSUMPTIONS = ["parameter names are those documented plus some unknown ones; values are arbitrary reals, arbitrary integers, text, None or lists"]
UDM = {"rlamdo": "15", "akapa": "0.66", "cpi": "0.21", "W": "2.2", "beto": "6.9", "threstemp": "7", "lambda": "0.61", "mixed": "107", "foan": "0.61", "foas": "0.81",
       "ebbeta": "0", "lm": "40", "ldtime": "12", "ocean_efficacy": "1", "delta_lambda_aero": "0"}
TWO = {"lambda": None, "mixed": "50", "deep": "1200", "k": "0.5", "ocean_efficacy": "1", "foan": "0.61", "foas": "0.81", "delta_lambda_aero": "0"}
CARB = {"beta_f": "0.287", "mixed_carbon": "75", "ml_w_sigmoid": "3", "ml_fracmax": "0.5", "ml_t_half": "0.5", "t_half": "0.5", "w_sigmoid": "7", "t_threshold": "4",
        "w_threshold": "7", "solubility_sens": "0.02", "solubility_limit": "0.5", "ml_depth_min": "10", "preindustrial_co2_conc": "278"}
BOX = {"beta_f": "0.287", "land_temp_sensitivity": "0.1", "soil_respiration_rate": "0.02", "ocean_mixed_layer_depth": "25", "ocean_exchange_rate": "0.01",
       "vegetation_to_soil_fraction": "0.1", "ocean_solubility_base": "0.02", "ocean_solubility_temp_coeff": "-0.01"}
EMC = {"qbmb": "0", "qo3": "0.5", "qdirso2": "-0.00308", "qindso2": None, "qbc": "0.0279", "qoc": "-0.00433", "qh2o_ch4": "0.091915", "ref_yr": "2010", "qnmvoc": "0",
       "qnh3": "0", "qnox": "0"}
KINDS = ["real", "int", "text", "missing", "none", "list"]


def lit(env, name, k, v):
    if v is not None:
        return env.lit(v)
    return env.lit("3.74") / 3 if k == "lambda" else -env.lit("0.97") / env.lit("57.052577209999995")


def values(env, names, tag="", pos=(), fixed=(), sh=None):
    """each parameter of one of the kinds; every parameter takes every kind on some path"""
    if sh is None:
        sh = env.choice(tag + "kinds", list(range(len(KINDS))))
    out, num = {}, {}
    for i, k in enumerate(names):
        kind = KINDS[(i + sh) % len(KINDS)]
        if k in fixed:
            continue
        if kind == "real":
            out[k] = num[k] = env.pos(tag + k, 0.1, 3) if k in pos else env.anyreal(tag + k, -3, 3)
        elif kind == "int":
            out[k] = num[k] = env.int(tag + "i." + k, 1 if k in pos else None, None, 1, 5)
        elif kind == "text":
            out[k] = "7.5"
        elif kind == "none":
            out[k] = None
        elif kind == "list":
            out[k] = [1.0]
    out["not_a_parameter"] = env.anyreal(tag + "not_a_parameter")
    out["another"] = "text"
    return out, num


def judge(env, got, names, num, default, title):
    for k in names:
        if k not in got:
            env.check(f"{title}: {k} present", False)
            continue
        env.eq(f"{title}: {k}" + (" as given" if k in num else " as by default"), got[k], num[k] if k in num else default(k))
    env.check(f"{title}: unknown names ignored", "not_a_parameter" not in got and "another" not in got)


U = "_utils."


@contract(REG, functions=[U + "check_numeric_pamset", U + "cut_non_required", U + "cut_and_check_pamset"], samples=60)
def selection(env):
    """Any values for any parameters, with any defaults: numbers are taken as given, everything else gives way to the default, unknown
    names are dropped and accepted extra names kept; the caller's tables of defaults are not changed."""
    m = env.mod("_utils")
    names = ["a", "b", "c", "d", "e", "f"]
    req = {k: env.anyreal("default." + k) for k in names}
    req0 = dict(req)
    given, num = values(env, names)
    f = env.get(m, "cut_and_check_pamset")
    mode = env.choice("mode", ["plain", "used", "warn"])
    g = dict(given)
    env.cover()
    if mode == "used":
        g["extra"] = "kept"
        got = f(req, g, {"extra": "x", "extra2": "y"})
        env.check("accepted extra name kept", got.get("extra") == "kept" and "extra2" not in got)
    elif mode == "warn":
        got = f(req, g, cut_warnings=True)
    else:
        got = f(req, g)
    judge(env, got, names, num, lambda k: req0[k], "selected")
    env.check("defaults untouched", list(req) == list(req0))
    for k in req0:
        env.eq("defaults untouched", req[k], req0[k])
    got2 = f(req, {})
    for k in names:
        env.eq("a later call sees the defaults", got2[k], req0[k])


@contract(REG, functions=[U + "update_pam_if_numeric"], samples=60)
def update(env):
    """Any old and new values: a changeable, known parameter given as a number takes it; nothing else changes."""
    m = env.mod("_utils")
    names = ["a", "b", "c", "d", "e", "f"]
    old = {k: env.anyreal("old." + k) for k in names}
    old0 = dict(old)
    given, num = values(env, names)
    which = env.choice("frozen", [(), ("a", "d"), ("b", "e"), ("c", "f")])
    env.cover()
    got = env.get(m, "update_pam_if_numeric")(old, pamset_new=dict(given), can_change=[k for k in names if k not in which] + ["not_a_parameter"])
    judge(env, got, names, {k: v for k, v in num.items() if k not in which}, lambda k: old0[k], "updated")
    env.check("no new names", set(got) == set(names))
    same = m.update_pam_if_numeric(dict(old0), pamset_new=None, can_change=names)
    for k in names:
        env.eq("nothing new", same[k], old0[k])


def thermal(mod, cls, table, fixed=(), pos=()):
    def h(env):
        m = env.mod("thermal_model." + mod)
        given, num = values(env, list(table), pos=pos, fixed=fixed)
        for k, v in dict(fixed).items():
            given[k] = num[k] = v
        env.cover()
        got = env.get(env.get(m, cls)(dict(given)), "pamset")
        judge(env, got, list(table), num, lambda k: lit(env, cls, k, table[k]), cls)
        if env.choice("second", ["default", "no"]) == "default":
            got = env.get(env.get(m, cls)(), "pamset")
            judge(env, got, list(table), {}, lambda k: lit(env, cls, k, table[k]), cls + " without parameters")
    return h


h = thermal("two_layer_ocean", "TwoLayerOceanModel", TWO, pos=list(TWO))
h.__name__ = "two_layer"
h.__doc__ = "Any values: the two-layer model uses each documented parameter as given, otherwise its documented default."
contract(REG, functions=["thermal_model.abstract_thermal_model.AbstractThermalModel.__init__", "two_layer_ocean.TwoLayerOceanModel.__init__"], samples=60)(h)
h = thermal("upwelling_diffusion_model", "UpwellingDiffusionModel", UDM, fixed={"lm": 3, "ldtime": 2}, pos=list(UDM))
h.__name__ = "upwelling"
h.__doc__ = "Any values: the upwelling model uses each documented parameter as given, otherwise its documented default."
contract(REG, functions=["thermal_model.abstract_thermal_model.AbstractThermalModel.__init__", "upwelling_diffusion_model.UpwellingDiffusionModel.__init__",
                         "upwelling_diffusion_model.check_pamset"], samples=60)(h)


def carbon(mod, table):
    def h(env):
        m = env.mod("carbon_cycle." + mod)
        sh = env.choice("kinds", list(range(len(KINDS))))
        given, num = values(env, list(table), pos=list(table), sh=sh)
        yr = {"idtm": 2, "nystart": 1750, "nyend": 1751}
        env.cover()
        model = env.get(m, "CarbonCycleModel")(dict(yr), dict(given))
        judge(env, env.get(model, "pamset"), list(table), num, lambda k: lit(env, mod, k, table[k]), "constructed")
        for k, v in yr.items():
            env.eq(k, model.pamset[k], v)
        new, num2 = values(env, list(table), tag="new.", pos=list(table), sh=sh + env.choice("shift", [0, 2, 3]))
        new.update(idtm=3, nystart=1760, nyend=1790, years_tot=7)
        model.reset_co2_hold(dict(new))
        keep = {k: num.get(k, lit(env, mod, k, table[k])) for k in table}
        judge(env, model.pamset, list(table), num2, lambda k: keep[k], "updated")
        for k, v in yr.items():
            env.eq("fixed " + k, model.pamset[k], v)
        env.eq("fixed number of years", model.pamset["years_tot"], 2)
        model.reset_co2_hold(None)
        judge(env, model.pamset, list(table), num2, lambda k: keep[k], "kept")
        if env.choice("second", ["default", "no"]) == "default":
            other = m.CarbonCycleModel(dict(yr))
            judge(env, other.pamset, list(table), {}, lambda k: lit(env, mod, k, table[k]), "without parameters")
    return h


for mod, table, nm in (("carbon_cycle_mod", CARB, "default_carbon"), ("carbon_cycle_mod_box", BOX, "box_carbon")):
    h = carbon(mod, table)
    h.__name__ = nm
    h.__doc__ = ("Any values: the carbon cycle uses each documented parameter as given, otherwise its documented default; a later parameter set changes "
                 "exactly the parameters it gives as numbers, and neither the years nor the sub-steps.")
    contract(REG, functions=[mod + ".CarbonCycleModel.__init__", mod + ".CarbonCycleModel.reset_co2_hold", "common_carbon_cycle_functions.carbon_cycle_init_pamsets",
                             "common_carbon_cycle_functions.take_out_missing"], samples=60)(h)


@contract(REG, functions=["concentrations_emissions_handler.check_pamset", "concentrations_emissions_handler.check_pamset_consistency"], samples=60)
def forcing_parameters(env):
    """Any values: forcing parameters as given or by default, in every run anew; years, sub-steps and the kind of run stay those of the
    construction whatever a run's parameter set says; a single-component setting is not carried over."""
    m = env.mod("concentrations_emissions_handler")
    sh = env.choice("kinds", list(range(len(KINDS))))
    given, num = values(env, list(EMC), sh=sh)
    kind = env.choice("new", ["plain", "others", "just_one"])
    fix = {k: env.int("old." + k, 1, None, 1, 3000) for k in ("idtm", "nystart", "nyend", "emstart")} if kind == "others" else {"idtm": 24, "nystart": 1800, "nyend": 2050, "emstart": 1820}
    env.cover()
    first = env.get(m, "check_pamset")(dict(given, **fix))
    judge(env, first, list(EMC), num, lambda k: lit(env, "emc", k, EMC[k]), "first")
    for k in fix:
        env.eq(k, first[k], fix[k])
    env.check("default lifetime and carbon cycle", first["lifetime_mode"] == "TAR" and first["carbon_cycle_model"] == "default")
    none = m.check_pamset(None)
    judge(env, none, list(EMC), {}, lambda k: lit(env, "emc", k, EMC[k]), "no set")
    first["conc_run"] = sh % 2 == 0
    first["just_one"] = "CH4"
    first["forc_pert"] = "a perturbation"
    new, num2 = values(env, list(EMC), tag="new.", sh=sh + (env.choice("shift", [0, 2, 3]) if kind == "plain" else 2))
    if kind == "others":
        new.update({k: env.int("new." + k, 1, None, 1, 3000) for k in fix})
        new.update(conc_run="other", forc_pert="other")
    if kind == "just_one":
        new.update(just_one="N2O", lifetime_mode="WIGLEY")
    second = env.get(m, "check_pamset_consistency")(dict(first), m.check_pamset(dict(new)))
    judge(env, second, list(EMC), num2, lambda k: lit(env, "emc", k, EMC[k]), "second")
    for k in fix:
        env.eq("unchanged " + k, second[k], fix[k])
    env.check("kind of run", second["conc_run"] is first["conc_run"] or second["conc_run"] == first["conc_run"])
    env.check("perturbation kept", second["forc_pert"] == "a perturbation")
    env.check("single component", second.get("just_one") == ("N2O" if kind == "just_one" else None))
    env.check("lifetime mode", second["lifetime_mode"] == ("WIGLEY" if kind == "just_one" else "TAR"))


def flat(r):
    """a run's results as {name: array}"""
    import numpy as np
    import pandas as pd
    out = {}
    for k, v in r.items():
        if isinstance(v, pd.DataFrame):
            for c in v.columns:
                if v[c].dtype != object:
                    out[f"{k}.{c}"] = v[c].to_numpy(dtype=float)
        elif isinstance(v, dict):
            for c in v:
                out[f"{k}.{c}"] = np.array(list(v[c].values()) if isinstance(v[c], dict) else v[c], dtype=float)
        else:
            out[k] = np.array(v, dtype=float)
    return out


def same_results(env, title, a, b, rtol=0, atol=0):
    import numpy as np
    a, b = flat(a), flat(b)
    env.check(title + ": same outputs", set(a) == set(b))
    for k in a:
        x, y = a[k], b[k]
        nan = np.isnan(x) & np.isnan(y) if x.shape == y.shape else None
        if nan is not None and nan.any():
            x, y = x[~nan], y[~nan]
        env.eq(f"{title}: {k}", x, y, rtol=rtol, atol=atol)


def num(d):
    from fractions import Fraction
    return {k: float(Fraction(v)) if v is not None else (3.74 / 3 if k == "lambda" else -0.97 / 57.052577209999995) for k, v in d.items()}


@contract(REG, functions=["ciceroscm.CICEROSCM.__init__", "ciceroscm.CICEROSCM._run", "concentrations_emissions_handler.ConcentrationsEmissionsHandler.reset_with_new_pams"],
          samples=12, thorough=200, symbolic=False, public=True)
def parameters_of_whole_runs(env):
    """Whole runs: giving the documented defaults explicitly, adding unknown or non-numeric entries, reordering, or trying to change
    years, steps and models changes nothing, with every entry point; every parameter given reaches its component. (bounded)"""
    import random
    import numpy as np
    from . import _scen as S
    s = S.scen(env)
    R = s.R
    table = UDM if s.thermal == "default" else TWO
    ctab = CARB if s.carbon == "default" else BOX
    for k, v in num(ctab).items():
        if R.random() < 0.5 and k != "preindustrial_co2_conc":
            s.carb[k] = v * R.uniform(0.8, 1.25)
    if s.carbon == "default" and R.random() < 0.7:
        S.carbon_pams(s)
    if R.random() < 0.5:
        s.udm["delta_lambda_aero"] = R.uniform(-0.3, 0.3)
    base = S.run(env, s)
    m = S.model(env, s)

    def shuffled(d):
        ks = list(d)
        R.shuffle(ks)
        return {k: d[k] for k in ks}
    full_u = dict(num(table), **s.udm)
    if s.thermal == "default":
        full_u["lm"] = 40
        full_u["ldtime"] = s.udm.get("ldtime", 12)
    full_c = dict(num(ctab), **s.carb)
    if "preindustrial_co2_conc" in full_c:
        full_c["preindustrial_co2_conc"] = float(s.conc.loc[s.y0, "CO2"])
    full_e = dict(num(EMC), lifetime_mode="TAR", **{k: v for k, v in s.emiconc.items() if k not in EMC and k != "lifetime_mode"})
    full_e.update(s.emiconc)
    m._run(dict(S.FIXED), pamset_udm=shuffled(full_u), pamset_emiconc=shuffled(full_e), pamset_carbon=shuffled(full_c))
    same_results(env, "defaults given", m.results, base)
    m = S.model(env, s)
    bad = lambda: R.choice(["0.5", None, [1.0], {"a": 1}])
    u = dict(s.udm, **{k: bad() for k in table if k not in s.udm and R.random() < 0.5}, unknown=3.0, fnso=9.0, rlamda=9.0, dt=5.0, c1=2.0, c_fast=3.0)
    e = dict(s.emiconc, **{k: bad() for k in EMC if k not in s.emiconc and R.random() < 0.5}, unknown=3.0, nystart=s.y0 + 2, nyend=s.y1 - 1, idtm=7, emstart=s.y0 + 3,
             carbon_cycle_model="box" if s.carbon == "default" else "default", conc_run=not s.conc_run, beta_f=0.9, forc_pert=4)
    c = dict(s.carb, **{k: bad() for k in ctab if k not in s.carb and R.random() < 0.5}, unknown=3.0, nystart=s.y0 + 2, nyend=s.y1 - 1, idtm=7, years_tot=3)
    m._run(dict(S.FIXED, nystart=s.y0 + 1, nyend=s.y1 - 3, thermal_model="twolayer"), pamset_udm=shuffled(u), pamset_emiconc=shuffled(e), pamset_carbon=shuffled(c))
    same_results(env, "unusable entries", m.results, base)
    # numpy numbers are numbers
    m = S.model(env, s)
    np_ = lambda d: {k: (np.int64(v) if isinstance(v, int) and R.random() < 0.5 else np.float64(v) if isinstance(v, float) else v) for k, v in d.items()}
    m._run(dict(S.FIXED), pamset_udm=np_(s.udm), pamset_emiconc=np_(s.emiconc), pamset_carbon=np_(s.carb))
    same_results(env, "numpy numbers", m.results, base)
    # response functions of the configuration are those of the run
    fs = {k: s.conf.pop(k) for k in ("rs_function", "rb_function") if k in s.conf}
    if fs:
        m = S.model(env, s)
        m._run(dict(S.FIXED), pamset_udm=dict(s.udm), pamset_emiconc=dict(s.emiconc), pamset_carbon=dict(s.carb, **fs))
        same_results(env, "response functions", m.results, base)
    # each parameter given reaches its component
    if not s.conc_run:
        mod = m.ce_handler.carbon_cycle
        for k, v in s.carb.items():
            if not isinstance(v, dict):
                env.eq("carbon parameter " + k, mod.pamset[k], v)
    for k, v in s.emiconc.items():
        if k != "lifetime_mode" and not any(g.startswith({"qdirso2": "SO2_", "qbc": "BC_", "qoc": "OC_"}.get(k, "-")) for g in s.gases):
            env.eq("forcing parameter " + k, m.ce_handler.pamset[k], v)


@contract(REG, functions=["ciceroscm.CICEROSCM.__init__", "concentrations_emissions_handler.ConcentrationsEmissionsHandler.reset_with_new_pams", "carbon_cycle.carbon_cycle_mod.CarbonCycleModel.reset_co2_hold"],
          samples=8, thorough=100, symbolic=False, public=True)
def response_functions_of_whole_runs(env):
    """Whole emission runs: response functions given in the configuration or for the run, each alone or both, give the same results, and not those of
    the default functions. (bounded)"""
    from . import _scen as S
    s = S.scen(env, carbon="default", conc_run=False, thermal="twolayer", emstart=1, nyears=12)
    R = s.R
    u = R.uniform
    fs = {"rs_function": {"coeffs": [u(0.02, 0.2), u(0.3, 0.7), u(0.1, 0.3), u(0.1, 0.3)], "timescales": [u(0.5, 3), u(5, 20), u(40, 200)]},
          "rb_function": {"coeffs": [u(0.3, 0.7), u(0.1, 0.4), u(0.1, 0.4)], "timescales": [u(1, 5), u(5, 20), u(40, 200)]}}
    base = S.run(env, s)
    for names in (["rs_function"], ["rb_function"], ["rs_function", "rb_function"]):
        f = {k: fs[k] for k in names}
        s.conf, s.carb = dict(f), {}
        a = S.run(env, s)
        s.conf, s.carb = {}, dict(f)
        b = S.run(env, s)
        same_results(env, " and ".join(names), a, b)
        env.check("the functions given are used", float(abs(a["concentrations"]["CO2"] - base["concentrations"]["CO2"]).max()) > 1e-6)


@contract(REG, functions=["concentrations_emissions_handler.ConcentrationsEmissionsHandler.__init__", "concentrations_emissions_handler.check_pamset"], samples=6, thorough=60, symbolic=False, public=True)
def whole_number_inputs(env):
    """Inputs given as whole numbers are used like the same numbers given as decimals. (bounded)"""
    from . import _scen as S
    s = S.scen(env)
    s.conc = s.conc.round()
    s.emis = s.emis.round()
    a = S.run(env, s)
    s.conc = s.conc.astype(int)
    if s.pert_em is None:
        s.emis = s.emis.astype(int)
    b = S.run(env, s)
    same_results(env, "whole numbers", b, a, rtol=1e-12, atol=1e-12)


@contract(REG, functions=["ciceroscm.CICEROSCM.__init__", "component_factory_functions.create_thermal_model", "component_factory_functions.create_carbon_cycle_model",
                          "input_handler.InputHandler.thermal_model", "input_handler.InputHandler.carbon_model"], samples=12, thorough=150, symbolic=False, public=True)
def configured_models_years_and_steps(env):
    """The thermal model named in the configuration (none: the default one) is the one that makes the yearly results, stepped by hand with
    the same forcing; the carbon cycle named is the one used, with the years and the number of steps configured (none: 1750 to 2100, 24 steps,
    emissions from 1850). (bounded)"""
    import random
    import numpy as np
    from . import _scen as S
    R = random.Random(env.int("seed", 0, None, 0, 2 ** 30))
    u = R.uniform
    th = R.choice([None, "default", "twolayer", "twolayer"])
    T = env.get(env.mod("thermal_model." + ("two_layer_ocean" if th == "twolayer" else "upwelling_diffusion_model")),
                "TwoLayerOceanModel" if th == "twolayer" else "UpwellingDiffusionModel")
    y0 = R.choice([None, 1750, 1850, 1990])
    n = R.choice([6, 15]) if y0 else 351
    f = np.array([u(-1, 4) for _ in range(n)])
    cfg = {"forc_data": f.copy()}
    if y0:
        cfg.update(nystart=y0, nyend=y0 + n - 1)
    if th:
        cfg["thermal_model"] = th
    udm = S.udm_pams(R, th or "default")
    m = env.mod("").CICEROSCM(cfg)
    m._run({"results_as_dict": True}, pamset_udm=dict(udm))
    t = T(dict(udm))
    want = {"dT_glob": [], "RIB_glob": [], "OHCTOT": []}
    for i in range(n):
        o = t.energy_budget(f[i], f[i], np.zeros(12), np.zeros(12))
        for k, v in (("dT_glob", "dtemp"), ("RIB_glob", "RIB"), ("OHCTOT", "OHCTOT")):
            want[k].append(float(np.mean(o[v])))
    for k in want:
        env.eq(f"{k} of the thermal model {th}", np.array(m.results[k], dtype=float), np.array(want[k]), rtol=1e-9, atol=1e-12)
    s = S.scen(env, emstart=1)
    conf = S.cfg(s)
    for k, v in (("carbon_cycle_model", s.carbon), ("thermal_model", s.thermal)):
        if v == "default" and R.random() < 0.5:
            conf.pop(k)
    idtm = R.choice([None, 24, 12, 7])
    if idtm:
        conf["idtm"] = idtm
    if s.carbon == "default" and not s.conc_run:  # the same run with everything said, and the named carbon cycle fed by hand
        got = S.run(env, s, env.mod("").CICEROSCM(dict(conf)))
        ref = S.run(env, s, idtm=idtm or 24)
        same_results(env, "the configuration in full", got, ref)
    m = env.mod("").CICEROSCM(conf)
    c = env.get(env.get(m, "ce_handler"), "carbon_cycle")
    D = env.get(env.mod("carbon_cycle.carbon_cycle_mod" + ("_box" if s.carbon == "box" else "")), "CarbonCycleModel")
    env.check("the carbon cycle " + s.carbon, isinstance(c, D))
    T = env.get(env.mod("thermal_model." + ("two_layer_ocean" if s.thermal == "twolayer" else "upwelling_diffusion_model")),
                "TwoLayerOceanModel" if s.thermal == "twolayer" else "UpwellingDiffusionModel")
    env.check("the thermal model " + s.thermal, issubclass(env.get(m, "thermal_model_class"), T))
