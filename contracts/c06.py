"""C06 the default carbon cycle's books balance"""
from pyvc.contract import contract

LEVEL = "proof"
REG = []
CM = "carbon_cycle.carbon_cycle_mod"
CLS = "carbon_cycle_mod.CarbonCycleModel"
TRUSTED = []
ASSUMPTIONS = ["the yearly step is proved for 1 to 4 sub-steps per year in years 1 to 3 from any state; longer runs are bounded"]
PARS = ["beta_f", "mixed_carbon", "ml_w_sigmoid", "ml_fracmax", "ml_t_half", "t_half", "w_sigmoid", "t_threshold", "w_threshold",
        "solubility_sens", "solubility_limit", "ml_depth_min"]


def AG(env):
    return 1 / env.lit("9.06")


def pars(env, fixed=False):
    return {
        "beta_f": env.real("beta_f", sample=(0, 0.8)),
        "mixed_carbon": env.pos("mixed_carbon", 20, 200),
        "ml_w_sigmoid": env.pos("ml_w", 0.5, 8),
        "ml_fracmax": env.real("ml_frac", 0, env.lit("0.9")),
        "ml_t_half": env.real("ml_t", sample=(-2, 4)),
        "t_half": env.real("t_half", sample=(-2, 4)),
        "w_sigmoid": env.pos("w_sig", 0.5, 10),
        "t_threshold": env.real("t_thr", sample=(0, 8)),
        "w_threshold": env.pos("w_thr", 0.5, 10),
        "solubility_sens": env.real("sol_s", sample=(-0.1, 0.1)),
        "solubility_limit": env.real("sol_l", 0, 1),
        "ml_depth_min": env.pos("dmin", 1, 30),
        "preindustrial_co2_conc": env.pos("pre", 200, 350),
    }


def sig(env, t, c, w):
    return 1 / (1 + env.exp(-((t - c) / w)))


def fnpp_def(env, p, t):
    def s(x):
        return sig(env, x, p["t_half"], p["w_sigmoid"])

    def th(x):
        return 1 - sig(env, x, p["t_threshold"], p["w_threshold"])
    return 60 / (s(0) * th(0)) * s(t) * th(t)


def sol_def(env, p, t):
    e = env.exp(-p["solubility_sens"] * t)
    return env.max(0, env.min(e, 1 + p["solubility_limit"]))


def mld_def(env, p, t):
    def f(x):
        return 1 - p["ml_fracmax"] * sig(env, x, p["ml_t_half"], p["ml_w_sigmoid"])
    return env.max(p["mixed_carbon"] * f(t) / f(0), p["ml_depth_min"])


def poly(env, z):
    L = env.lit
    return (L("1.3021") * z + L("0.0037929") * z ** 2 + L("9.1193e-06") * z ** 3 + L("1.488e-08") * z ** 4 + L("1.2425e-10") * z ** 5)


def pco2_def(env, z):
    L = env.lit
    zm = L("293.5")
    dp = (L("1.3021") + 2 * L("0.0037929") * zm + 3 * L("9.1193e-06") * zm ** 2 + 4 * L("1.488e-08") * zm ** 3 + 5 * L("1.2425e-10") * zm ** 4)
    if env.symbolic:
        return env.ite(z <= zm, poly(env, z), poly(env, zm) + dp * zm * env.log(z / zm))
    return poly(env, z) if z <= zm else poly(env, zm) + dp * zm * env.log(z / zm)


@contract(REG, functions=[CLS + ".fnpp_from_temp", CLS + ".solubility_temp_feedback", CLS + ".mixed_layer_temp_feedback", CLS + "._update_temp_feedbacks"], samples=60)
def temperature_feedbacks(env):
    """For every parameter set and temperature: land productivity, solubility and mixed-layer depth are the documented
    functions, normalised to 60 PgC/yr, 1 and the given depth at zero temperature change."""
    m = env.mod(CM)
    p = pars(env)
    t = env.anyreal("t", -5, 15)
    env.cover()
    model = m.CarbonCycleModel({"idtm": 2, "nystart": 1750, "nyend": 1751}, dict(p))
    env.eq("NPP", model.fnpp_from_temp(t), fnpp_def(env, p, t))
    env.eq("NPP baseline", model.fnpp_from_temp(0), 60)
    env.eq("no warming given", model.fnpp_from_temp(), 60)
    env.eq("solubility", model.solubility_temp_feedback(t), sol_def(env, p, t))
    env.eq("mixed layer depth", model.mixed_layer_temp_feedback(t), mld_def(env, p, t))


def year_state(env, m, p, idtm, ny, y):
    """a model in an arbitrary state at the start of year index y"""
    model = m.CarbonCycleModel({"idtm": idtm, "nystart": 1750, "nyend": 1749 + ny}, dict(p))
    hold = env.get(model, "co2_hold")
    st = {"yCO2": env.anyreal("y0", -5, 50), "xCO2": env.pos("x0", 150, 900), "emCO2_prev": env.anyreal("em0", -5, 10),
          "ss1": env.anyreal("ss1", -10, 60), "sums": env.anyreal("sums0", -500, 2000)}
    for k, v in st.items():
        env.setkey(hold, k, v)
    s0 = env.arr("s0", ny * idtm, slo=-1, shi=40)
    d0 = env.arr("d0", ny * idtm, slo=-2, shi=10)
    hold["sCO2"][:] = s0
    hold["dfnpp"][:] = d0
    return model, st, s0, d0



@contract(REG, functions=[CLS + "._calculate_partial_pressure_mixed_layer"], samples=40)
def ocean_partial_pressure(env):
    """Any flux history, response function and feedback, at any sub-step: the ocean partial pressure is the solubility factor times the
    documented function of the mixed-layer carbon implied by the history up to that step."""
    m = env.mod(CM)
    p = pars(env)
    idtm, ny = env.int("idtm", 1, None, 1, 6), 3
    n = idtm * ny
    model = m.CarbonCycleModel({"idtm": 2, "nystart": 1750, "nyend": 1752}, dict(p))
    model.pamset["idtm"] = idtm
    hold = env.get(model, "co2_hold")
    s = env.arr("s", n, slo=-1, shi=60)
    env.setkey(hold, "sCO2", s)
    rs, rb = env.arr("rs", n, slo=0, shi=1), env.arr("rb", n, slo=0, shi=0.1)
    env.set(model, "r_functions", m.np.array([rs, rb]))
    it = 0 if env.choice("first", [True, False]) else env.int("it", 1, None, 1, 17)
    env.assume(it < n)
    mld, sol = env.pos("mld", 10, 200), env.anyreal("sol", 0.5, 1.5)
    env.setkey(env.get(model, "temp_feedbacks"), "mixed_layer_temp_feedback", mld)
    env.setkey(model.temp_feedbacks, "solubility_temp_feedback", sol)
    env.cover()
    y = model._calculate_partial_pressure_mixed_layer(it)
    el = env.elem
    conv = env.lit("1.722e17") / (env.lit("3.62e14") * env.lit("9.06"))
    z = conv / idtm / mld * ((env.sum(0, it - 1, lambda j: el(s, j) * el(rs, it - 1 - j)) if not isinstance(it, int) or it else 0) + el(s, it) / 2)
    env.eq("partial pressure", y, sol * pco2_def(env, z), atol=1e-7)


@contract(REG, functions=[CLS + ".co2em2conc"], samples=40)
def one_year_from_any_state(env):
    """One year from any state: at every sub-step the change of atmosphere plus carbon handed to the ocean is the carbon emitted less the
    land uptake (trapezoidal over the step), the land uptake is that of the concentration one step before with its decay by the
    response function, and the carried-over state is that of the last sub-step. 1 to 4 sub-steps, years 1 to 3."""
    m = env.mod(CM)
    p = pars(env)
    idtm = env.choice("idtm", [1, 2, 4])
    y = env.choice("y", [0, 1, 2])
    ny = 4
    n = idtm * ny
    model = m.CarbonCycleModel({"idtm": idtm, "nystart": 1750, "nyend": 1749 + ny}, dict(p))
    hold = env.get(model, "co2_hold")
    s0 = [env.anyreal(f"s{j}", -1, 40) for j in range(n)]
    d0 = [env.anyreal(f"d{j}", -2, 10) for j in range(n)]
    st = {"yCO2": env.anyreal("y0", -5, 50), "xCO2": env.pos("x0", 150, 900), "emCO2_prev": env.anyreal("em0", -5, 10),
          "ss1": env.anyreal("ss1", -10, 60), "sums": env.anyreal("sums0", -500, 2000)}
    if y == 0:
        st = {"yCO2": 0.0, "xCO2": p["preindustrial_co2_conc"], "emCO2_prev": 0.0, "ss1": 0.0, "sums": 0.0}
        if not env.symbolic:
            s0, d0 = [0.0] * n, [0.0] * n
        else:
            d0[0] = 0.0
    for k, v in st.items():
        env.setkey(hold, k, v)
    env.setkey(hold, "sCO2", m.np.array(s0) + 0)
    env.setkey(hold, "dfnpp", m.np.array(d0) + 0)
    rs, rb = [[env.real(f"{q}{j}", sample=(0, 1)) for j in range(n)] for q in ("rs", "rb")]
    env.set(model, "r_functions", m.np.array([rs, rb]))
    em, t = env.anyreal("E", -10, 30), env.anyreal("t", -3, 8)
    npp, mld, sol = fnpp_def(env, p, t), mld_def(env, p, t), sol_def(env, p, t)
    ys = []
    if env.symbolic:
        for f in ("fnpp_from_temp", "_update_temp_feedbacks", "_calculate_partial_pressure_mixed_layer"):
            env.get(model, f)
        npp = env.anyreal("npp")
        seen = []

        def part(it):
            seen.append(it)
            ys.append(env.anyreal(f"y.{len(ys)}"))
            return ys[-1]
        tf, tn = [], []

        def f_npp(dtemp=0):
            tn.append(dtemp)
            return npp
        model.fnpp_from_temp = f_npp
        model._update_temp_feedbacks = lambda dtemp=0: tf.append((dtemp, len(ys)))
        model._calculate_partial_pressure_mixed_layer = part
    env.cover()
    x = model.co2em2conc(1750 + y, em, feedback_dict={"dtemp": t})
    s, d = hold["sCO2"], hold["dfnpp"]
    dt = env.lit(1) / idtm
    ag = AG(env)
    pre = p["preindustrial_co2_conc"]
    it0 = y * idtm
    conv = env.lit("1.722e17") / (env.lit("3.62e14") * env.lit("9.06"))
    if env.symbolic:
        env.check("feedbacks updated before the steps", len(tf) >= 1 and tf[0][1] == 0 and len(tn) >= 1)
        for q in [a for a, _ in tf] + tn:
            env.eq("feedbacks of this year's temperature", q, t)
        env.check("partial pressure asked for at each step", [int(q) for q in seen] == list(range(it0, it0 + idtm)))
    else:
        for i in range(idtm):
            it = it0 + i
            z = conv * dt / mld * (sum(s[j] * rs[it - 1 - j] for j in range(0, it - 1)) + s[it] / 2)
            ys.append(sol * pco2_def(env, z))

    def land(it):
        return d[it] - dt * sum((d[j] * rb[it - 1 - j] for j in range(1, it)), 0)

    eps = [(em - land(it0 + i)) / env.lit("2.123") for i in range(idtm)]
    xs = []
    for i in range(idtm):
        it = it0 + i
        yp = st["yCO2"] if i == 0 else ys[i - 1]
        xs.append(s[it] + (ys[i] + yp) / 2 + pre)
        if it == 0:
            env.eq("start: land uptake zero", d[0], 0)
            env.eq("start: half an emission step, no earlier ocean uptake", s[0] * (1 + dt * ag / 2), dt * eps[0] + 0, atol=1e-7)
            continue
        xp = st["xCO2"] if i == 0 else xs[i - 1]
        env.eq("land uptake follows the concentration one step before", d[it], npp * p["beta_f"] * env.log(xp / pre), atol=1e-7)
        if i == 0:
            cum = st["sums"] + st["emCO2_prev"] / ag - s0[it - 1]
            env.eq("carbon budget of the first sub-step", s[it] + yp + dt * ag / 2 * s[it], dt * ag * (cum + st["ss1"]) + dt * eps[0] / 2, atol=1e-6)
        elif it == 1:
            env.eq("carbon budget of the second sub-step of all", s[1] + yp + dt * ag * (s[0] + s[1] / 2), dt * (eps[0] / 2 + eps[0] + eps[1] / 2), atol=1e-6)
        else:
            ypp = st["yCO2"] if i == 1 else ys[i - 2]
            env.eq("change of atmosphere plus ocean = emitted less land uptake",
                   (s[it] + yp) - (s[it - 1] + ypp) + dt * ag * (s[it] + s[it - 1]) / 2, dt * (eps[i] + eps[i - 1]) / 2, atol=1e-6)
    env.eq("returned concentration", x, xs[-1], atol=1e-7)
    env.eq("carried concentration", hold["xCO2"], x)
    env.eq("carried pressure", hold["yCO2"], ys[-1], atol=1e-7)
    env.eq("carried emission", hold["emCO2_prev"], eps[-1], atol=1e-7)
    L = it0 + idtm - 1
    # the carried sums give the next year's first budget the same increment as any other step
    yl = st["yCO2"] if idtm == 1 else ys[-2]
    cum = hold["sums"] + hold["ss1"]
    lhs = dt * ag * cum + dt * eps[-1] / 2
    if not (y == 0 and idtm == 1):
        env.eq("carried budget continues the history", lhs, s[L] + yl + dt * ag / 2 * s[L], atol=1e-6)
    else:
        env.eq("carried budget of the first step", cum, eps[0] / 2 / ag, atol=1e-6)
    for j in range(n):
        if j < it0 or j > L:
            env.eq("other fluxes untouched", s[j], s0[j])
            env.eq("other uptake untouched", d[j], d0[j])


@contract(REG, functions=[CLS + ".get_biosphere_carbon_flux", CLS + ".get_ocean_carbon_flux", CLS + "._get_ffer_timeseries"], samples=40)
def reported_fluxes(env):
    """Any history: the yearly land flux is the year's mean of the net uptake (uptake less decay of all earlier uptake), the ocean flux
    the year's mean of the air-sea flux in PgC. 1 to 4 sub-steps, 1 to 3 years."""
    m = env.mod(CM)
    p = pars(env)
    idtm, ny = env.choice("idtm", [1, 2, 4]), env.choice("ny", [1, 2, 3])
    if idtm * ny < 2:
        ny = 2
    n = idtm * ny
    model = m.CarbonCycleModel({"idtm": idtm, "nystart": 1750, "nyend": 1749 + ny}, dict(p))
    hold = env.get(model, "co2_hold")
    s, d, rb = [[env.anyreal(f"{q}{j}") for j in range(n)] for q in ("s", "d", "rb")]
    env.setkey(hold, "sCO2", m.np.array(s) + 0)
    env.setkey(hold, "dfnpp", m.np.array(d) + 0)
    env.set(model, "r_functions", m.np.array([rb, rb]))
    env.cover()
    bio, oc = model.get_biosphere_carbon_flux(), model.get_ocean_carbon_flux()
    dt = env.lit(1) / idtm
    land = [d[it] - dt * sum((d[j] * rb[it - 1 - j] for j in range(1, it)), 0) for it in range(n)]
    for y in range(ny):
        env.eq("biosphere flux", bio[y], sum(land[y * idtm:(y + 1) * idtm]) / idtm, atol=1e-8)
        env.eq("ocean flux", oc[y], sum(s[y * idtm:(y + 1) * idtm]) / idtm * env.lit("2.123") * AG(env), atol=1e-8)
    env.eq("one value per year", len(bio), ny)


@contract(REG, functions=[CLS + ".get_biosphere_carbon_flux", CLS + "._get_ffer_timeseries", CLS + ".fnpp_from_temp"], samples=40)
def land_flux_of_prescribed_concentrations(env):
    """Any prescribed concentrations and temperatures (or none): the estimated yearly land flux is the year's mean of the fertilised production
    at that year's concentration and temperature less the decay of all earlier uptake. 1 to 3 sub-steps, 1 to 3 years."""
    m = env.mod(CM)
    p = pars(env)
    idtm, ny = env.choice("idtm", [1, 2, 3]), env.choice("ny", [1, 2, 3])
    if idtm * ny < 2:
        ny = 2
    n = idtm * ny
    model = m.CarbonCycleModel({"idtm": idtm, "nystart": 1750, "nyend": 1749 + ny}, dict(p))
    conc, dT = env.arr("conc", ny, positive=True, slo=200, shi=1500), env.arr("dT", ny, slo=-3, shi=8)
    warm = env.choice("temperatures", [True, False])
    rb = [env.anyreal(f"rb{j}") for j in range(n)]
    env.set(model, "r_functions", m.np.array([rb, rb]))
    npp = [env.anyreal(f"npp{y}", 40, 80) for y in range(ny)]
    if env.symbolic:      # the temperature dependence by its contract: any value for each temperature, 60 without warming
        model.fnpp_from_temp_vec = lambda dtemp=None: m.np.array(npp if warm else [60] * ny)
    env.cover()
    bio = model.get_biosphere_carbon_flux(conc_run=True, co2_conc_series=conc, dtemp_series=dT if warm else None)
    if not env.symbolic:
        npp = [fnpp_def(env, p, dT[y]) for y in range(ny)]
    dt = env.lit(1) / idtm
    d = [(npp[it // idtm] if warm else 60) * p["beta_f"] * env.log(conc[it // idtm] / p["preindustrial_co2_conc"]) for it in range(n)]
    land = [d[it] - dt * sum((d[j] * rb[it - 1 - j] for j in range(1, it)), 0) for it in range(n)]
    for y in range(ny):
        env.eq("biosphere flux", bio[y], sum(land[y * idtm:(y + 1) * idtm]) / idtm, atol=1e-8)
    env.eq("one value per year", len(bio), ny)


def oracle(p, idtm, ny, em, dT, rs, rb):
    """the documented scheme, written from its definitions"""
    import math
    from pyvc.env import ConcEnv
    import random
    e = ConcEnv(random.Random(0))
    n = idtm * ny
    dt, ag, pre = 1.0 / idtm, 1 / 9.06, p["preindustrial_co2_conc"]
    conv = 1.722e17 / (3.62e14 * 9.06)
    s, d, ys, eps, land = [0.0] * n, [0.0] * n, [0.0] * n, [0.0] * n, [0.0] * n
    x, yp, conc, xs = pre, 0.0, [], []
    import numpy as np
    rs, rb = np.array(rs), np.array(rb)
    s, d = np.zeros(n), np.zeros(n)
    src = 0.0
    for it in range(n):
        yr = it // idtm
        t = dT[yr]
        if it:
            d[it] = fnpp_def(e, p, t) * p["beta_f"] * math.log(x / pre)
        land[it] = d[it] - dt * float(np.dot(d[1:it], rb[:max(it - 1, 0)][::-1]))
        eps[it] = (em[yr] - land[it]) / 2.123
        # cumulative source: trapezoid with a half step at the start counted in full in the first step
        src = eps[0] / 2 + sum(eps[:it]) + eps[it] / 2
        s[it] = (dt * src - yp - dt * ag * float(np.sum(s[:it]))) / (1 + dt * ag / 2)
        z = conv * dt / mld_def(e, p, t) * (float(np.dot(s[:max(it - 1, 0)], rs[1:it][::-1])) + s[it] / 2)
        y = sol_def(e, p, t) * pco2_def(e, z)
        x = s[it] + (y + yp) / 2 + pre
        yp = y
        if (it + 1) % idtm == 0:
            conc.append(x)
    b = [float(np.mean(land[k * idtm:(k + 1) * idtm])) for k in range(ny)]
    o = [float(np.mean(s[k * idtm:(k + 1) * idtm])) * 2.123 * ag for k in range(ny)]
    return conc, b, o


def rs_default(t):
    if t < 2.0:
        return 0.12935 + 0.21898 * E(-t / 0.034569) + 0.17003 * E(-t / 0.26936) + 0.24071 * E(-t / 0.96083) + 0.24093 * E(-t / 4.9792)
    return 0.022936 + 0.24278 * E(-t / 1.2679) + 0.13963 * E(-t / 5.2528) + 0.089318 * E(-t / 18.601) + 0.03782 * E(-t / 68.736) + 0.035549 * E(-t / 232.3)


def rb_default(t):
    return 0.70211 * E(-0.35 * t) + 13.4141e-3 * E(-t / 20.0) - 0.71846 * E(-55 * t / 120.0) + 2.9323e-3 * E(-t / 100.0)


def E(x):
    import math
    return math.exp(x)


@contract(REG, functions=[CLS + "." + f for f in ("co2em2conc", "get_biosphere_carbon_flux", "get_ocean_carbon_flux", "get_carbon_cycle_output", "reset_co2_hold", "precalc_r_functions")],
          samples=40, thorough=500, symbolic=False, public=True)
def whole_histories(env):
    """Whole histories through the public interface, with built-in or user response functions: concentrations and yearly fluxes are those
    of the documented scheme; changing a later year changes nothing before; a reset starts over. (bounded)"""
    import random
    import numpy as np
    R = random.Random(env.int("seed", 0, None, 0, 2 ** 30))
    u = R.uniform
    ny, idtm = R.randint(2, 9), R.choice([1, 2, 6, 12, 24])
    p = {"beta_f": u(0, 0.8), "mixed_carbon": u(20, 200), "ml_w_sigmoid": u(0.5, 8), "ml_fracmax": u(0, 0.9), "ml_t_half": u(-2, 4), "t_half": u(-2, 4),
         "w_sigmoid": u(0.5, 10), "t_threshold": u(0, 8), "w_threshold": u(0.5, 10), "solubility_sens": u(-0.1, 0.1), "solubility_limit": u(0, 1),
         "ml_depth_min": u(1, 30), "preindustrial_co2_conc": u(250, 300)}
    full = dict(p)
    dflt = {"beta_f": 0.287, "mixed_carbon": 75.0, "ml_w_sigmoid": 3.0, "ml_fracmax": 0.5, "ml_t_half": 0.5, "t_half": 0.5, "w_sigmoid": 7, "t_threshold": 4,
            "w_threshold": 7, "solubility_sens": 0.02, "solubility_limit": 0.5, "ml_depth_min": 10.0, "preindustrial_co2_conc": 278.0}
    for k in list(p):
        if R.random() < 0.4:
            del p[k]
            full[k] = dflt[k]
    em = [u(-8, 45) for _ in range(ny)]
    dT = [u(-1, 5) for _ in range(ny)]
    n = ny * idtm
    rs = [rs_default(k / idtm) for k in range(n)]
    rb = [rb_default(k / idtm) for k in range(n)]
    given = dict(p)
    if R.random() < 0.4:
        c, ts = [u(0, 0.3) for _ in range(4)], [u(0.5, 50) for _ in range(3)]
        given["rs_function"] = {"coeffs": list(c), "timescales": list(ts)}
        rs = [(c[0] + sum(a * E(-k / idtm / b) for a, b in zip(c[1:], ts))) / sum(c) for k in range(n)]
    if R.random() < 0.4:
        c, ts = [u(0.01, 0.3) for _ in range(3)], [u(0.5, 50) for _ in range(3)]
        given["rb_function"] = {"coeffs": list(c), "timescales": list(ts)}
        rb = [sum(a * k / idtm / b ** 2 * E(-k / idtm / b) for a, b in zip(c, ts)) / sum(c) for k in range(n)]
    M = env.mod(CM).CarbonCycleModel
    mk = lambda: M({"idtm": idtm, "nystart": 1850, "nyend": 1849 + ny}, dict(given))
    try:
        want = oracle(full, idtm, ny, em, dT, rs, rb)
    except (ValueError, OverflowError):
        return
    m1 = mk()
    got = [float(m1.co2em2conc(1850 + i, em[i], feedback_dict={"dtemp": dT[i]})) for i in range(ny)]
    env.eq("concentrations", got, want[0], rtol=1e-7, atol=1e-7)
    env.eq("biosphere flux", m1.get_biosphere_carbon_flux(), want[1], rtol=1e-6, atol=1e-7)
    env.eq("ocean flux", m1.get_ocean_carbon_flux(), want[2], rtol=1e-6, atol=1e-7)
    df = m1.get_carbon_cycle_output(list(range(1850, 1850 + ny)), feedback_dict_series={"dtemp": np.array(dT)})
    env.eq("biosphere column", df["Biosphere carbon flux"].to_numpy(), want[1], rtol=1e-6, atol=1e-7)
    env.eq("ocean column", df["Ocean carbon flux"].to_numpy(), want[2], rtol=1e-6, atol=1e-7)
    import random as _r
    for col, f in (("Mixed layer depth", mld_def), ("CO2 solubility", sol_def), ("Net Primary Production", fnpp_def)):
        env.eq(col, df[col].to_numpy(), [float(f(env, full, t)) for t in dT], rtol=1e-7)
    # a later change changes nothing before it
    k = R.randrange(1, ny)
    m2 = mk()
    em2 = em[:k] + [x + u(0.1, 5) for x in em[k:]]
    dT2 = dT[:k] + [x + u(0.1, 2) for x in dT[k:]]
    got2 = [float(m2.co2em2conc(1850 + i, em2[i], feedback_dict={"dtemp": dT2[i]})) for i in range(ny)]
    env.eq("past unchanged", got2[:k], got[:k], rtol=0, atol=0)
    env.eq("past flux unchanged", m2.get_ocean_carbon_flux()[:k], m1.get_ocean_carbon_flux()[:k], rtol=1e-12)
    env.eq("past land flux unchanged", m2.get_biosphere_carbon_flux()[:k], m1.get_biosphere_carbon_flux()[:k], rtol=1e-9, atol=1e-12)
    # a reset starts over
    m2.reset_co2_hold()
    got3 = [float(m2.co2em2conc(1850 + i, em[i], feedback_dict={"dtemp": dT[i]})) for i in range(ny)]
    env.eq("after a reset", got3, got, rtol=0, atol=0)
    env.eq("fluxes after a reset", m2.get_biosphere_carbon_flux(), m1.get_biosphere_carbon_flux(), rtol=1e-12)


@contract(REG, functions=["ciceroscm.CICEROSCM._run", "concentrations_emissions_handler.ConcentrationsEmissionsHandler.add_results_to_dict"], samples=20, thorough=200, symbolic=False, public=True)
def carbon_books_of_whole_runs(env):
    """Emission-driven runs with the default carbon cycle, any of its parameters, response functions and step counts given: the reported CO2 concentrations and yearly fluxes are those of the carbon cycle
    with the run's CO2 emissions and last year's temperature; airborne fraction by its definition. (bounded)"""
    from . import _scen as S
    import numpy as np
    s = S.scen(env, conc_run=False, carbon="default", pert_em=env.choice("pe", [True, False]))
    pam = S.carbon_pams(s)
    r = S.run(env, s)
    cc = r["carbon cycle"]
    em, ys = S.emissions(s), s.years
    pre = float(s.conc.loc[s.y0, "CO2"])  # the first prescribed concentration is the reference of a run
    conc = S.series(r["concentrations"], "CO2", ys)
    ce = np.array([em.loc[y, "CO2_FF"] + em.loc[y, "CO2_AFOLU"] for y in ys], dtype=float)
    if (np.cumsum(ce) != 0).all():
        env.eq("airborne fraction", np.array([cc.loc[y, "Airborne fraction CO2"] for y in ys]), (conc - pre) / np.cumsum(ce) * 2.123, rtol=1e-6)
    m = env.mod(CM).CarbonCycleModel({"idtm": s.conf.get("idtm", 24), "nystart": s.y0, "nyend": s.y1}, dict(pam, preindustrial_co2_conc=pre))
    dT = np.array(r["dT_glob"], dtype=float)
    for i, y in enumerate(ys):
        x = m.co2em2conc(y, ce[i] + s.gas["CO2"]["NAT_EM"], feedback_dict={"dtemp": dT[i - 1]} if i else None)
        env.eq("concentration of the carbon cycle with last year's temperature", conc[i], x, rtol=1e-8)
    env.eq("ocean", np.array([cc.loc[y, "Ocean carbon flux"] for y in ys]), m.get_ocean_carbon_flux(), rtol=1e-7, atol=1e-9)
    env.eq("land", np.array([cc.loc[y, "Biosphere carbon flux"] for y in ys]), m.get_biosphere_carbon_flux(), rtol=1e-7, atol=1e-9)
