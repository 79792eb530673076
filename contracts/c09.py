"""C09 the two-layer ocean model closes its energy budget every year"""
from pyvc.contract import contract

LEVEL = "proof"
REG = []
MOD = "thermal_model.two_layer_ocean"
CLS = "two_layer_ocean.TwoLayerOceanModel"
SPY = 86400 * 365


def pars(env):
    return {
        "lambda": env.pos("lambda", 0.3, 4),
        "mixed": env.pos("mixed", 10, 900),
        "deep": env.pos("deep", 100, 4000),
        "k": env.real("k", sample=(0, 2)),
        "ocean_efficacy": env.real("eff", sample=(0.5, 2)),
        "foan": env.real("foan", 0, 1),
        "foas": env.real("foas", 0, 1),
        "delta_lambda_aero": env.real("dla", sample=(-1, 1)),
    }


def cap(p, which):
    return p[which] * 1000 * 4184 / SPY


@contract(REG, functions=[CLS + ".energy_budget", CLS + ".__init__"], samples=80)
def yearly_budget(env):
    """For every parameter set, state, effective feedback, hemispheric forcing and within-year volcanic series: the heat
    gained by the layers is forcing - lambda_eff T_fast - (eff-1) k (T_fast - T_slow); all outputs are those of the state."""
    m = env.mod(MOD)
    p = pars(env)
    tl = m.TwoLayerOceanModel(dict(p))
    tf, ts = env.anyreal("tf", -5, 8), env.anyreal("ts", -5, 8)
    lam = env.pos("lameff", 0.2, 5)
    env.set(tl, "temp_fast", tf)
    env.set(tl, "temp_slow", ts)
    env.set(tl, "lambda_eff", lam)
    fn, fs = env.anyreal("fn"), env.anyreal("fs")
    n = env.int("n", 1, None, 1, 14)
    vn, vs = env.arr("vn", n), env.arr("vs", n)
    env.cover()
    out = tl.energy_budget(fn, fs, vn, vs)
    vol = (env.sum(0, n, lambda j: env.elem(vn, j)) / n + env.sum(0, n, lambda j: env.elem(vs, j)) / n) / 2
    forc = (fn + fs) / 2 + vol
    cf, cs = cap(p, "mixed"), cap(p, "deep")
    Tf, Ts = out["dtemp_fast"], out["dtemp_slow"]
    env.eq("fast output is the fast state", Tf, env.get(tl, "temp_fast"))
    env.eq("slow output is the slow state", Ts, env.get(tl, "temp_slow"))
    env.eq("energy budget of both layers", cf * (Tf - tf) + cs * (Ts - ts),
           forc - lam * tf - (p["ocean_efficacy"] - 1) * p["k"] * (tf - ts), atol=1e-7)
    env.eq("heat reaching the deep layer", cs * (Ts - ts), p["k"] * (tf - ts), atol=1e-7)
    env.eq("TOA imbalance", out["RIB"], forc - lam * Tf - (p["ocean_efficacy"] - 1) * p["k"] * (Tf - Ts), atol=1e-8)
    fo = (p["foan"] + p["foas"]) / 2
    env.eq("global temperature", out["dtemp"], forc / lam * (1 - fo) + Tf * fo, atol=1e-8)
    env.eq("sea temperature", out["dtemp_sea"], Tf)
    area = env.lit("3.61e14")
    om = Tf * p["mixed"] * 1000 * 4184 * area / env.lit("1e22")
    od = Ts * p["deep"] * 1000 * 4184 * area / env.lit("1e22")
    env.eq("OHC mixed", out["OHC_MIXED"], om)
    env.eq("OHC deep", out["OHC_DEEP"], od)
    env.eq("OHC total", out["OHCTOT"], om + od)
    inner = om + od * env.min((700 - p["mixed"]) / p["deep"], 1)
    env.eq("OHC above 700 m", out["OHC700"], env.ite(p["mixed"] >= 700, om * 700 / p["mixed"], inner))
    env.eq("feedback unchanged by the step", env.get(tl, "lambda_eff"), lam)


@contract(REG, functions=[CLS + ".energy_budget", CLS + ".__init__"], samples=40)
def rest_and_hemispheric_symmetry(env):
    """A new model is at rest; with zero forcing it stays there with zero outputs; and redistributing the forcing between
    the hemispheres without changing its mean changes no output."""
    m = env.mod(MOD)
    p = pars(env)
    a = m.TwoLayerOceanModel(dict(p))
    import numpy as np
    z = np.zeros(12) if not env.symbolic else env.mod(MOD).np.zeros(12)
    env.cover()
    out = a.energy_budget(0, 0, z, z)
    for k in ("dtemp", "dtemp_fast", "dtemp_slow", "RIB", "OHCTOT", "OHC_MIXED", "OHC_DEEP", "OHC700", "dtemp_sea"):
        env.eq("zero at rest " + k, out[k], 0)
    fn, fs, d = env.anyreal("fn"), env.anyreal("fs"), env.anyreal("d")
    vn, vs = env.arr("vn", 12), env.arr("vs", 12)
    tf, ts = env.anyreal("tf", -5, 8), env.anyreal("ts", -5, 8)
    b = m.TwoLayerOceanModel(dict(p))
    for x in (a, b):
        env.set(x, "temp_fast", tf)
        env.set(x, "temp_slow", ts)
    o1 = a.energy_budget(fn, fs, vn, vs)
    o2 = b.energy_budget(fn + d, fs - d, vn, vs)
    b2 = m.TwoLayerOceanModel(dict(p))
    env.set(b2, "temp_fast", tf)
    env.set(b2, "temp_slow", ts)
    o3 = b2.energy_budget(fn, fs, vs, vn)
    for k in o1:
        env.eq("same mean, same " + k, o1[k], o2[k], atol=1e-7)
        env.eq("volcanic forcing swapped between hemispheres, same " + k, o1[k], o3[k], atol=1e-7)


@contract(REG, functions=[CLS + ".__init__", CLS + ".energy_budget", "_utils.cut_and_check_pamset"], samples=60)
def heat_capacities(env):
    """Construction: the heat capacities are those of the given depths (water, per ocean area, W yr m-2 K-1) and the state is zero."""
    m = env.mod(MOD)
    p = pars(env)
    env.cover()
    tl = m.TwoLayerOceanModel(dict(p))
    env.eq("c_fast", tl.pamset["c_fast"], cap(p, "mixed"))
    env.eq("c_slow", tl.pamset["c_slow"], cap(p, "deep"))
    env.eq("lambda_eff", env.get(tl, "lambda_eff"), p["lambda"])
    env.eq("T fast", env.get(tl, "temp_fast"), 0)
    env.eq("T slow", env.get(tl, "temp_slow"), 0)
    for k in p:
        env.eq("kept " + k, tl.pamset[k], p[k])


@contract(REG, functions=[CLS + ".energy_budget", CLS + ".set_feedback_gregory"], samples=60, public=True)
def budget_along_a_history(env):
    """The same budget year after year from rest, stated on the outputs alone (the state of a year is the reported layer
    temperatures of the year before), with the feedback changing from year to year."""
    m = env.mod(MOD)
    p = pars(env)
    tl = m.TwoLayerOceanModel(dict(p))
    cf, cs = cap(p, "mixed"), cap(p, "deep")
    tf = ts = 0
    env.cover()
    for yr in range(3 if env.symbolic else 25):
        fn, fs = env.anyreal(f"fn{yr}"), env.anyreal(f"fs{yr}")
        vn, vs = env.arr(f"vn{yr}", 12), env.arr(f"vs{yr}", 12)
        w = env.real(f"w{yr}", 0, 1)
        lam = p["lambda"] + w * p["delta_lambda_aero"]
        env.assume(lam > env.lit("0.1"))
        tl.set_feedback_gregory(w)
        env.eq("effective feedback", tl.get_feedback_gregory(), lam)
        out = tl.energy_budget(fn, fs, vn, vs)
        forc = (fn + fs) / 2 + sum(vn[i] + vs[i] for i in range(12)) / 24
        Tf, Ts = out["dtemp_fast"], out["dtemp_slow"]
        env.eq("energy budget", cf * (Tf - tf) + cs * (Ts - ts), forc - lam * tf - (p["ocean_efficacy"] - 1) * p["k"] * (tf - ts), atol=1e-6)
        env.eq("deep layer", cs * (Ts - ts), p["k"] * (tf - ts), atol=1e-6)
        env.eq("TOA imbalance", out["RIB"], forc - lam * Tf - (p["ocean_efficacy"] - 1) * p["k"] * (Tf - Ts), atol=1e-6)
        fo = (p["foan"] + p["foas"]) / 2
        env.eq("global temperature", out["dtemp"], forc / lam * (1 - fo) + Tf * fo, atol=1e-6)
        tf, ts = Tf, Ts
