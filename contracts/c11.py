"""C11 thermal-model diagnostics are consistent with its state"""
from pyvc.contract import contract
from . import c10 as T

LEVEL = "proof"
REG = []
MOD, CLS, SPY = T.MOD, T.CLS, T.SPY
F = [CLS + ".energy_budget", CLS + "._calculate_anomalous_radiation"]
TRUSTED = T.TRUSTED


def ohc(env, p, dz, tn, ts, above=None):
    """depth integral of the anomaly (1e22 J): rho * (heat capacity) * hemispheric area * sum of depth * area-weighted temperature"""
    k = env.lit("1030") * env.lit("3.997e-19") * env.lit("2.55e14")
    tot, top = 0, 0
    for i in range(len(tn)):
        d = dz[i]
        if above is not None:
            d = env.max(env.min(dz[i], above - top), 0)
            top = top + dz[i]
        tot = tot + d * (p["foan"] * tn[i] + p["foas"] * ts[i])
    return k * tot


def stub(env, u):
    if env.symbolic and hasattr(u, "ocean_temperature"):
        u.ocean_temperature = lambda *a, **k: {"OHC700": env.anyreal("OHC700"), "OHCTOT": env.anyreal("OHCTOT")}


def relations(env, p, o, dz, tn0, ts0, pf, f, vn, vs, n, rl, lm):
    s = dict(n="nh", s="sh")
    nv = len(vn) if not env.symbolic else int(vn.shape[0])
    fo = {"n": p["foan"], "s": p["foas"]}
    v = {"n": vn, "s": vs}
    for h in "ns":
        env.eq("surface temperature = ocean part of the sea surface plus land part of the air " + h, o["dtemp" + s[h]],
               fo[h] * o[f"dtemp{s[h]}_sea"] + (1 - fo[h]) * o[f"dtemp{s[h]}_air"], atol=1e-8)
        q = sum(T.subforc(n, pf[h], f[h], v[h], k) for k in range(n)) / n
        oth = "s" if h == "n" else "n"
        env.eq("air temperature balances forcing, feedback, exchange with the sea surface and the other hemisphere " + h,
               (rl + fo[h] * p["rlamdo"] + p["ebbeta"]) * o[f"dtemp{s[h]}_air"] - p["ebbeta"] * o[f"dtemp{s[oth]}_air"],
               q + fo[h] * p["rlamdo"] * o[f"dtemp{s[h]}_sea"], atol=1e-7)
    env.eq("global surface", 2 * o["dtemp"], o["dtempnh"] + o["dtempsh"])
    env.eq("global air", 2 * o["dtemp_air"], o["dtempnh_air"] + o["dtempsh_air"])
    env.eq("global sea", 2 * o["dtemp_sea"], o["dtempnh_sea"] + o["dtempsh_sea"])
    uptake = sum(dz[i] * (p["foan"] * (o["tn"][i] - tn0[i]) + p["foas"] * (o["ts"][i] - ts0[i])) for i in range(1, lm))
    an = (p["ocean_efficacy"] - 1) * 1000 * 4184 / SPY * uptake
    for h in "ns":
        env.eq("imbalance " + h, o["RIB" + h.upper()], f[h] + sum(v[h][i] for i in range(nv)) / nv - rl * o["dtemp" + s[h]] - an, atol=1e-6)
    env.eq("global imbalance", 2 * o["RIB"], o["RIBN"] + o["RIBS"], atol=1e-8)


@contract(REG, functions=F, samples=40)
def outputs_of_a_year(env):
    """Any state, parameters (air exchange and efficacy included), forcing and volcanic series: the reported temperatures and
    imbalances are the stated combinations. 1 to 3 sub-steps and 4 layers (concretely 12 and 40)."""
    m = env.mod(MOD)
    lm = 4 if env.symbolic else 40
    n = env.choice("steps", [1, 2, 3]) if env.symbolic else env.choice("steps", [1, 12])
    p = T.pars(env, lm, n, env.choice("thres", [True, False]), env.choice("eff", [True, False]), env.choice("eb", [True, False]))
    u = m.UpwellingDiffusionModel(dict(p))
    tn, ts, pf = T.state(env, u, lm)
    f = {h: env.anyreal("f" + h) for h in "ns"}
    vn, vs = env.arr("vn", 12), env.arr("vs", 12)
    env.cover()
    stub(env, u)
    if env.symbolic:
        env.c.store_solves.clear()
    o = u.energy_budget(f["n"], f["s"], vn, vs)
    relations(env, p, o, T.depth(p, lm), tn, ts, {"n": pf[0], "s": pf[1]}, f, vn, vs, n, 1 / p["lambda"], lm)
    if env.symbolic:
        sol = env.c.store_solves
        if len(sol) == 2 * n:
            for h, so, k in (("nh", sol[0::2], "tn"), ("sh", sol[1::2], "ts")):
                env.eq("sea surface = mean over the sub-steps of the top layer " + h, n * o[f"dtemp{h}_sea"], sum(x[0][0] for x in so))
                for i in range(lm):
                    env.eq("reported profile is the state", o[k][i], so[-1][0][i])
    for k, h in (("tn", "nh"), ("ts", "sh")):
        st = env.get(u, k)
        for i in range(lm):
            env.eq("profile is the state", o[k][i], st[i])
        if n == 1:
            env.eq("sea surface of a single step is its top layer", o[f"dtemp{h}_sea"], o[k][0])


@contract(REG, functions=[CLS + ".ocean_temperature"], samples=60)
def heat_content(env):
    """Any state, ocean fractions and mixed-layer depth below 700 m: total and upper-700 m heat content are the depth integrals."""
    m = env.mod(MOD)
    lm = env.choice("lm", [8, 12]) if env.symbolic else 40
    p = T.pars(env, lm, 2, False, False)
    band = env.choice("band", [0, 1, 2, 3, 4, 5, 6])
    if not env.symbolic:
        p["mixed"] = 100 * band + env.real("m", sample=(1, 99.5))
    env.assume(p["mixed"] >= 100 * band)
    env.assume(p["mixed"] < 100 * band + 100)
    u = m.UpwellingDiffusionModel(dict(p))
    tn, ts, pf = T.state(env, u, lm)
    env.cover()
    if not hasattr(u, "ocean_temperature"):
        from pyvc.env import AnchorMissing
        raise AnchorMissing("ocean_temperature")
    o = u.ocean_temperature()
    dz = T.depth(p, lm)
    env.eq("total heat content", o["OHCTOT"], ohc(env, p, dz, tn, ts))
    # layers 0 .. 6-band lie above 700 m, the next one down to 700 m
    up = dz[:7 - band] + [700 - p["mixed"] - 100 * (6 - band)]
    env.eq("heat content above 700 m", o["OHC700"], ohc(env, p, up, tn[:8 - band], ts[:8 - band]))


@contract(REG, functions=F + [CLS + ".ocean_temperature"], samples=40, thorough=600, symbolic=False, public=True)
def diagnostics_along_a_history(env):
    """Years from rest, every relation among the reported outputs and inputs. (bounded)"""
    import random
    import numpy as np
    R = random.Random(env.int("seed", 0, None, 0, 2 ** 30))
    u_ = R.uniform
    p = {"lambda": u_(0.4, 1.2), "rlamdo": u_(6, 25), "W": u_(0, 6), "foan": u_(0.4, 0.8), "foas": u_(0.6, 0.9), "mixed": R.choice([u_(25, 190), u_(25, 690), 100.0]),
         "akapa": u_(0.05, 1), "cpi": u_(0.1, 0.8), "beto": u_(0, 7), "threstemp": R.choice([0, u_(2, 9)]), "ldtime": R.choice([1, 6, 12, 24]),
         "delta_lambda_aero": R.choice([0.0, u_(-0.3, 1)]), "ebbeta": R.choice([0.0, u_(0, 1)]), "ocean_efficacy": R.choice([1.0, u_(0.8, 1.4)])}
    u = env.mod(MOD).UpwellingDiffusionModel(dict(p))
    lm, n = 40, p["ldtime"]
    dz = T.depth(p, lm)
    tn = ts = np.zeros(lm)
    pf = {"n": 0.0, "s": 0.0}
    for yr in range(6):
        w = R.random()
        u.set_feedback_gregory(w)
        f = {"n": u_(-2, 4), "s": u_(-2, 4)}
        v = [np.array([u_(-2, 0.2) for _ in range(12)]) for _ in range(2)]
        o = u.energy_budget(f["n"], f["s"], *v)
        relations(env, p, o, dz, tn, ts, pf, f, v[0], v[1], n, 1 / p["lambda"] + w * p["delta_lambda_aero"], lm)
        tn, ts, pf = np.array(o["tn"]), np.array(o["ts"]), f
        env.eq("total heat content", o["OHCTOT"], ohc(env, p, dz, tn, ts))
        env.eq("heat content above 700 m", o["OHC700"], ohc(env, p, dz, tn, ts, 700))


@contract(REG, functions=["ciceroscm.CICEROSCM._run", "ciceroscm.CICEROSCM.add_year_data_to_output"], samples=10, thorough=200, symbolic=False, public=True)
def diagnostics_of_whole_runs(env):
    """The yearly series a run reports under its result names obey the same relations. (bounded)"""
    from . import _scen as S
    import numpy as np
    s = S.scen(env, thermal="default")
    r = S.run(env, s)
    a = {k: np.array(r[k], dtype=float) for k in r if np.ndim(r[k]) == 1 and not hasattr(r[k], "columns")}
    fn, fs = s.udm.get("foan", 0.61), s.udm.get("foas", 0.81)
    sh_sea = a["dT_SHsea"] if "dT_SHsea" in a else a["dT_SH_sea"]
    env.eq("NH", a["dT_NH"], fn * a["dT_NH_sea"] + (1 - fn) * a["dT_NH_air"], atol=1e-8)
    env.eq("SH", a["dT_SH"], fs * sh_sea + (1 - fs) * a["dT_SH_air"], atol=1e-8)
    for g, x, y in (("dT_glob", a["dT_NH"], a["dT_SH"]), ("dT_glob_air", a["dT_NH_air"], a["dT_SH_air"]), ("dT_glob_sea", a["dT_NH_sea"], sh_sea), ("RIB_glob", a["RIB_N"], a["RIB_S"])):
        env.eq(g, 2 * a[g], x + y, atol=1e-8)
