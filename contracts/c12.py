"""C12 aerosol pattern feedback"""
from pyvc.contract import contract
from . import _handler as H

LEVEL = "proof"
REG = []
AEROS = lambda t: t in ("NMVOC", "NH3", "NOx") or t[:2] in ("BC", "OC", "SO", "BM")


@contract(REG, functions=[H.CLS + ".conc2forc"], samples=80)
def aerosol_weight(env):
    """For every year, component forcings and perturbation: the weight is the aerosol share of the summed absolute component
    forcings stored for that year, between 0 and 1, and 0 when there is no forcing. (symbolically the forcing relations enter
    by their contracts: any values; they are proved in C03)"""
    pert = env.choice("pert", [None, ["SO2"], ["CO2"], ["OTHER"]])
    s = H.build(env, tracers=H.MAIN + (["BC", "OTHER"] if pert == ["OTHER"] else ["SO2", "NH3", "SO2_ASIA", "LANDUSE"]), pert=pert)
    if env.symbolic:
        h = s.h
        main = {t: env.anyreal("f." + t) for t in H.MAIN}
        aer = {t: env.anyreal("f." + t) for t in s.tracers}

        def three(yr):
            for t in H.MAIN:
                h.forc[t][yr - h.years[0]] = main[t]
            q = sum(main.values())
            return q, q, q
        if not (hasattr(h, "calculate_forc_three_main") and hasattr(h, "calc_aerosol_forcing")):
            from pyvc.env import AnchorMissing
            raise AnchorMissing("forcing methods")
        h.calculate_forc_three_main = three
        h.calc_aerosol_forcing = lambda yr, t: aer[t]
    env.cover()
    w = s.h.conc2forc(s.yr, env.anyreal("luc", -1, 1), env.anyreal("sun", -1, 1))[3]
    f = {t: H.absval(env, env.elem(s.h.forc[t], s.idx)) for t in s.tracers}
    tot = sum(f.values())
    aero = sum(f[t] for t in s.tracers if AEROS(t))
    env.eq("weight times sum", w * tot, aero)
    env.eq("no forcing, no weight", env.ite(tot > 0, 0, w), 0)
    env.le("at least 0", 0, w)
    env.le("at most 1", w, 1)


UDM, TWO = "thermal_model.upwelling_diffusion_model", "thermal_model.two_layer_ocean"


@contract(REG, functions=[UDM + ".UpwellingDiffusionModel.set_feedback_gregory", UDM + ".UpwellingDiffusionModel.setup_ebud"], samples=60)
def effective_feedback_upwelling(env):
    """Every parameter set and sequence of two weights: the model then has exactly the feedback and coefficients of a model built with
    that effective feedback; with a zero coefficient those of the plain model."""
    m = env.mod(UDM)
    p = {"lambda": env.pos("lambda", 0.3, 2), "delta_lambda_aero": env.anyreal("d", -0.4, 1), "lm": 5, "ldtime": 12, "rlamdo": env.pos("rlamdo", 5, 25),
         "W": env.pos("W", 0.5, 5), "foan": env.pos("foan", 0.4, 0.8), "foas": env.pos("foas", 0.6, 0.9), "mixed": env.pos("mixed", 20, 90),
         "akapa": env.pos("akapa", 0.1, 1), "cpi": env.pos("cpi", 0.1, 0.8), "beto": env.pos("beto", 0.5, 7), "ebbeta": 0.0}
    w1, w2 = env.real("w1", 0, 1), env.real("w2", 0, 1)
    lam = 1 / p["lambda"] + w2 * p["delta_lambda_aero"]
    env.assume(lam > 0)
    env.assume(1 / p["lambda"] + w1 * p["delta_lambda_aero"] > 0)
    env.cover()
    u = m.UpwellingDiffusionModel(dict(p))
    u.set_feedback_gregory(w1)
    u.set_feedback_gregory(w2)
    env.eq("feedback", u.get_feedback_gregory(), lam)
    v = m.UpwellingDiffusionModel(dict(p, delta_lambda_aero=0.0, **{"lambda": 1 / lam}))
    same_state(env, u, v)


def same_state(env, u, v):
    for k in sorted(v.pamset):
        if k not in ("lambda", "delta_lambda_aero", "dt"):
            env.eq("parameter " + k, u.pamset[k], v.pamset[k])
    for k in sorted(getattr(v, "varrying", {})):
        a, b = u.varrying[k], v.varrying[k]
        if hasattr(b, "shape") and b.shape != ():
            for i in range(b.shape[0]):
                env.eq(f"coefficient {k}[{i}]", a[i], b[i])
        else:
            env.eq("coefficient " + k, a, b)


@contract(REG, functions=[TWO + ".TwoLayerOceanModel.set_feedback_gregory"], samples=60, public=True)
def effective_feedback_two_layer(env):
    """The same for the two-layer model."""
    two = env.mod(TWO).TwoLayerOceanModel
    d, lam = env.anyreal("d", -1, 1), env.pos("lambda", 1.1, 3)
    w1, w2 = env.real("w1", 0, 1), env.real("w2", 0, 1)
    env.cover()
    t = two({"lambda": lam, "delta_lambda_aero": d})
    t.set_feedback_gregory(w1)
    t.set_feedback_gregory(w2)
    env.eq("feedback", t.get_feedback_gregory(), lam + w2 * d)


@contract(REG, functions=[UDM + ".UpwellingDiffusionModel.energy_budget", TWO + ".TwoLayerOceanModel.energy_budget"], samples=30, thorough=300, symbolic=False, public=True)
def response_is_that_of_the_effective_feedback(env):
    """With a constant weight, every output of every year equals that of a model built with the effective feedback, for both
    models. (bounded)"""
    from . import _scen as S
    import random
    import numpy as np
    R = random.Random(env.int("seed", 0, None, 0, 2 ** 30))
    th = R.choice(["default", "twolayer"])
    T = env.mod("component_factory_functions").create_thermal_model(th)
    p = S.udm_pams(R, th)
    p.setdefault("lambda", 0.6)
    d, w = R.choice([0.0, R.uniform(-0.3, 1)]), R.choice([0.0, R.random()])
    eff = 1 / (1 / p["lambda"] + w * d) if th == "default" else p["lambda"] + w * d
    a, b = T(dict(p, delta_lambda_aero=d)), T(dict(p, **{"lambda": eff}))
    for _ in range(6):
        f = [R.uniform(-2, 4) for _ in range(2)]
        v = [np.array([R.uniform(-1, 0.1) for _ in range(12)]) for _ in range(2)]
        a.set_feedback_gregory(w)
        x, y = a.energy_budget(*f, *v), b.energy_budget(*f, *v)
        for k in y:
            env.eq(k, np.array(x[k], dtype=float), np.array(y[k], dtype=float))


@contract(REG, functions=["ciceroscm.CICEROSCM._run", H.CLS + ".conc2forc"], samples=30, thorough=400, symbolic=False, public=True)
def weight_of_whole_runs(env):
    """Whole runs: the weight of each year is the aerosol share of the yearly computed components, and the feedback it gives is
    the one the thermal model runs with. (bounded)"""
    from . import _scen as S
    import numpy as np
    s = S.scen(env, pert_forc=env.choice("pf", [True, False]))
    s.udm["delta_lambda_aero"] = env.choice("dl", [0.0, 0.7, -0.4])
    h = S.handler(env, s)
    W = []
    for y in s.years:
        h.emi2conc(y)
        t, n, q, w = h.conc2forc(y, S.luc(s, y), S.sun(s, y))
        W.append(w)
    f = h.add_results_to_dict({})["forcing"]
    spicy = [g for g in s.gases if g not in S.HALO and g != "STRAT_O3"]
    a = {g: np.abs(S.series(f, S.fcol(g), s.years)) for g in spicy}
    tot = sum(a.values())
    aer = sum(a[g] for g in spicy if S.is_aero(g))
    env.eq("weight", np.array(W, dtype=float), np.where(tot > 0, aer / np.where(tot > 0, tot, 1), 0.0))
    env.le("at most 1", np.array(W, dtype=float), 1.0)
    env.le("at least 0", 0.0, np.array(W, dtype=float))
    s.conc_run = True
    r = S.run(env, s)
    h = S.handler(env, s)
    T = env.mod("component_factory_functions").create_thermal_model(s.thermal)
    th = T(dict(s.udm))
    for i, y in enumerate(s.years):
        h.emi2conc(y)
        t, n, q, w = h.conc2forc(y, S.luc(s, y), S.sun(s, y))
        th.set_feedback_gregory(w)
        v = [np.array(x.loc[y]) if s.sunvolc else np.zeros(12) for x in (s.volc_n, s.volc_s)]
        o = th.energy_budget(n, q, v[0], v[1])
        env.eq("temperature with that feedback", r["dT_glob"][i], o["dtemp"])


@contract(REG, functions=["input_handler.read_forc", "ciceroscm.CICEROSCM.forc_set"], samples=30, thorough=300, symbolic=False, public=True)
def weight_from_a_forcing_file(env):
    """Forcing-driven runs: the weight read or computed from the columns of the file. (bounded)"""
    import os, shutil, tempfile
    import numpy as np
    import pandas as pd
    R = __import__("random").Random(env.int("seed", 0, None, 0, 2 ** 30))
    cols = R.sample(["CO2", "CH4", "SO2", "SO4_IND", "BC", "OC_ASIA", "OC", "NOx", "BMB_AEROS", "OTHER", "TROP_O3", "NH3", "NMVOC"], R.randint(1, 8))
    given = R.random() < 0.3
    ys = list(range(1990, 1990 + R.randint(2, 6)))
    df = pd.DataFrame({c: [0.0 if R.random() < 0.2 else R.uniform(-1, 2) for _ in ys] for c in cols}, index=pd.Index(ys, name="year"))
    if R.random() < 0.3:
        df.iloc[0, :] = 0.0
    if given:
        df["w_aero"] = [R.random() for _ in ys]
    d = tempfile.mkdtemp(prefix="vc12")
    try:
        p = os.path.join(d, "forc.csv")
        df.to_csv(p)
        out = env.mod("input_handler").read_forc(p)
        m = env.mod("").CICEROSCM({"nystart": ys[0], "nyend": ys[-1], "forc_file": p})
    finally:
        shutil.rmtree(d)
    aer = [c for c in cols if AEROS(c)]
    for i, y in enumerate(ys):
        if given:
            w = df.loc[y, "w_aero"]
        else:
            tot = sum(abs(df.loc[y, c]) for c in cols)
            w = sum(abs(df.loc[y, c]) for c in aer) / tot if tot > 0 and aer else 0.0
        env.eq("weight used", m.forc_set(y, pd.DataFrame([0.0] * len(ys)))[3], w)
