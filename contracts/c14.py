"""C14 repeated runs are independent and leave the user's data untouched"""
from pyvc.contract import contract
from . import _handler as H
from .c13 import flat, same_results, UDM, TWO, num

LEVEL = "proof"
REG = []
TRUSTED = []
ASSUMPTIONS = ["independence of whole runs follows from the reset and frame contracts together with the driver contract (C15); carbon-cycle parameters are documented to stay until changed and are excluded"]


class Carbon:
    pv_heap = True

    def __init__(self, env):
        self.v = env.pos("carbon answer", 300, 500)
        self.resets = []

    def reset_co2_hold(self, pamset_carbon=None):
        self.resets.append(pamset_carbon)

    def co2em2conc(self, yr, em_co2_common, feedback_dict=None):
        return self.v


@contract(REG, functions=[H.CLS + ".reset_with_new_pams", H.CLS + ".avoid_regional_double_counting"], samples=60)
def reset_forgets_the_last_run(env):
    """From any state left by any run and any parameters: after the reset there are no concentrations, all forcings and the total are zero,
    the carbon cycle has been reset with the parameters given, and the forcing parameters are those given or the defaults."""
    s = H.build(env)
    h = s.h
    h.carbon_cycle = Carbon(env)
    h.forc = {t: env.arr("old." + t, s.ny) for t in s.tracers}
    h.forc["Total_forcing"] = env.arr("old.total", s.ny)
    h.precalc_dict["gases_list_spicy"] = list(s.tracers) + ["CO2.1"]
    h.pamset["just_one"] = "CH4"
    reg = env.choice("regional", [True, False])
    if not reg:
        h.df_gas = env.gastable({t: s.gas[t] for t in s.tracers if t not in H.REG})
        h.precalc_dict["gases_list_spicy"] = [t for t in s.tracers if t not in H.REG]
    em, cin = h.emis, h.conc_in
    q = {"qbc": env.anyreal("new qbc"), "qo3": env.anyreal("new qo3"), "qnox": env.anyreal("new qnox")}
    cp = {"beta_f": env.anyreal("bf")}
    env.cover()
    h.reset_with_new_pams(dict(q), cp)
    tr = [t for t in s.tracers if reg or t not in H.REG]
    i = env.int("any year", 0, None, 0, 12)
    env.assume(i < s.ny)
    for t in tr + ["Total_forcing"]:
        env.eq("forcing cleared: " + t, env.elem(h.forc[t], i), 0)
        env.eq("forcing length: " + t, env.length(h.forc[t]), s.ny)
    env.check("forcings of the components", set(h.forc) == set(tr) | {"Total_forcing"})
    for t in tr:
        if s.gas[t]["CONC_UNIT"] != "-" or t == "TROP_O3":
            env.check("concentrations cleared: " + t, t in h.conc and len(h.conc[t]) == 0)
    env.check("carbon cycle reset with the parameters given", len(h.carbon_cycle.resets) == 1 and h.carbon_cycle.resets[0] == cp)
    env.eq("qbc", h.pamset["qbc"], 0 if reg else q["qbc"])
    env.eq("qoc", h.pamset["qoc"], 0 if reg else -env.lit("0.00433"))
    env.eq("qdirso2", h.pamset["qdirso2"], 0 if reg else -env.lit("0.00308"))
    env.eq("qo3", h.pamset["qo3"], q["qo3"])
    env.eq("qnox", h.pamset["qnox"], q["qnox"])
    env.eq("qbmb", h.pamset["qbmb"], 0)
    env.check("no single component left over", "just_one" not in h.pamset)
    env.check("input tables kept", h.emis is em and h.conc_in is cin)


def inputs_untouched(env, s, before, y):
    for nm, f in before.items():
        g = getattr(s.h, nm)
        for c in f.columns:
            env.eq(f"{nm} {c} unchanged", g[c][y], f[c][y])


def untouched(env, s, call):
    h = s.h
    before = {nm: getattr(h, nm).copy() for nm in ("emis", "conc_in", "nat_emis_ch4", "nat_emis_n2o")}
    y = s.y0 + env.int("any", 0, None, 0, 12)
    env.assume(y <= s.y1)
    env.cover()
    call()
    inputs_untouched(env, s, before, y)
    for t in h.df_gas.index:
        for c in ("ALPHA", "BETA", "TAU1", "NAT_EM", "SARF_TO_ERF"):
            if c == "NAT_EM" and t in ("CH4", "N2O"):
                continue        # the handler's own copy of the table holds the current year's value here
            env.eq(f"gas parameter {t} {c}", h.df_gas[c][t], s.gas[t][c])


@contract(REG, functions=[H.CLS + ".conc2forc"], samples=60)
def forcing_leaves_the_inputs(env):
    """From any state: a year's forcings change no emission, prescribed concentration, natural emission or gas parameter, of any year."""
    s = H.build(env)
    luc, sun = env.anyreal("luc", -1, 1), env.anyreal("sun", -1, 1)
    untouched(env, s, lambda: s.h.conc2forc(s.yr, luc, sun))


@contract(REG, functions=[H.CLS + ".emi2conc"], samples=60)
def concentrations_leave_the_inputs(env):
    """From any state: a year's concentrations change no emission, prescribed concentration, natural emission or gas parameter, of any
    year."""
    from .c04 import state
    s = state(env)
    h = s.h
    if not env.symbolic:
        h.emis = env.yframe("em", H.EMSP, min(s.y0, 2000), max(s.y1, 2000), slo=0, shi=50)
    if env.choice("conc_run", [False, True]):
        h.pamset["conc_run"] = True
    untouched(env, s, lambda: h.emi2conc(s.yr, s.fb))


def frames_of(s):
    out = {}
    for nm in ("gaspam", "emis", "conc", "natch4", "natn2o", "sun", "volc_n", "volc_s", "luc", "pert_em", "pert_forc"):
        f = getattr(s, nm)
        if f is not None:
            out[nm] = f
    return out


@contract(REG, functions=["ciceroscm.CICEROSCM._run", "ciceroscm.CICEROSCM.__init__", H.CLS + ".__init__", H.CLS + ".add_results_to_dict", H.CLS + ".reset_with_new_pams"],
          samples=14, thorough=250, symbolic=False, public=True)
def sequences_of_runs(env):
    """Random sequences of runs on one instance with other forcing and thermal parameters, other component settings, interleaved with other
    instances: each run equals a fresh instance's, and the results kept from earlier runs, the tables and arrays passed in and the
    parameter values passed in stay as they were. (bounded)"""
    import copy
    import pandas as pd
    from . import _scen as S
    s = S.scen(env, pert_em=env.choice("pe", [False, True]), pert_forc=env.choice("pf", [False, True]))
    R = s.R
    orig = {k: v.copy(deep=True) for k, v in frames_of(s).items()}

    def variant():
        e = {k: R.uniform(-0.05, 0.05) for k in S.QDEF if R.random() < 0.5 and k != "ref_yr"}
        if R.random() < 0.5:
            e["ref_yr"] = R.choice(s.years)
        if R.random() < 0.5:
            e["lifetime_mode"] = R.choice(["TAR", "CONSTANT_12", "WIGLEY"])
        if R.random() < 0.3:
            e["just_one"] = R.choice(["CO2", "CH4", "SO2"] + s.halo[:1])
        u = S.udm_pams(R, s.thermal)
        if R.random() < 0.4:
            u["delta_lambda_aero"] = R.uniform(-0.3, 0.3)
        if s.thermal == "default" and R.random() < 0.3:
            u["lm"] = R.choice([10, 20, 40])
        return u, e

    def go(m, v):
        m._run(dict(S.FIXED), pamset_udm=dict(v[0]), pamset_emiconc=dict(v[1]))
        return m.results
    vs = [variant() for _ in range(2)]
    fresh = []
    for v in vs:
        fresh.append(copy.deepcopy(go(S.model(env, s), v)))
    m = S.model(env, s)
    kept = []
    for i in [0, 1, 0]:
        r = go(m, vs[i])
        same_results(env, f"run {len(kept)} of the sequence", r, fresh[i])
        kept.append((i, {k: v for k, v in r.items()}))
        if R.random() < 0.5:
            go(S.model(env, s), variant())      # another instance on the same data
    for i, r in kept:
        same_results(env, "earlier results kept", r, fresh[i])
    # defaults after a run with parameters are the defaults of a fresh instance
    a = S.model(env, s)
    a._run(dict(S.FIXED))
    m._run(dict(S.FIXED))
    same_results(env, "no parameters", m.results, a.results)
    for k, f in orig.items():
        env.check(f"{k} table unchanged", getattr(s, k).equals(f) and list(getattr(s, k).columns) == list(f.columns) and list(getattr(s, k).index) == list(f.index)
                  and getattr(s, k).index.name == f.index.name and getattr(s, k).columns.name == f.columns.name)


@contract(REG, functions=["ciceroscm.CICEROSCM._run", "ciceroscm.CICEROSCM.forc_set"], samples=10, thorough=150, symbolic=False, public=True)
def sequences_of_forcing_runs(env):
    """The same for prescribed forcing. (bounded)"""
    import copy
    import random
    import numpy as np
    import pandas as pd
    from . import _scen as S
    R = random.Random(env.int("seed", 0, None, 0, 2 ** 30))
    u = R.uniform
    y0, n = R.randint(1750, 1990), R.randint(3, 20)
    years = list(range(y0, y0 + n))
    thermal = R.choice(["default", "twolayer"])
    series = R.random() < 0.5
    data = np.array([u(-1, 5) for _ in years]) if series else pd.DataFrame({c: [u(-1, 5) for _ in years] for c in ("FORC_NH", "FORC_SH", "total", "w_aero")}, index=years)
    sun = pd.DataFrame([u(-0.3, 0.3) for _ in years], index=years)
    volc = pd.DataFrame([[u(-1, 0.1) for _ in range(12)] for _ in years], index=years)
    C = env.mod("").CICEROSCM
    keep = [x.copy() for x in (data, sun, volc)]
    mk = lambda: C({"nystart": y0, "nyend": y0 + n - 1, "forc_data": data, "thermal_model": thermal, "sunvolc": 1, "rf_sun_data": sun, "rf_volc_n_data": volc, "rf_volc_s_data": volc})
    vs = []
    for _ in range(2):
        p = S.udm_pams(R, thermal)
        if R.random() < 0.5:
            p["delta_lambda_aero"] = u(-0.3, 0.3)
        vs.append(p)

    def go(m, p):
        m._run({"results_as_dict": True}, pamset_udm=p)
        return m.results
    fresh = [copy.deepcopy(go(mk(), dict(p))) for p in vs]
    m = mk()
    kept = []
    for i in (0, 1, 0, 1):
        r = go(m, dict(vs[i]))
        same_results(env, f"run {len(kept)}", r, fresh[i])
        kept.append((i, {k: v for k, v in r.items()}))
    for i, r in kept:
        same_results(env, "earlier results kept", r, fresh[i])
    for a, b in zip((data, sun, volc), keep):
        env.check("data unchanged", np.array_equal(np.array(a), np.array(b)))
        if isinstance(b, pd.DataFrame):
            env.check("labels unchanged", a.index.equals(b.index) and a.columns.equals(b.columns) and a.index.name == b.index.name and a.columns.name == b.columns.name)


def alone(f):
    """the value of f() in a process of its own, that has run nothing else since it started"""
    import os
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, "wb") as h:
                try:
                    pickle.dump((True, f()), h)
                except Exception as e:  # pylint: disable=broad-except
                    pickle.dump((False, repr(e)), h)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as h:
        ok, v = pickle.load(h)
    os.waitpid(pid, 0)
    if not ok:
        raise RuntimeError(v)
    return v


@contract(REG, functions=["ciceroscm.CICEROSCM._run", "ciceroscm.CICEROSCM.forc_set", H.CLS + ".reset_with_new_pams"], samples=12, thorough=80, symbolic=False, public=True)
def neighbouring_runs_of_a_process(env):
    """Runs in one process, on one instance or several, where each differs from the one before in a single value (of a parameter, a
    response function, an input table, the gas table or the prescribed forcing): each gives what it gives in a process of its own. (bounded)"""
    import copy
    import numpy as np
    from . import _scen as S
    s = S.scen(env, pert_em=env.choice("pe", [False, True]), pert_forc=env.choice("pf", [False, True]), thermal=env.choice("thermal", ["default", "default", "twolayer"]),
               carbon=env.choice("carbon", ["default", "default", "box"]))
    R = s.R
    if s.carbon == "default":
        S.carbon_pams(s)
    else:
        s.carb = {"beta_f": R.uniform(0.2, 0.4)}
    lim = {"rlamdo": (5, 25), "akapa": (0.1, 0.8), "cpi": (0.2, 0.5), "W": (0.6, 2.5), "beto": (1, 7), "threstemp": (2, 9), "lambda": (0.4, 1.2), "mixed": (30, 120), "foan": (0.5, 0.7), "foas": (0.7, 0.9),
           "ebbeta": (0, 1), "ocean_efficacy": (0.8, 1.2), "delta_lambda_aero": (-0.3, 0.3), "fnso": (0.6, 0.9), "lm": (10, 40), "ldtime": (2, 12)}
    if s.thermal == "twolayer":
        lim = {"lambda": (0.4, 1.2), "mixed": (30, 120), "deep": (500, 2000), "k": (0.3, 1), "ocean_efficacy": (0.8, 1.2), "foan": (0.5, 0.7), "foas": (0.7, 0.9), "delta_lambda_aero": (-0.3, 0.3)}
    clim = {"beta_f": (0.2, 0.4), "mixed_carbon": (40, 120), "solubility_sens": (0.01, 0.03), "t_half": (0.3, 0.8), "ml_fracmax": (0.3, 0.8)} if s.carbon == "default" else \
        {"beta_f": (0.2, 0.4), "soil_respiration_rate": (0.01, 0.03), "ocean_exchange_rate": (0.005, 0.02), "ocean_mixed_layer_depth": (20, 60)}
    base = dict(s.udm)
    for k in lim:
        if k not in ("lm", "ldtime"):
            base.setdefault(k, R.uniform(*lim[k]))
    base.update({"lm": 20, "ldtime": 12} if s.thermal == "default" else {})
    st = {"u": base, "e": dict(s.emiconc), "c": dict(s.carb, **{k: R.uniform(*v) for k, v in clim.items()}), "s": s}

    def step(st):
        st = dict(st, u=dict(st["u"]), e=dict(st["e"]), c=copy.deepcopy(st["c"]))
        kind = R.choice(["u", "u", "u", "e", "c", "table", "gas"])
        if kind == "u":
            k = R.choice(sorted(lim))
            st["u"][k] = R.randint(*lim[k]) if k == "lm" else (R.choice([2, 3, 4, 6, 12]) if k == "ldtime" else R.uniform(*lim[k]))
        elif kind == "e":
            k = R.choice(sorted(S.QDEF) + ["lifetime_mode"])
            st["e"][k] = R.choice(s.years) if k == "ref_yr" else (R.choice(["TAR", "CONSTANT_12", "WIGLEY"]) if k == "lifetime_mode" else R.uniform(-0.05, 0.05))
        elif kind == "c":
            fs = [k for k in st["c"] if isinstance(st["c"][k], dict)]
            if fs and R.random() < 0.5:
                f = st["c"][R.choice(fs)]["timescales"]
                f[R.randrange(len(f))] *= R.uniform(1.1, 1.5)
            else:
                k = R.choice(sorted(clim))
                st["c"][k] = R.uniform(*clim[k])
        else:
            n = copy.copy(st["s"])
            st["s"] = n
            if kind == "gas":
                n.gaspam = n.gaspam.copy()
                n.gaspam.loc[R.choice([g for g in n.halo]), R.choice(["TAU1", "ALPHA", "SARF_TO_ERF", "BETA"])] *= 1.5
            else:
                k = R.choice(["emis", "conc", "luc", "sun", "volc_n", "volc_s"])
                f = getattr(n, k).copy()
                f.iloc[R.randrange(len(f)), R.randrange(f.shape[1])] *= 1.4
                setattr(n, k, f)
        return st

    def go(st, m=None):
        m = m or S.model(env, st["s"])
        m._run(dict(S.FIXED), pamset_udm=dict(st["u"]), pamset_emiconc=dict(st["e"]), pamset_carbon=copy.deepcopy(st["c"]))
        return m, m.results
    sts = [st]
    for _ in range(6):
        sts.append(step(sts[-1]))
    want = [alone(lambda x=x: go(x)[1]) for x in sts]
    last = None
    for i, x in enumerate(sts):
        m, r = go(x, last[0] if last and last[1] is x["s"] and R.random() < 0.4 else None)
        last = (m, x["s"])
        same_results(env, f"run {i} of the process", r, want[i])
