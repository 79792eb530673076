"""C08 back-calculated emissions reproduce the prescribed concentrations"""
from pyvc.contract import contract

LEVEL = "proof"
REG = []
CA = "carbon_cycle.carbon_cycle_abstract"
CM = "carbon_cycle.carbon_cycle_mod"
ABS = "carbon_cycle_abstract.AbstractCarbonCycleModel"
CLS = "carbon_cycle_mod.CarbonCycleModel"
TRUSTED = []
ASSUMPTIONS = ["the search is proved for every carbon cycle whose next state and concentration depend on year, state, emission and feedback only (arbitrary functions); "
               "that this one is of that kind is proved for 1 and 2 sub-steps in the first two years; that bisection of a monotone response reaches the tolerance within its iterations is bounded"]


def toy(env, m):
    """a carbon cycle with one state variable and an arbitrary response"""
    if env.symbolic:
        import z3
        from pyvc.core import Num, num
        R, I = z3.RealSort(), z3.IntSort()
        f, g = z3.Function("F", I, R, R, R, R), z3.Function("G", I, R, R, R, R)

        def F(y, s, e, t):
            return Num(f(num(y).e, num(s).real, num(e).real, num(t).real), False)

        def G(y, s, e, t):
            return Num(g(num(y).e, num(s).real, num(e).real, num(t).real), False)
    else:
        a, b = env.pos("a", 0.05, 0.5), env.pos("b", 0.1, 1)

        def F(y, s, e, t):
            return 280 + s + a * e - b * t + 0.01 * (y - 1750)

        def G(y, s, e, t):
            return 0.9 * s + 0.5 * a * e - 0.1 * t

    class Toy(m.AbstractCarbonCycleModel):
        pv_heap = True
        carbon_cycle_model_required_pamset = {}

        @classmethod
        def get_carbon_cycle_required_pamset(cls):
            return {}

        def __init__(self):
            self.pamset = {"idtm": 1, "nystart": 1750, "nyend": 1751, "years_tot": 2, "preindustrial_co2_conc": 280.0}
            self.state = 0
            self.calls = [0, 0]
            self.bad = 0

        def _get_co2_hold_values(self):
            return {"state": self.state}

        def _set_co2_hold(self, hold_dict=None):
            self.state = (hold_dict or {}).get("state", 0)

        def co2em2conc(self, yr, em_co2_common, feedback_dict=None):
            t = feedback_dict["dtemp"]
            x = F(yr, self.state, em_co2_common, t)
            self.state = G(yr, self.state, em_co2_common, t)
            self.calls[int(yr) - 1750] = self.calls[int(yr) - 1750] + 1
            return x

        def get_carbon_cycle_output(self, *a, **k):
            return None
    return Toy(), F, G


@contract(REG, functions=[ABS + "._guess_emissions_iteration", ABS + ".back_calculate_emissions", ABS + ".make_guess_emsize_estimates",
                          ABS + ".get_initial_max_min_guess", ABS + ".get_preindustrial_co2_conc"], samples=60)
def search_over_any_response(env):
    """For any carbon cycle with any response and any prescribed concentrations over two years: the inferred emissions, run forward from
    the initial state with the same feedbacks, give each year's concentration within the tolerance unless that year's search was
    exhausted, and leave the model in the state that forward run leaves. Whatever the model had been used for before."""
    m = env.mod(CA)
    model, F, G = toy(env, m)
    if env.choice("n", [1, 2]) == 1:
        n = 1
    else:
        n = 2
    c = [env.pos(f"c{i}", 270, 300) for i in range(n)]
    t = [env.anyreal(f"t{i}", -1, 2) for i in range(n)]
    model.state = env.anyreal("left over", -5, 5)
    env.cover()
    em = model.back_calculate_emissions(m.np.array(c), feedback_dict_series={"dtemp": m.np.array(t)})
    s = 0
    env.eq("one emission per year", len(em), n)
    for i in range(n):
        x = F(1750 + i, s, em[i], t[i])
        ok = env.le if not env.symbolic else None
        err = env.max(c[i] - x, x - c[i])
        if env.symbolic:
            import z3
            from pyvc.core import boolterm
            env.check(f"year {i}: concentration reproduced unless the search was exhausted",
                      (err <= env.lit("1e-7") * c[i]) | (model.calls[i] >= 101))
        else:
            env.check(f"year {i}: concentration reproduced unless the search was exhausted", err <= 1.0001e-7 * c[i] or model.calls[i] >= 101)
        s = G(1750 + i, s, em[i], t[i])
    env.eq("state of the forward run", model.state, s)


@contract(REG, functions=[CLS + "._get_co2_hold_values", CLS + "._set_co2_hold", CLS + ".co2em2conc"], samples=40)
def a_trial_leaves_no_trace(env):
    """From any state of the default carbon cycle: trying some emission for a year, rewinding and then running the year with another one
    gives the concentration, state and fluxes of running the year with the other one alone."""
    from .c06 import pars
    m = env.mod(CM)
    p = pars(env)
    idtm, y = env.choice("idtm", [1, 2]), env.choice("y", [0, 1])
    ny = 3
    n = idtm * ny
    st = {"yCO2": env.anyreal("y0", -5, 50), "xCO2": env.pos("x0", 150, 900), "emCO2_prev": env.anyreal("em0", -5, 10),
          "ss1": env.anyreal("ss1", -10, 60), "sums": env.anyreal("sums0", -500, 2000)}
    s0 = [env.anyreal(f"s{j}", -1, 40) for j in range(n)]
    d0 = [env.anyreal(f"d{j}", -2, 10) for j in range(n)]
    rs, rb = [[env.real(f"{q}{j}", sample=(0, 1)) for j in range(n)] for q in ("rs", "rb")]
    e1, e2 = env.anyreal("trial", -5, 30), env.anyreal("final", -5, 30)
    t = env.anyreal("t", -2, 5)
    if not env.symbolic:
        import math

    def mk():
        model = m.CarbonCycleModel({"idtm": idtm, "nystart": 1750, "nyend": 1749 + ny}, dict(p))
        h = env.get(model, "co2_hold")
        for k, v in st.items():
            env.setkey(h, k, v)
        env.setkey(h, "sCO2", m.np.array(s0) + 0)
        env.setkey(h, "dfnpp", m.np.array(d0) + 0)
        env.set(model, "r_functions", m.np.array([rs, rb]))
        if env.symbolic:
            # by its contract (C06) a function of the ocean history up to the step and the two feedbacks
            env.get(model, "_calculate_partial_pressure_mixed_layer")
            import z3
            from pyvc.core import Num, num

            def part(it):
                f = z3.Function(f"pco2.{int(it)}", *[z3.RealSort()] * (int(it) + 4))
                a = [num(model.co2_hold["sCO2"][j]).real for j in range(int(it) + 1)]
                a += [num(model.temp_feedbacks[k]).real for k in ("mixed_layer_temp_feedback", "solubility_temp_feedback")]
                return Num(f(*a), False)
            model._calculate_partial_pressure_mixed_layer = part
        return model
    a, b = mk(), mk()
    env.get(a, "_get_co2_hold_values"), env.get(a, "_set_co2_hold")
    env.cover()
    hold = a._get_co2_hold_values()
    a.co2em2conc(1750 + y, e1, feedback_dict={"dtemp": t})
    a._set_co2_hold(hold)
    for k in st:
        env.eq("rewound " + k, a.co2_hold[k], st[k])
    xa = a.co2em2conc(1750 + y, e2, feedback_dict={"dtemp": t})
    xb = b.co2em2conc(1750 + y, e2, feedback_dict={"dtemp": t})
    env.eq("concentration", xa, xb)
    for k in st:
        env.eq("state " + k, a.co2_hold[k], b.co2_hold[k])
    for j in range(n):
        env.eq("ocean history", a.co2_hold["sCO2"][j], b.co2_hold["sCO2"][j])
        env.eq("land history", a.co2_hold["dfnpp"][j], b.co2_hold["dfnpp"][j])
    for k in b.temp_feedbacks:
        env.eq("feedback " + k, a.temp_feedbacks[k], b.temp_feedbacks[k])


@contract(REG, functions=[CLS + ".make_guess_emsize_estimates", CLS + ".get_ocean_carbon_flux", CLS + ".get_carbon_cycle_output", ABS + ".back_calculate_emissions",
                          ABS + ".get_initial_max_min_guess"], samples=25, thorough=300, symbolic=False, public=True)
def round_trip(env):
    """Concentrations produced by known emissions under some temperature history: the emissions inferred from them reproduce them in a
    forward run, and leave the fluxes of that run. Repeating the inference, or asking for the fluxes, changes nothing. (bounded)"""
    import random
    import numpy as np
    R = random.Random(env.int("seed", 0, None, 0, 2 ** 30))
    u = R.uniform
    M = env.mod(CM).CarbonCycleModel
    ny, idtm = R.randint(2, 25), R.choice([1, 2, 6, 12, 24, 24, 40])
    p = {}
    for k, lo, hi in (("beta_f", 0.1, 0.6), ("mixed_carbon", 50, 120), ("preindustrial_co2_conc", 270, 285), ("solubility_sens", 0, 0.05), ("ml_fracmax", 0, 0.6), ("t_threshold", 2, 8)):
        if R.random() < 0.5:
            p[k] = u(lo, hi)
    if R.random() < 0.3:
        p["rb_function"] = {"coeffs": [0.5, 0.25, 0.25], "timescales": [2.5, 10, 60]}
    mk = lambda: M({"idtm": idtm, "nystart": 1850, "nyend": 1849 + ny}, {k: (dict(v) if isinstance(v, dict) else v) for k, v in p.items()})
    em = [u(0.0, 1.5)]
    for _ in range(ny - 1):
        em.append(max(-3.0, em[-1] + u(-0.4, 0.7)))
    zero = R.random() < 0.3
    dT = np.zeros(ny) if zero else np.cumsum([u(-0.02, 0.06) for _ in range(ny)])
    f = mk()
    conc = np.array([float(f.co2em2conc(1850 + i, em[i], feedback_dict={"dtemp": dT[i]})) for i in range(ny)])
    fb = None if zero and R.random() < 0.5 else {"dtemp": dT.copy()}
    b = mk()
    c0 = conc.copy()
    got = b.back_calculate_emissions(conc, feedback_dict_series=fb)
    env.eq("prescribed series untouched", conc, c0, rtol=0, atol=0)
    if fb is not None:
        env.eq("feedback series untouched", fb["dtemp"], dT, rtol=0, atol=0)
    r = mk()
    w = mk()
    ok = True
    for i in range(ny):
        # attainable inside the search range from the state reached?
        prev = conc[i - 1] if i else r.get_preindustrial_co2_conc()
        x = float(r.co2em2conc(1850 + i, got[i], feedback_dict={"dtemp": dT[i]}))
        if abs(x - conc[i]) > 2e-7 * conc[i]:
            width = float(w.make_guess_emsize_estimates(conc, feedback_dict_series={"dtemp": dT})[i * idtm])
            hi, lo = w.get_initial_max_min_guess(conc[i], prev, em_width=width)
            import copy
            at = []
            for e in (lo, hi):
                q = mk()
                for j in range(i):
                    q.co2em2conc(1850 + j, got[j], feedback_dict={"dtemp": dT[j]})
                at.append(float(q.co2em2conc(1850 + i, e, feedback_dict={"dtemp": dT[i]})))
            env.check(f"concentration of year {i} reproduced: {x} for {conc[i]}, attainable {at}", not min(at) <= conc[i] <= max(at))
            ok = False
            break
    env.cover()
    if ok:
        env.eq("ocean flux of the forward run", b.get_ocean_carbon_flux(), r.get_ocean_carbon_flux(), rtol=1e-9, atol=1e-10)
        env.eq("land flux of the forward run", b.get_biosphere_carbon_flux(), r.get_biosphere_carbon_flux(), rtol=1e-9, atol=1e-10)
    again = b.back_calculate_emissions(conc, feedback_dict_series=fb)
    env.eq("the same when repeated", again, got, rtol=0, atol=0)
    oc = b.get_ocean_carbon_flux()
    env.eq("flux asked for directly", b.get_ocean_carbon_flux(conc_run=True, co2_conc_series=conc, dtemp_series=None if fb is None else dT), oc, rtol=0, atol=0)
    env.eq("flux asked of a model that has run nothing", mk().get_ocean_carbon_flux(conc_run=True, co2_conc_series=conc, dtemp_series=None if fb is None else dT), oc, rtol=0, atol=0)
    years = list(range(1850, 1850 + ny))
    df = b.get_carbon_cycle_output(years, conc_run=True, conc_series=conc, feedback_dict_series=fb)
    env.eq("reported emissions", df["Emissions"].to_numpy(), got, rtol=0, atol=0)
    env.eq("reported ocean flux", df["Ocean carbon flux"].to_numpy(), oc, rtol=0, atol=0)


@contract(REG, functions=["ciceroscm.CICEROSCM._run", "concentrations_emissions_handler.ConcentrationsEmissionsHandler.add_results_to_dict", CLS + ".get_carbon_cycle_output"],
          samples=15, thorough=120, symbolic=False, public=True)
def emissions_of_whole_runs(env):
    """Concentration-driven runs: running the carbon cycle with the reported emissions and temperatures gives the prescribed CO2
    concentrations and the reported ocean flux. (bounded)"""
    from . import _scen as S
    import numpy as np
    s = S.scen(env, conc_run=True, carbon="default")
    pre = float(s.conc.loc[s.y0, "CO2"])
    k = 0
    for y in s.years:       # gently rising concentrations stay inside the search range
        s.conc.loc[y, "CO2"] = pre + 0.15 * k + 0.02 * k * k
        k += 1
    pam = S.carbon_pams(s)
    r = S.run(env, s)
    cc = r["carbon cycle"]
    dT = np.array(r["dT_glob"], dtype=float)
    m = env.mod(CM).CarbonCycleModel({"idtm": s.conf.get("idtm", 24), "nystart": s.y0, "nyend": s.y1}, dict(pam, preindustrial_co2_conc=pre))
    for i, y in enumerate(s.years):
        want = float(s.conc.loc[y, "CO2"])
        x = float(m.co2em2conc(y, float(cc.loc[y, "Emissions"]), feedback_dict={"dtemp": dT[i]}))
        if i and abs(x - want) > 2e-7 * want:
            env.assume(abs(dT[i]) < 1.5)
        env.eq(f"concentration of {y}", x, want, rtol=2e-7)
    env.eq("ocean flux", np.array([cc.loc[y, "Ocean carbon flux"] for y in s.years]), m.get_ocean_carbon_flux(), rtol=1e-7, atol=1e-9)
