"""C10 the upwelling-diffusion model conserves energy"""
from pyvc.contract import contract
from pyvc.env import AnchorMissing

LEVEL = "proof"
REG = []
MOD = "thermal_model.upwelling_diffusion_model"
CLS = "upwelling_diffusion_model.UpwellingDiffusionModel"
ALL = [CLS + "." + f for f in ("__init__", "energy_budget", "setup_ebud", "setup_ebud2", "coeff", "get_gam_and_fro_factor_ns")] + [
    "upwelling_diffusion_model.check_pamset", "upwelling_diffusion_model._band"]
SPY = 86400 * 365
TRUSTED = ["scipy.linalg.solve_banded returns the solution of the banded system it is given (unique when it returns)"]
ASSUMPTIONS = ["proved for 3 to 40 layers and 1 to 12 sub-annual steps as listed per harness (column sums of the diffusion matrix: any number of layers)"]


def pars(env, lm=None, ldtime=None, thres=True, eff=True, ebbeta=False, need=()):
    p = {"lambda": env.pos("lambda", 0.3, 1.5), "rlamdo": env.pos("rlamdo", 5, 25), "W": env.real("W", sample=(0, 6)),
         "foan": env.pos("foan", 0.4, 0.8), "foas": env.pos("foas", 0.6, 0.9), "mixed": env.pos("mixed", 20, 250),
         "akapa": env.real("akapa", sample=(0.05, 1)), "cpi": env.real("cpi", sample=(0.1, 0.8)), "beto": env.real("beto", sample=(0, 7)),
         "ebbeta": env.pos("ebbeta", 0.05, 2) if ebbeta else 0.0,
         "threstemp": env.pos("threstemp", 2, 9) if thres else 0,
         "ocean_efficacy": env.pos("eff", 0.7, 1.6) if eff else 1.0}
    if eff and env.symbolic:
        env.assume(p["ocean_efficacy"] != 1)
    if lm:
        p["lm"] = lm
    if ldtime:
        p["ldtime"] = ldtime
    return p


def heat(p, dz, tn, ts):
    return sum(dz[i] * (p["foan"] * tn[i] + p["foas"] * ts[i]) for i in range(len(dz)))


def depth(p, lm):
    return [p["mixed"]] + [100] * (lm - 1)


def c1(env):
    return env.lit("1.03") * env.lit("0.955") * env.lit("0.485") * 100 * 86400


def subforc(n, prev, now, volc, k):
    """forcing in sub-annual step k of n: linear from last year's to this year's value plus that step's volcanic forcing"""
    return (k + 1) * now / n + (n - k - 1) * prev / n + volc[k % len(volc)]


def state(env, u, lm):
    """an arbitrary state"""
    tn, ts = [env.anyreal(f"tn{i}", -3, 5) for i in range(lm)], [env.anyreal(f"ts{i}", -3, 5) for i in range(lm)]
    import numpy as np
    env.set(u, "tn", np.array(tn))
    env.set(u, "ts", np.array(ts))
    pf = env.anyreal("pfn"), env.anyreal("pfs")
    pv = env.get(u, "prev_values")
    env.setkey(pv, "fn", pf[0])
    env.setkey(pv, "fs", pf[1])
    return tn, ts, pf


def exchange(env, p, x, y, lm):
    """diffusive heat flux out of the mixed layers of both hemispheres (W m-2, x north and y south)"""
    kap = p["akapa"] * env.lit("1e-4")
    return c1(env) * 2 * kap / 100 * (p["foan"] * (x[0] - x[1]) + p["foas"] * (y[0] - y[1]))


def budget(env, lm, ldtime, thres, eff):
    m = env.mod(MOD)
    p = pars(env, lm, ldtime, thres, eff)
    u = m.UpwellingDiffusionModel(dict(p))
    tn, ts, pf = state(env, u, lm)
    fn, fs = env.anyreal("fn"), env.anyreal("fs")
    nv = 3
    vn, vs = env.arr("vn", nv), env.arr("vs", nv)
    env.cover()
    dz = depth(p, lm)
    rl = 1 / p["lambda"]
    if env.symbolic:
        env.c.store_solves.clear()
        if hasattr(u, "ocean_temperature"):
            u.ocean_temperature = lambda *a, **k: {"OHC700": 0, "OHCTOT": 0}  # by its contract (C11)
    out = u.energy_budget(fn, fs, vn, vs)
    tair = out["dtempnh_air"] + out["dtempsh_air"]
    dq = sum(subforc(ldtime, pf[0], fn, vn, k) + subforc(ldtime, pf[1], fs, vs, k) for k in range(ldtime))
    Tn, Ts = [out["tn"][i] for i in range(lm)], [out["ts"][i] for i in range(lm)]
    stored = c1(env) / SPY * (heat(p, dz, Tn, Ts) - heat(p, dz, tn, ts))
    if not env.symbolic:
        loss = 0
        if eff and p["ocean_efficacy"] != 1.0:
            if ldtime > 1:
                return  # the exchange of the sub-steps is not visible from outside
            loss = (p["ocean_efficacy"] - 1) * exchange(env, p, Tn, Ts, lm)
        env.eq("heat gained by all layers = mean forcing - feedback response - efficacy part of the exchange",
               stored, dq / ldtime - rl * tair - loss, rtol=1e-7, atol=1e-7)
        return
    sol = env.c.store_solves
    if len(sol) != 2 * ldtime:
        raise AnchorMissing("one banded solve per hemisphere and sub-step")
    ns, ss = sol[0::2], sol[1::2]
    res, loss = 0, 0
    dt = env.lit(str(SPY)) / ldtime
    for k in range(ldtime):
        for fo, so in ((p["foan"], ns[k]), (p["foas"], ss[k])):
            for i, (row, d) in enumerate(so[3]):
                res = res + fo * c1(env) * dz[i] / SPY * (row - d)
        loss = loss + (p["ocean_efficacy"] - 1) * exchange(env, p, ns[k][0], ss[k][0], lm) / ldtime
    for i in range(lm):
        env.eq("reported profile is the last solution", Tn[i], ns[-1][0][i])
        env.eq("reported profile is the last solution S", Ts[i], ss[-1][0][i])
    # res is 0 by the contract of solve_banded
    env.eq("heat gained by all layers = mean forcing - feedback response - efficacy part of the exchange",
           stored - (dq / ldtime - rl * tair - loss), res)


@contract(REG, functions=ALL, samples=40)
def yearly_budget_one_step(env):
    """Any parameters, state, forcing (no direct air exchange between hemispheres): heat gained by all layers of both hemispheres is
    the forcing less the feedback response less the efficacy-weighted part of the heat leaving the mixed layers. 1 sub-step, 3 to 6 layers."""
    budget(env, env.choice("lm", [3, 4, 6]) if env.symbolic else 40, 1, env.choice("thres", [True, False]), env.choice("eff", [True, False]))


@contract(REG, functions=ALL, samples=40)
def yearly_budget_several_steps(env):
    """The same over a year of 2 or 3 sub-steps and 4 layers (concretely: 12 and 24 steps, 40 layers)."""
    budget(env, 4 if env.symbolic else 40, env.choice("steps", [2, 3]) if env.symbolic else env.choice("steps", [1, 12, 24]),
           env.choice("thres", [True, False]), env.choice("eff", [True, False]) if env.symbolic else False)


@contract(REG, functions=ALL, samples=2)
def yearly_budget_default_size(env):
    """The same at the default resolution: 40 layers, 12 sub-steps, temperature-dependent upwelling."""
    budget(env, 40, 12, True, env.choice("eff", [True, False]) if env.symbolic else False)


@contract(REG, functions=ALL, samples=40)
def surface_air_balance(env):
    """Any parameters (air exchange between the hemispheres and efficacy included), state, forcing and volcanic values, two years: in each
    hemisphere the feedback response, exchange with the sea and with the other hemisphere of the yearly mean air temperatures add
    up to the mean forcing of the sub-steps, which runs from the hemisphere's value of last year to this year's."""
    m = env.mod(MOD)
    lm = 4 if env.symbolic else 40
    ld = env.choice("steps", [1, 2, 3]) if env.symbolic else env.choice("steps", [1, 12, 24])
    p = pars(env, lm, ld, env.choice("thres", [True, False]), env.choice("eff", [True, False]), env.choice("eb", [True, False]))
    u = m.UpwellingDiffusionModel(dict(p))
    tn, ts, pf = state(env, u, lm)
    env.cover()
    if env.symbolic and hasattr(u, "ocean_temperature"):
        u.ocean_temperature = lambda *a, **k: {"OHC700": 0, "OHCTOT": 0}
    rl = 1 / p["lambda"]
    for yr in range(2):
        f = env.anyreal(f"fn{yr}", -3, 5), env.anyreal(f"fs{yr}", -3, 5)
        v = env.arr(f"vn{yr}", 2), env.arr(f"vs{yr}", 2)
        o = u.energy_budget(*f, *v)
        air, sea = (o["dtempnh_air"], o["dtempsh_air"]), (o["dtempnh_sea"], o["dtempsh_sea"])
        for h, fo in ((0, p["foan"]), (1, p["foas"])):
            dq = sum(subforc(ld, pf[h], f[h], v[h], k) for k in range(ld)) / ld
            env.eq("air balance " + "NS"[h], rl * air[h] + fo * p["rlamdo"] * (air[h] - sea[h]) + p["ebbeta"] * (air[h] - air[1 - h]), dq,
                   rtol=1e-7, atol=1e-7)
            env.eq("hemispheric mean temperature " + "NS"[h], o[("dtempnh", "dtempsh")[h]], fo * sea[h] + (1 - fo) * air[h])
        pf = f


@contract(REG, functions=ALL, samples=20)
def rest_stays_at_rest(env):
    """Zero forcing from rest, two years, any parameters (air exchange and efficacy included): every right-hand side handed to the
    solver is zero, so every temperature and output stays zero."""
    m = env.mod(MOD)
    lm = 5 if env.symbolic else 40
    p = pars(env, lm, 3, env.choice("thres", [True, False]), env.choice("eff", [True, False]), env.choice("eb", [True, False]))
    u = m.UpwellingDiffusionModel(dict(p))
    import numpy as np
    env.cover()
    if env.symbolic:
        if hasattr(u, "ocean_temperature"):
            u.ocean_temperature = lambda *a, **k: {"OHC700": 0, "OHCTOT": 0}
        np_ = m.np

        def hook(ab, d):
            for i in range(lm):
                env.eq("right-hand side is zero", d[i], 0)
            return np_.zeros(lm)
        env.c.solve_hook = hook
        z = np_.zeros(12)
    else:
        z = np.zeros(12)
    for _ in range(2):
        out = u.energy_budget(0.0, 0.0, z, z)
        for k in out:
            for x in (out[k] if k in ("tn", "ts") else [out[k]]):
                env.eq("zero " + k, x, 0)


@contract(REG, functions=ALL, samples=20)
def linear_in_the_forcing(env):
    """Constant upwelling (threstemp 0), two years, any parameters: the response to a x + y is a times the response to x plus the
    response to y, in every output: same matrices and superposed right-hand sides in every step, solution unique."""
    m = env.mod(MOD)
    lm, ld = (4, 2) if env.symbolic else (40, 12)
    p = pars(env, lm, ld, False, env.choice("eff", [True, False]), env.choice("eb", [True, False]))
    a = env.anyreal("a", -3, 3)
    us = [m.UpwellingDiffusionModel(dict(p)) for _ in range(3)]
    env.cover()
    rec = [[], [], []]
    cur = [0]
    if env.symbolic:
        from pyvc.shim_pd import LINALG

        def hook(ab, d):
            c = env.c
            i = cur[0]
            ab, d = [[ab[k, j] for j in range(lm)] for k in range(3)], [d[j] for j in range(lm)]
            if i < 2:
                x = [env.anyreal(f"x{i}.{len(rec[i])}.{j}") for j in range(lm)]
            else:
                (A0, d0, x0), (A1, d1, x1) = rec[0][len(rec[2])], rec[1][len(rec[2])]
                for k in range(3):
                    for j in range(lm):
                        if (k, j) in ((0, 0), (2, lm - 1)):
                            continue  # outside the band
                        env.eq("matrix does not depend on the forcing", ab[k][j], A0[k][j])
                        env.eq("matrix does not depend on the forcing (2)", ab[k][j], A1[k][j])
                for j in range(lm):
                    env.eq("right-hand side is superposed", d[j], a * d0[j] + d1[j])
                x = [a * x0[j] + x1[j] for j in range(lm)]
            rec[i].append((ab, d, x))
            return m.np.array(x)
        env.c.solve_hook = hook
        for u in us:
            if hasattr(u, "ocean_temperature"):
                u.ocean_temperature = lambda *a, **k: {"OHC700": 0, "OHCTOT": 0}
    for yr in range(2):
        F = [[env.anyreal(f"f{yr}{w}{h}", -3, 3) for h in "ns"] for w in "ab"]
        V = [[env.arr(f"v{yr}{w}{h}", 2) for h in "ns"] for w in "ab"]
        F.append([a * x + y for x, y in zip(*F)])
        V.append([a * x + y for x, y in zip(*V)])
        out = []
        for i in range(3):
            cur[0] = i
            out.append(us[i].energy_budget(*F[i], *V[i]))
        for k in out[0]:
            if k in ("tn", "ts"):
                for j in range(lm):
                    env.eq("superposed " + k, out[2][k][j], a * out[0][k][j] + out[1][k][j], rtol=1e-6, atol=1e-7)
            else:
                env.eq("superposed " + k, out[2][k], a * out[0][k] + out[1][k], rtol=1e-6, atol=1e-6)


@contract(REG, functions=[CLS + ".coeff", CLS + ".__init__"], samples=30)
def columns_of_any_number_of_layers(env):
    """Any number of layers: each column of the diffusion-upwelling matrix, weighted with the layer depths, sums to the depth of
    its layer (plus the surface loss in the first), so no heat is created or lost between layers; the rest of the matrix is banded."""
    m = env.mod(MOD)
    lm = env.int("lm", 4, None, 4, 60)
    p = pars(env, 5, 12, True, False)
    u = m.UpwellingDiffusionModel(dict(p))
    u.pamset["lm"] = lm
    mixed = p["mixed"]
    if env.symbolic:
        from pyvc.arrays import Arr, ite
        from pyvc.core import num
        dz = m.np.ones(lm) * 100
        dz[0] = mixed
        env.set(u, "dz", dz)
    else:
        import numpy as np
        dz = np.ones(lm) * 100.0
        dz[0] = mixed
        env.set(u, "dz", dz)
    w, g = env.anyreal("w", -2, 2), env.anyreal("g", 0, 2)
    env.cover()
    if not hasattr(u, "coeff"):
        raise AnchorMissing("coeff")
    a, b, c = u.coeff(w, g)
    e = env.elem
    env.eq("first column", mixed * e(b, 0) + 100 * e(a, 0), mixed + mixed * g)
    env.eq("second column", mixed * e(c, 1) + 100 * e(b, 1) + 100 * e(a, 1), 100)
    env.forall(2, lm - 1, lambda j: env.eq("inner column", e(c, j) + e(b, j) + e(a, j), 1))
    env.eq("last column", e(c, lm - 1) + e(b, lm - 1), 1)


@contract(REG, functions=ALL, samples=40, thorough=600, symbolic=False, public=True)
def budget_along_a_history(env):
    """Many years from rest at the default resolution, stated on inputs and reported profiles and air temperatures alone, with changing
    feedback and, at one sub-step per year, any ocean heat uptake efficacy. (bounded)"""
    import random
    import numpy as np
    R = random.Random(env.int("seed", 0, None, 0, 2 ** 30))
    u_ = R.uniform
    p = {"lambda": u_(0.4, 1.2), "rlamdo": u_(6, 25), "W": u_(0, 6), "foan": u_(0.4, 0.8), "foas": u_(0.6, 0.9), "mixed": u_(25, 190),
         "akapa": u_(0.05, 1), "cpi": u_(0.1, 0.8), "beto": u_(0, 7), "threstemp": R.choice([0, u_(2, 9)]), "ldtime": R.choice([1, 6, 12, 24]),
         "delta_lambda_aero": R.choice([0.0, u_(-0.3, 1)])}
    eff = u_(0.7, 1.6) if R.random() < 0.5 else 1.0
    if eff != 1:  # with one sub-step the exchange at its end is seen in the reported profiles
        p["ocean_efficacy"], p["ldtime"] = eff, 1
    if R.random() < 0.3:
        p["lm"] = R.choice([12, 40, 60])
    u = env.mod(MOD).UpwellingDiffusionModel(dict(p))
    lm = p.get("lm", 40)
    dz = np.array(depth(p, lm), dtype=float)
    n = p["ldtime"]
    tn = ts = np.zeros(lm)
    pf = (0.0, 0.0)
    for yr in range(12):
        w = R.random()
        u.set_feedback_gregory(w)
        rl = 1 / p["lambda"] + w * p["delta_lambda_aero"]
        f = u_(-2, 4), u_(-2, 4)
        v = [np.array([u_(-2, 0.2) for _ in range(12)]) for _ in range(2)]
        o = u.energy_budget(*f, *v)
        dq = sum(subforc(n, pf[h], f[h], v[h], k) for k in range(n) for h in (0, 1)) / n
        stored = c1(env) / SPY * float(np.sum(dz * (p["foan"] * (o["tn"] - tn) + p["foas"] * (o["ts"] - ts))))
        loss = (eff - 1) * exchange(env, p, o["tn"], o["ts"], lm)
        env.eq("heat gained = forcing - feedback response - efficacy part of the exchange", stored,
               dq - rl * (o["dtempnh_air"] + o["dtempsh_air"]) - loss, rtol=1e-7, atol=1e-7)
        tn, ts, pf = np.array(o["tn"]), np.array(o["ts"]), f
