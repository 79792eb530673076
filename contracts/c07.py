"""C07 carbon response functions and airborne fraction follow their definitions"""
from pyvc.contract import contract

LEVEL = "proof"
REG = []
RF = "carbon_cycle.rfuns"
CM = "carbon_cycle.carbon_cycle_mod"
CF = "carbon_cycle.common_carbon_cycle_functions"


def rb_def(env, t):
    L = env.lit
    return (L("0.70211") * env.exp(-L("0.35") * t) + L("0.0134141") * env.exp(-t / 20) - L("0.71846") * env.exp(-55 * t / 120)
            + L("0.0029323") * env.exp(-t / 100))


def rs_def(env, t):
    L = env.lit
    short = (L("0.12935") + L("0.21898") * env.exp(-t / L("0.034569")) + L("0.17003") * env.exp(-t / L("0.26936"))
             + L("0.24071") * env.exp(-t / L("0.96083")) + L("0.24093") * env.exp(-t / L("4.9792")))
    long = (L("0.022936") + L("0.24278") * env.exp(-t / L("1.2679")) + L("0.13963") * env.exp(-t / L("5.2528"))
            + L("0.089318") * env.exp(-t / L("18.601")) + L("0.03782") * env.exp(-t / L("68.736")) + L("0.035549") * env.exp(-t / L("232.3")))
    return env.ite(t < 2, short, long)


def rs2_def(env, t, co, ti):
    tot = sum(co[i] for i in range(len(co)))
    r = co[0] / tot
    for i in range(1, len(co)):
        r = r + co[i] / tot * env.exp(-t / ti[i - 1])
    return r


def rb2_def(env, t, co, ti):
    tot = sum(co[i] for i in range(len(co)))
    r = 0
    for i in range(len(co)):
        r = r + t * co[i] / tot / (ti[i] * ti[i]) * env.exp(-t / ti[i])
    return r


def coefs(env, name, k, extra):
    co = env.arr(name + "c", k, positive=True, slo=0.01, shi=2)
    ti = env.arr(name + "t", k - extra, positive=True, slo=0.05, shi=300)
    return co, ti


@contract(REG, functions=["rfuns.rb_function", "rfuns.rs_function"], samples=60, public=True)
def built_in_responses(env):
    """At every step index and step count the built-in responses are the documented sums of exponentials of it/idtm."""
    m = env.mod(RF)
    idtm = env.int("idtm", 1, None, 1, 60)
    it = env.int("it", 0, None, 0, 3000)
    env.cover()
    t = it / idtm
    env.eq("rb", m.rb_function(it, idtm), rb_def(env, t))
    env.eq("rs", m.rs_function(it, idtm), rs_def(env, t))
    env.eq("rb default step count", m.rb_function(it), rb_def(env, it / 24))
    env.eq("rs default step count", m.rs_function(it), rs_def(env, it / 24))


@contract(REG, functions=["rfuns.rs_function2", "rfuns.rb_function2"], samples=60, public=True)
def user_responses_scalar(env):
    """For every coefficient and time-scale vector (1 to 6 terms) and every time: normalised sums of exponentials."""
    m = env.mod(RF)
    k = env.choice("k", [1, 2, 3, 4, 5, 6])
    idtm = env.int("idtm", 1, None, 1, 60)
    it = env.int("it", 0, None, 0, 3000)
    co, ti = coefs(env, "s", k, 1)
    env.cover()
    t = it / idtm
    env.eq("rs", m.rs_function2(it, co, ti, idtm), rs2_def(env, t, co, ti))
    co, ti = coefs(env, "b", k, 0)
    env.eq("rb", m.rb_function2(it, co, ti, idtm), rb2_def(env, t, co, ti))


@contract(REG, functions=["rfuns.rs_function2", "rfuns.rb_function2", "rfuns.rs_function_array", "rfuns.rb_function"], samples=60, public=True)
def responses_on_arrays(env):
    """Evaluated on an array of step indices of any length >= 2, each element is the scalar definition at that index."""
    m = env.mod(RF)
    k = env.choice("k", [1, 2, 3, 5])
    idtm = env.int("idtm", 1, None, 1, 60)
    n = env.int("n", 2, None, 2, 40)
    env.cover()
    its = m.np.arange(n)
    co, ti = coefs(env, "s", k, 1)
    rs2 = m.rs_function2(its, co, ti, idtm)
    co2, ti2 = coefs(env, "b", k, 0)
    rb2 = m.rb_function2(its, co2, ti2, idtm)
    rs = m.rs_function_array(its, idtm)
    rb = m.rb_function(its, idtm)
    env.eq("length", env.length(rs), n)

    def one(i):
        t = i / idtm
        env.eq("rs user", env.elem(rs2, i), rs2_def(env, t, co, ti))
        env.eq("rb user", env.elem(rb2, i), rb2_def(env, t, co2, ti2))
        env.eq("rs", env.elem(rs, i), rs_def(env, t))
        env.eq("rb", env.elem(rb, i), rb_def(env, t))
    env.forall(0, n, one)


@contract(REG, functions=["carbon_cycle_mod.CarbonCycleModel.precalc_r_functions", "CarbonCycleModel.__init__", "CarbonCycleModel.reset_co2_hold",
                          "pub_utils._check_array_consistency", "rfuns._process_flat_carbon_parameters"], samples=60)
def responses_used_by_the_carbon_cycle(env):
    """The tabulated responses of a carbon cycle with any horizon and step count are the definitions at it = 0 .. steps-1;
    functions given as dictionaries or as flat parameters, at construction or at a reset, replace the built-in ones."""
    m = env.mod(CM)
    idtm = env.int("idtm", 1, None, 1, 30)
    ny = env.int("years", 2, None, 2, 12)
    k = env.choice("k", [2, 3, 12])
    how = env.choice("how", ["default", "dict", "flat", "flat by name", "reset"])
    co, ti = coefs(env, "s", k, 1)
    co2, ti2 = coefs(env, "b", k, 0)
    env.cover()
    pc = {}
    user = {}
    if how.startswith("flat"):
        for i in range(k):
            user[f"rs_coef{i}"] = co[i]
            user[f"rb_coef{i}"] = co2[i]
            user[f"rb_tim{i}"] = ti2[i]
        for i in range(k - 1):
            user[f"rs_tim{i}"] = ti[i]
        if how == "flat by name":
            user = {x: user[x] for x in sorted(user)}
    elif how != "default":
        user = {"rs_function": {"coeffs": co, "timescales": ti}, "rb_function": {"coeffs": co2, "timescales": ti2}}
    model = m.CarbonCycleModel({"idtm": idtm, "nystart": 1750, "nyend": 1749 + ny}, dict(pc) if how == "reset" else dict(user))
    if how == "reset":
        model.reset_co2_hold(dict(user))
    r = env.get(model, "r_functions")

    def one(i):
        t = i / idtm
        if how == "default":
            env.eq("rs", r[0, i], rs_def(env, t))
            env.eq("rb", r[1, i], rb_def(env, t))
        else:
            env.eq("rs user", r[0, i], rs2_def(env, t, co, ti))
            env.eq("rb user", r[1, i], rb2_def(env, t, co2, ti2))
    env.eq("tabulated steps", r.shape[1], idtm * ny)
    env.forall(0, idtm * ny, one)


@contract(REG, functions=["rfuns._process_flat_carbon_parameters", "rfuns._process_rb_parameters", "rfuns._process_rs_parameters",
                          "rfuns._extract_indexed_parameters"], samples=150, public=True)
def flat_parameters(env):
    """Flat parameters of any number of terms (indices of one or two digits) in any key order give the coefficient and time-scale
    lists in index order, leave every other parameter and the user's own dictionary as they were, and a mismatch is rejected."""
    m = env.mod(RF)
    process = env.get(m, "_process_flat_carbon_parameters")
    k = env.choice("k", [1, 2, 10, 12])
    order = env.choice("order", ["index", "text", "mixed"])
    which = env.choice("which", ["rb", "rs", "both"])
    off = env.choice("off", [0, 1, -1])
    want, ks = {}, []
    for f in ("rb", "rs"):
        if which not in (f, "both"):
            continue
        n = k if f == "rb" else k - 1
        n2 = n + off
        if n2 < 0:
            return
        for i in range(k):
            want[f"{f}_coef{i}"] = env.anyreal(f"{f}c{i}", 0.01, 2)
        for i in range(n2):
            want[f"{f}_tim{i}"] = env.pos(f"{f}t{i}", 0.05, 300)
    ks = list(want)
    if order == "text":
        ks = sorted(ks)
    elif order == "mixed":
        ks = ks[1::2] + ks[0::2][::-1]
    other = env.real("other")
    user = {"beta_f": other}
    for x in ks:
        user[x] = want[x]
    user["mixed_carbon"] = 75.0
    before = list(user.items())
    env.cover()
    rejected = False
    try:
        out = process(user)
    except ValueError:
        rejected = True
    env.check("user dictionary keeps its keys", list(user) == [a for a, _ in before])
    for a, b in before:
        env.check("user dictionary keeps its values", user[a] is b)
    env.check("mismatching numbers of terms are rejected, matching ones accepted", rejected == (off != 0))
    if rejected:
        return
    funs = [f + "_function" for f in (["rb", "rs"] if which == "both" else [which])]
    env.check("flat keys become the functions, the rest stays", sorted(out) == sorted(["beta_f", "mixed_carbon"] + funs))
    env.eq("another parameter", out["beta_f"], other)
    for f in funs:
        n = k if f == "rb_function" else k - 1
        env.check("terms", len(out[f]["coeffs"]) == k and len(out[f]["timescales"]) == n)
        for i in range(k):
            env.eq("coefficient in index order", out[f]["coeffs"][i], want[f"{f[:2]}_coef{i}"])
        for i in range(n):
            env.eq("time scale in index order", out[f]["timescales"][i], want[f"{f[:2]}_tim{i}"])


@contract(REG, functions=["common_carbon_cycle_functions.calculate_airborne_fraction"], samples=80, public=True)
def airborne_fraction(env):
    """For every emission and concentration series with nonzero cumulative emissions: atmospheric increase in PgC over cumulative emissions."""
    m = env.mod(CF)
    n = env.int("n", 1, None, 1, 30)
    em = env.arr("em", n, positive=True, slo=0.01, shi=20)
    conc = env.arr("conc", n, slo=200, shi=1000)
    pre = env.pos("pre", 200, 400)
    env.cover()
    af = m.calculate_airborne_fraction(em, conc, preindustrial_co2_conc=pre)
    env.eq("length", env.length(af), n)
    env.forall(0, n, lambda i: env.eq("airborne fraction", env.elem(af, i) * env.sum(0, i + 1, lambda j: env.elem(em, j)),
                                      (env.elem(conc, i) - pre) * env.lit("2.123"), atol=1e-7))
    af = m.calculate_airborne_fraction(em, conc)
    env.forall(0, n, lambda i: env.eq("default preindustrial", env.elem(af, i) * env.sum(0, i + 1, lambda j: env.elem(em, j)),
                                      (env.elem(conc, i) - 278) * env.lit("2.123"), atol=1e-7))


@contract(REG, functions=["common_carbon_cycle_functions.calculate_airborne_fraction"], samples=120, public=True)
def airborne_fraction_with_removals(env):
    """Emissions of any sign with nonzero cumulative emissions in every year, net cumulative removal included (1, 2, 3 or 5 years; concretely up to 30)."""
    m = env.mod(CF)
    n = env.choice("n", [1, 2, 3, 5]) if env.symbolic else env.int("n", 1, None, 1, 30)
    em = env.arr("em", n, slo=-8, shi=8)
    conc = env.arr("conc", n, slo=200, shi=1000)
    pre = env.pos("pre", 200, 400)
    cum, t = [], 0
    for i in range(n):
        t = t + em[i]
        cum.append(t)
        env.assume(t != 0)
    env.cover()
    af = m.calculate_airborne_fraction(em, conc, preindustrial_co2_conc=pre)
    env.eq("length", env.length(af), n)
    for i in range(n):
        env.eq("airborne fraction", af[i] * cum[i], (conc[i] - pre) * env.lit("2.123"), atol=1e-7)
