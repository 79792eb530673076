"""C18 sampled configurations stay in their priors and survive storage"""
from pyvc.contract import contract

LEVEL = "proof"
REG = []
TRUSTED = ["scipy.stats.qmc.LatinHypercube(d).random(n): n x d numbers in [0, 1]; qmc.scale(u, lo, hi) = lo + u (hi - lo)", "numpy.random.normal(loc, scale) = loc + scale z",
           "json.dump / json.load keep numbers, strings and lists (checked concretely)"]
ASSUMPTIONS = ["prior ranges have their lower end below the upper one (required by scipy)"]
MOD = "parallel._configdistro"
CLS = MOD + "._ConfigDistro"
DIST = "parallel.distributionrun.DistributionRun"

THERMAL = ["rlamdo", "akapa", "cpi", "W", "beto", "lambda", "mixed", "ocean_efficacy", "delta_lambda_aero", "threstemp", "lm", "ldtime", "foan", "foas", "ebbeta", "deep", "k"]
CARBON = ["beta_f", "mixed_carbon", "ml_w_sigmoid", "ml_fracmax", "ml_t_half", "t_half", "w_sigmoid", "t_threshold", "w_threshold", "solubility_sens", "solubility_limit", "ml_depth_min",
          "preindustrial_co2_conc", "land_temp_sensitivity", "soil_respiration_rate", "ocean_mixed_layer_depth", "ocean_exchange_rate", "vegetation_to_soil_fraction", "ocean_solubility_base",
          "ocean_solubility_temp_coeff", "rb_coef0", "rb_coef1", "rb_tim0", "rs_coef3", "rs_tim2"]
EMICONC = ["qbmb", "qo3", "qdirso2", "qindso2", "qbc", "qoc", "qh2o_ch4", "qnox", "lifetime_x"]
CARBON += ["rb_coef2", "rb_tim1", "rb_tim2", "rs_coef0", "rs_coef1", "rs_coef2", "rs_tim0", "rs_tim1"]
SETS = {"pamset_udm": THERMAL, "pamset_carbon": CARBON, "pamset_emiconc": EMICONC}

UNUSED = {"npp0"}       # in the default priors, but a parameter of no component


def home(p):
    for s, names in SETS.items():
        if p in names:
            return s
    raise KeyError(p)


class Unit:
    """what qmc.LatinHypercube is assumed to give: numbers between 0 and 1"""


def qmc_stub(env, st):
    import types
    import z3
    from pyvc.arrays import Arr, obj
    from pyvc.core import Num, ctx, num
    f = z3.Function("u", z3.IntSort(), z3.IntSort(), z3.RealSort())

    class LHS:
        def __init__(self, d=None, **k):
            self.d = d

        def random(self, n=1, **k):
            ctx().store.rules["u"] = lambda t: [z3.And(t >= 0, t <= 1)]
            return Arr((num(n), self.d), lambda i, j: Num(f(num(i).e, num(j).e), False))

    def scale(u, lo, hi, **k):
        from pyvc.arrays import lift
        g = u.snap()
        lo, hi = lift(lo), lift(hi)
        def el(i, j):
            from pyvc.arrays import conc_get
            a, b = conc_get(lo, [num(j)]), conc_get(hi, [num(j)])
            return a + g(i, j) * (b - a)
        return Arr(u.shape, el)
    return types.SimpleNamespace(LatinHypercube=LHS, scale=scale)


def stubs():
    import types
    q = qmc_stub(None, None)
    return {"scipy.stats": types.SimpleNamespace(qmc=q), "scipy.stats.qmc": q}


SAMPLED = ["rlamdo", "k", "W", "beta_f", "rb_coef1", "ocean_exchange_rate", "qo3", "qbc", "npp_other", "mixed"]
FIXED = ["lm", "foas", "rs_tim2", "t_half", "qbmb", "mixed"]
EMICONC.append("npp_other")


def setup(env, method="latin"):
    prior, fixed = {}, {}
    for p in SAMPLED:
        lo = env.anyreal("lo." + p)
        hi = lo + env.pos("width." + p, 0.01, 20)
        prior[p] = [lo, hi]
    for p in FIXED:
        fixed[p] = env.anyreal("fixed." + p)
    forc = env.choice("forcing run", [False, True])
    want = [p for p in SAMPLED if p not in FIXED and (not forc or p in THERMAL)]
    kw = {"forc": forc, "method": method}
    d = env.get(env.mod(MOD), "_ConfigDistro")(distro_dict={p: list(v) for p, v in prior.items()}, setvalues=dict(fixed), options=kw)
    return d, prior, fixed, want


def check_config(env, cfg, prior, fixed, want, bounded=True):
    """one configuration: exactly the requested parameters, each in its place, inside its range"""
    env.check("keys", set(cfg) == {"pamset_udm", "pamset_emiconc", "pamset_carbon", "Index"})
    for s in SETS:
        env.check(f"parameters of {s}", set(cfg[s]) - UNUSED == {p for p in list(want) + list(fixed) if p not in UNUSED and home(p) == s})
    for p in want:
        if p in UNUSED:
            continue
        v = cfg[home(p)][p]
        if bounded:
            env.le(f"{p} at least the lower end", prior[p][0], v)
            env.le(f"{p} at most the upper end", v, prior[p][1])
    for p, v in fixed.items():
        if p in UNUSED:
            continue
        env.eq(f"{p} at its fixed value", cfg[home(p)][p], v, rtol=0, atol=0)


@contract(REG, functions=[CLS + ".__init__", CLS + "._set_prior", CLS + "._set_pamsets_start", CLS + ".get_samples_from_distro_latin", CLS + ".make_config_lists", CLS + ".make_single_config_list"],
          samples=40, stubs=stubs, public=True)
def one_list(env):
    """Any number of values, any priors and fixed values: the list has that many configurations, each with exactly the requested
    parameters within their ranges, in the set of their component, and labelled by prefix and running number."""
    d, prior, fixed, want = setup(env)
    n = env.int("numvalues", 1, None, 1, 12)
    env.cover()
    out = d.make_config_lists(n, indexer_pre="pre")
    env.eq("number of configurations", env.length(out), n)
    i = env.int("any", 0, None, 0, 11)
    env.assume(i < n)
    cfg = env.elem(out, i)
    check_config(env, cfg, prior, fixed, want)
    env.text("label", cfg["Index"], "pre", i)


@contract(REG, functions=[CLS + ".make_config_lists", CLS + ".make_single_config_list"], samples=60, stubs=stubs, public=True)
def chunks(env):
    """Any number of values and any chunk size: the chunks are full but for the last, together hold every sample exactly once and in
    order, and their labels are distinct."""
    d, prior, fixed, want = setup(env)
    n = env.int("numvalues", 1, None, 8, 25)
    size = env.int("chunk size", 1, None, 1, 8)
    env.assume(size <= n)
    env.cover()
    seen = record_samples(env, d)
    out = d.make_config_lists(n, indexer_pre="pre", max_chunk_size=size)
    K = env.length(out)
    env.check("number of chunks covers the values", K * size >= n)
    env.check("no empty chunk", (K - 1) * size < n)
    c = env.int("any chunk", 0, None, 0, 3)
    env.assume(c < K)
    lst = env.elem(out, c)
    full = env.min(size, n - c * size)
    env.eq("size of the chunk", env.length(lst), full)
    i = env.int("any", 0, None, 0, 3)
    env.assume(i < env.length(lst))
    cfg = env.elem(lst, i)
    check_config(env, cfg, prior, fixed, want)
    env.text("label", cfg["Index"], "pre_", c, "_", i)
    for j, p in enumerate(sorted(want)):
        env.eq(f"{p} is the sample's", cfg[home(p)][p], seen(c * size + i, j), rtol=0, atol=0)


def record_samples(env, d):
    f = env.get(d, "get_samples_from_distro_latin")
    box = []

    def g(*a, **k):
        r = f(*a, **k)
        box.append(r.copy())
        return r
    d.get_samples_from_distro_latin = g
    return lambda i, j: box[0][i, j]


@contract(REG, functions=[CLS + ".get_samples_from_distro_gaussian", CLS + ".make_config_lists"], concrete=False, samples=0, stubs=stubs)
def gaussian_samples(env):
    """Any method but latin, any number of values: each sample is the middle of the range plus half the range times a standard normal
    draw of its own, at the place of its parameter."""
    import z3
    from pyvc.core import Num
    d, prior, fixed, want = setup(env, env.choice("method", ["gaussian", "other"]))
    n = env.int("numvalues", 1, None, 1, 12)
    env.cover()
    out = d.make_config_lists(n, indexer_pre="pre")
    env.eq("number of configurations", env.length(out), n)
    i = env.int("any", 0, None, 0, 11)
    env.assume(i < n)
    cfg = env.elem(out, i)
    check_config(env, cfg, prior, fixed, want, bounded=False)
    env.text("label", cfg["Index"], "pre", i)
    z = z3.Function("normal", z3.IntSort(), z3.IntSort(), z3.RealSort())
    for j, p in enumerate(sorted(want)):
        lo, hi = prior[p]
        env.eq(f"{p}", cfg[home(p)][p], (lo + hi) / 2 + (hi - lo) / 2 * Num(z(z3.IntVal(j), i.e), False))


@contract(REG, functions=[CLS + ".get_samples_from_distro_gaussian"], samples=6, thorough=20, symbolic=False, public=True)
def gaussian(env):
    """The other sampling method: independent normal samples centred in the range, with the ends one standard deviation away; the
    parameters placed as before. (bounded, statistical)"""
    import numpy as np
    d, prior, fixed, want = setup(env, "gaussian")
    n = 3000
    np.random.seed(env.int("np seed", 0, 2 ** 31, 0, 2 ** 30) % 2 ** 31)
    out = d.make_config_lists(n, indexer_pre="g")
    env.eq("number of configurations", len(out), n)
    check_config(env, out[17], prior, fixed, want, bounded=False)
    env.check("distinct labels", len({c["Index"] for c in out}) == n)
    for p in want:
        v = np.array([c[home(p)][p] for c in out])
        lo, hi = prior[p]
        m, s = (lo + hi) / 2, (hi - lo) / 2
        env.check(f"{p} centred", abs(v.mean() - m) < 7 * s / np.sqrt(n))
        env.check(f"{p} spread", 0.85 < v.std() / s < 1.15)


@contract(REG, functions=[DIST + ".__init__", DIST + ".write_configs_to_json", CLS + ".make_config_lists", CLS + ".make_single_config_list"], samples=40, thorough=400,
          symbolic=False, public=True)
def storage(env):
    """Random distributions over the public interface: samples in the priors and one per stratum for every parameter, storage with and
    without meta information and chunks read back as written, and distribution runs that use exactly those. (bounded)"""
    import json
    import os
    import random
    import shutil
    import tempfile
    R = random.Random(env.int("seed", 0, None, 0, 2 ** 30))
    tmp = tempfile.mkdtemp(prefix="c18")
    try:
        names = [p for v in SETS.values() for p in v]
        R.shuffle(names)
        ns, nf = R.randint(1, 12), R.randint(0, 6)
        prior = {}
        for p in names[:ns]:
            lo = R.uniform(-5, 5)
            prior[p] = [lo, lo + R.uniform(0.01, 9)] if R.random() < 0.8 else [int(lo), int(lo) + 1 + R.randint(0, 3)]
        fixed = {p: R.choice([R.uniform(-2, 2), R.randint(0, 40)]) for p in names[ns:ns + nf] + names[:1 if R.random() < 0.3 else 0]}
        forc = R.random() < 0.3
        want = [p for p in prior if p not in fixed and (not forc or p in THERMAL)]
        if not want:
            raise_reject()
        opt = {"forc": forc} if R.random() < 0.7 else ({"forc": forc, "method": "latin"})
        D = env.get(env.mod(MOD), "_ConfigDistro")
        d = D(distro_dict=dict(prior), setvalues=dict(fixed), options=opt)
        n = R.randint(1, 20) if R.random() < 0.7 else R.randint(21, 300)
        fn = os.path.join(tmp, "cfg.json")
        chunk = R.choice([None, R.randint(1, n + 3), 1 + n // R.randint(11, 130)])
        meta = R.choice([None, {"who": "me", "n": n}])
        pre = R.choice(["", "x", "run_"])
        out = d.make_config_lists(n, json_fname=fn, indexer_pre=pre, max_chunk_size=chunk, meta_info=meta)
        chunked = chunk is not None and chunk <= n
        flat = [c for l in out for c in l] if chunked else out
        env.eq("number of configurations", len(flat), n)
        env.check("distinct labels", len({c["Index"] for c in flat}) == n)
        for c in flat:
            check_config(env, c, prior, fixed, want)
        for p in want:
            lo, hi = prior[p]
            st = sorted(min(n - 1, int((c[home(p)][p] - lo) / (hi - lo) * n)) for c in flat)
            v = sorted((c[home(p)][p] - lo) / (hi - lo) * n for c in flat)
            env.check(f"one sample of {p} in every stratum", all(q - 1e-6 <= x <= q + 1 + 1e-6 for q, x in enumerate(v)))
        Dist = env.get(env.mod("parallel.distributionrun"), "DistributionRun")
        files = sorted(os.path.join(tmp, x) for x in os.listdir(tmp))
        env.eq("one file for each list of configurations", len(files), len(out) if chunked else 1)
        if not chunked:
            env.check("the file asked for", files == [fn])
        lists = {l[0]["Index"]: l for l in (out if chunked else [out])}
        for q, f in enumerate(files):
            with open(f, encoding="utf-8") as h:
                raw = json.load(h)
            stored = raw["configurations"] if meta is not None else raw
            want_l = lists.pop(stored[0]["Index"], None)
            env.check("file holds the configurations", stored == want_l)
            r = Dist(None, json_file_name=f)
            env.check("read back", r.cfgs == want_l)
            env.check("meta information read back", r.meta_info == meta)
            f2 = os.path.join(tmp, f"again{q}.json")
            m2 = R.choice([None, {"other": 1}])
            r.write_configs_to_json(f2, meta_info=m2)
            r2 = Dist(None, json_file_name=f2)
            env.check("written and read back", r2.cfgs == want_l)
            env.check("meta information kept", r2.meta_info == (m2 if m2 is not None else meta))
        env.check("every list in a file", not lists)
        r3 = Dist(d, numvalues=n, indexer_pre="z")
        env.eq("distribution run draws", len(r3.cfgs), n)
        for q, c in enumerate(r3.cfgs):
            check_config(env, c, prior, fixed, want)
            env.eq("label", c["Index"], f"z{q}")
        f3 = os.path.join(tmp, "r3.json")
        r3.write_configs_to_json(f3)
        env.check("a drawn distribution survives storage", Dist(None, json_file_name=f3).cfgs == r3.cfgs)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


@contract(REG, functions=[DIST + ".run_over_distribution"], samples=4, thorough=20, symbolic=False, public=True)
def distribution_runs(env):
    """A distribution run over random forcing scenarios gives one result for each configuration of the file, equal to a run of the model
    with its parameters. (bounded)"""
    import os
    import random
    import shutil
    import tempfile
    from .c17 import forcing_scenarios, single_run
    R = random.Random(env.int("seed", 0, None, 0, 2 ** 30))
    tmp = tempfile.mkdtemp(prefix="c18")
    try:
        D = env.get(env.mod(MOD), "_ConfigDistro")
        Dist = env.get(env.mod("parallel.distributionrun"), "DistributionRun")
        prior = {"lambda": [0.3, 1.2], "akapa": [0.1, 0.8], "W": [0.6, 2.5], "foan": [0.5, 0.7], "mixed": [30, 110]}
        d = D(distro_dict=prior, setvalues={"lm": 20, "ldtime": 6}, options={"forc": True})
        n = R.randint(1, 5)
        f = os.path.join(tmp, "c.json")
        Dist(d, numvalues=n, indexer_pre="a").write_configs_to_json(f)
        r = Dist(None, json_file_name=f)
        scens = forcing_scenarios(R, R.randint(1, 2))
        var = ["Surface Air Ocean Blended Temperature Change", "Heat Uptake"]
        res = r.run_over_distribution(scens[0]() if len(scens) == 1 else [s() for s in scens], var, max_workers=R.choice([1, 2, 3]))
        env.eq("number of rows", len(res), n * len(scens) * len(var))
        for s in scens:
            for c in r.cfgs:
                one = single_run(env, s(), c)
                for v in var:
                    row = res[(res["scenario"] == s()["scenname"]) & (res["run_id"] == c["Index"]) & (res["variable"] == v)]
                    env.eq("exactly one row", len(row), 1)
                    if len(row) == 1:
                        years = list(range(s()["nystart"], s()["nyend"] + 1))
                        env.eq("values", row[years].to_numpy(dtype=float)[0], one[v])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# README, "Parameters": default values and valid ranges
DOCUMENTED_DEFAULT = {"threstemp": 7.0, "lm": 40, "ldtime": 12, "qbmb": 0.0, "qh2o_ch4": 0.091915}
DOCUMENTED_RANGE = {"rlamdo": (5, 25), "akapa": (0.06, 0.8), "cpi": (0.161, 0.569), "W": (0.55, 2.55), "beto": (0, 7), "mixed": (25, 125),
                    "ocean_efficacy": (0, 2)}


@contract(REG, functions=[CLS + ".__init__", CLS + "._set_pamsets_start", CLS + ".make_config_lists"], samples=12, thorough=60, symbolic=False, public=True)
def default_distributions(env):
    """Left to the defaults (priors, fixed values, options, any of them), also after other distributions were made and their values,
    options and configurations changed by the user: the samples are in the default priors, the default fixed values kept, all placed in
    the set of their component; defaults and ranges are those of the README. (bounded)"""
    import copy
    import random
    R = random.Random(env.int("seed", 0, None, 0, 2 ** 30))
    m = env.mod(MOD)
    D, prior0, fixed0 = env.get(m, "_ConfigDistro"), copy.deepcopy(env.get(m, "prior_flat")), copy.deepcopy(env.get(m, "set_values_default"))
    for q in range(3):
        own = {p: [0.0, 1.0] for p in R.sample(sorted(prior0), 5)}
        vals = {p: R.uniform(0, 1) for p in R.sample(sorted(prior0), R.randint(0, 4))}
        kw = {}
        if R.random() < 0.3:
            kw["distro_dict"] = own
        if R.random() < 0.4:
            kw["setvalues"] = dict(vals)
        if R.random() < 0.5:
            kw["options"] = {"forc": R.random() < 0.5} if R.random() < 0.7 else {"method": "latin"}
        forc = kw.get("options", {}).get("forc", False)
        prior = own if "distro_dict" in kw else prior0
        fixed = vals if "setvalues" in kw else fixed0
        want = [p for p in prior if p not in fixed and (not forc or p in THERMAL)]
        if not want:
            continue
        n = R.randint(1, 9)
        d = D(**kw)
        out = d.make_config_lists(n)
        for i, c in enumerate(out):
            check_config(env, c, prior, fixed, want)
            env.eq("label", c["Index"], str(i))
            every = {**c["pamset_udm"], **c["pamset_emiconc"], **c["pamset_carbon"]}
            for p in [] if "setvalues" in kw else DOCUMENTED_DEFAULT:
                if p in every and p not in want:
                    env.eq("documented default of " + p, every[p], DOCUMENTED_DEFAULT[p])
            for p in [] if "distro_dict" in kw else [p for p in want if p in DOCUMENTED_RANGE]:
                env.check("documented range of " + p, DOCUMENTED_RANGE[p][0] <= every[p] <= DOCUMENTED_RANGE[p][1])
        # what a user does with the results stays in the results
        for c in out:
            c["pamset_udm"]["lm"] = -1
            c["pamset_carbon"]["rb_coef0"] = -1
            c["pamset_emiconc"]["extra"] = -1
        for i, c in enumerate(d.make_config_lists(n)):
            check_config(env, c, prior, fixed, want)


def raise_reject():
    from pyvc.env import Reject
    raise Reject()
