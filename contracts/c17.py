"""C17 parallel ensemble results equal one-by-one runs"""
from pyvc.contract import contract

LEVEL = "proof"
REG = []
TRUSTED = ["concurrent.futures: submit(f, *a, **k) evaluates f(*a, **k) in some process, result() gives its value, as_completed gives each future once in any order",
           "pandas.concat keeps every row of every table given (checked concretely)"]
ASSUMPTIONS = ["worker processes do not fail; pickling keeps the scenario data and configurations (checked concretely)"]
WR = "parallel.cscmparwrapper"
PP = "parallel._parallel_process"


# ------------------------------------------------------------------ scenarios and stand-alone runs
def forcing_scenarios(R, n):
    """forcing-driven scenarios: zero-argument functions, each giving a fresh scenario dictionary"""
    import numpy as np
    import pandas as pd
    y0, ny = R.randint(1800, 2000), R.randint(3, 9)
    gas = pd.DataFrame({"EM_UNIT": "Tg", "CONC_UNIT": "ppt"}, index=["CO2", "CH4", "N2O", "BMB_AEROS_OC", "BMB_AEROS_BC", "LANDUSE", "OTHER", "SO4_IND", "TROP_O3", "STRAT_O3",
                                                                     "STRAT_H2O", "BMB_AEROS"])
    gas["NAT_EM"] = 1.0
    out = []
    for k in range(n):
        a = np.array([R.uniform(-1, 5) for _ in range(ny)])
        th = R.choice(["default", "twolayer"])
        out.append(lambda a=a, k=k, th=th: {"nystart": y0, "nyend": y0 + ny - 1, "emstart": y0, "scenname": f"s{k}", "forc_data": a.copy(), "gaspam_data": gas.copy(), "thermal_model": th})
    return out


def emission_scenarios(env, R, n):
    """emission- or concentration-driven scenarios with a shared period"""
    import copy
    from . import _scen as S
    out = []
    for k in range(n):
        s = S.scen(env, tag=f"s{k}", pert_em=R.random() < 0.3, pert_forc=R.random() < 0.3)
        out.append(lambda s=s, k=k: copy.deepcopy(dict(S.cfg(s), scenname=f"scenario {k}")))
    return out


OUT_OF = {"Surface Air Temperature Change": "dT_glob_air", "Surface Air Ocean Blended Temperature Change": "dT_glob", "Effective Radiative Forcing|Anthropogenic": ("forcing", "Total_forcing"),
          "Effective Radiative Forcing|Anthropogenic|CO2": ("forcing", "CO2"), "Effective Radiative Forcing|Anthropogenic|Aerosol|Aerosol-cloud Interactions": ("forcing", "SO4_IND"),
          "Atmospheric Concentrations|CO2": ("concentrations", "CO2"), "Atmospheric Concentrations|CH4": ("concentrations", "CH4"), "Emissions|CH4": ("emissions", "CH4"),
          "Carbon Flux|Ocean": ("carbon cycle", "Ocean carbon flux")}


def raw(results, var):
    import numpy as np
    from ciceroscm import constants as K
    if var == "Heat Uptake":
        return np.array(results["RIB_glob"], dtype=float) * K.OCEAN_AREA * K.SEC_DAY * K.DAY_YEAR / 1e21
    if var == "Heat Content|Ocean":
        return np.array(results["OHCTOT"], dtype=float) * 10
    w = OUT_OF[var]
    return np.array(results[w] if isinstance(w, str) else results[w[0]][w[1]], dtype=float)


def alone(env, scen, cfg):
    """a model of its own, run once with this configuration"""
    import copy
    m = env.mod("").CICEROSCM(scen)
    c = copy.deepcopy(cfg)
    m._run({"results_as_dict": True, "carbon_cycle_outputs": True}, pamset_udm=c.get("pamset_udm"), pamset_emiconc=c.get("pamset_emiconc"), pamset_carbon=c.get("pamset_carbon"))
    return m.results


def single_run(env, scen, cfg):
    r = alone(env, scen, cfg)

    class Out(dict):
        def __missing__(self, v):
            return raw(r, v)
    return Out()


# ------------------------------------------------------------------ splitting
@contract(REG, functions=[WR + ".run_ciceroscm_parallel"], samples=400, thorough=4000, max_paths=60)
def splitting(env):
    """Any numbers of scenarios, configurations and workers: the pieces of work handed out together hold every combination of a
    scenario and a configuration exactly once, all with the requested variables, and what is returned is put together from all of them.
    (the pool driver enters by its contract: one result per piece, in order)"""
    M = env.mod(WR)
    m, n, w = env.int("scenarios", 1, None, 1, 9), env.int("configurations", 1, None, 1, 30), env.int("workers", 1, None, 1, 24)
    env.cover()
    ov = ["a", "b"]

    def execute(cfgs=None, output_variables=None, scenariodata=None):
        return Piece(cfgs, output_variables, scenariodata)
    whole = []
    saved = {k: getattr(M, k) for k in ("_execute_run", "_parallel_process", "ProcessPoolExecutor", "pd") if hasattr(M, k)}
    if len(saved) < 4:
        from pyvc.env import AnchorMissing
        raise AnchorMissing("run_ciceroscm_parallel has other collaborators")

    class Pool:
        pv_heap = True

        def __init__(self, *a, **k):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def shutdown(self, *a, **k):
            pass

    def process(func=None, configuration=None, pool=None, config_are_kwargs=False, front_serial=3, front_parallel=2, timeout=None):
        if env.symbolic:
            from pyvc.seq import SymSeq, seq_of
            s = seq_of(configuration)
            return SymSeq(s.n, lambda i: func(**s.get(i)) if config_are_kwargs else func(s.get(i)))
        return [func(**c) if config_are_kwargs else func(c) for c in configuration]

    class PD:
        def concat(self, xs, **k):
            if not env.symbolic:
                xs = list(xs)
            whole.append(xs)
            return "the whole"

        def __getattr__(self, a):
            return getattr(saved["pd"], a)
    if env.symbolic:
        from pyvc.seq import SymSeq
        scens, cfgs = SymSeq(m, lambda i: Item(i)), SymSeq(n, lambda i: Item(i))
    else:
        scens, cfgs = [Item(i) for i in range(m)], [Item(i) for i in range(n)]
    try:
        M._execute_run, M._parallel_process, M.ProcessPoolExecutor, M.pd = execute, process, Pool, PD()
        out = M.run_ciceroscm_parallel(scens, cfgs, ov, max_workers=w)
    finally:
        for k, v in saved.items():
            setattr(M, k, v)
    env.check("one table is returned", out == "the whole" and len(whole) == 1)
    pieces = whole[0]
    if not env.symbolic:
        got = sorted((p.scen.i, c.i) for p in pieces for c in p.cfgs)
        env.check("every combination exactly once", got == sorted((a, b) for a in range(m) for b in range(n)))
        env.check("the requested variables", all(list(p.ov) == ov for p in pieces))
        env.check("no empty piece of work", all(len(p.cfgs) for p in pieces))
        env.check("the lists given are as before", [x.i for x in scens] == list(range(m)) and [x.i for x in cfgs] == list(range(n)))
        return
    R = env.length(pieces)
    # soundness of any piece
    r, q = env.int("piece", 0), env.int("position", 0)
    env.assume(r < R)
    p = env.elem(pieces, r)
    env.assume(q < env.length(p.cfgs))
    env.check("the requested variables", list(p.ov) == ov)
    a, b = p.scen.i, env.elem(p.cfgs, q).i
    env.soft = True
    env.check("a scenario given", (a >= 0) & (a < m))
    env.check("a configuration given", (b >= 0) & (b < n))
    # no combination twice
    r2, q2 = env.int("piece2", 0), env.int("position2", 0)
    env.assume(r2 < R)
    p2 = env.elem(pieces, r2)
    env.assume(q2 < env.length(p2.cfgs))
    a2, b2 = p2.scen.i, env.elem(p2.cfgs, q2).i
    env.check("a combination is in one place only", env.implies((a == a2) & (b == b2), (r == r2) & (q == q2)))
    # no combination missing: the place follows from the piece size and the number of pieces per scenario
    x, y = env.int("any scenario", 0), env.int("any configuration", 0)
    env.assume(x < m)
    env.assume(y < n)
    B = env.length(env.elem(pieces, 0).cfgs)
    env.lemma(B > 0)
    per = (n + B - 1) // B
    env.lemma(per > 0)
    place = x * per + y // B
    env.lemma((y // B < per) & (y // B >= 0))
    env.lemma((x + 1) * per <= m * per)
    env.check("number of pieces", R == m * per)
    env.lemma((place >= 0) & (place < R))
    env.lemma(place // per == x)
    p3 = env.elem(pieces, place)
    env.check("scenario in its place", p3.scen.i == x)
    env.check("position in the piece", (y % B < env.length(p3.cfgs)))
    env.check("configuration in its place", env.elem(p3.cfgs, y % B).i == y)


class Item:
    pv_heap = True

    def __init__(self, i):
        self.i = i


class Piece:
    pv_heap = True

    def __init__(self, cfgs, ov, scen):
        self.cfgs, self.ov, self.scen = cfgs, ov, scen


# ------------------------------------------------------------------ the pool driver
class Future:
    pv_heap = True

    def __init__(self, value):
        self.value = value

    def exception(self, timeout=None):
        return None

    def result(self, timeout=None):
        return self.value

    def done(self):
        return True

    def cancelled(self):
        return False


@contract(REG, functions=[PP + "._parallel_process", PP + "._run_parallel", PP + "._run_serial", PP + ".progress"], samples=60, thorough=400)
def pool_driver(env):
    """Any number of pieces, any numbers of leading serial and parallel ones, with or without a pool, arguments given by name or not, and
    any order of completion: one result per piece, in the order of the pieces."""
    M = env.mod(PP)
    n = env.int("pieces", 0, None, 0, 12)
    fs, fp = env.int("front serial", 0, None, 0, 5), env.int("front parallel", 0, None, 0, 5)
    kwargs = env.choice("by name", [True, False])
    pooled = env.choice("pool", [True, False])
    env.cover()
    seen = []

    def func(i=None):
        seen.append(1)
        return Item(i)
    if env.symbolic:
        import z3
        from pyvc.core import Num, num
        from pyvc.seq import SymSeq, seq_of
        cfg = SymSeq(n, lambda i: {"i": i} if kwargs else i)

        class Pool:
            pv_heap = True

            def submit(self, f, *a, **k):
                return Future(f(*a, **k))

        def as_completed(fs, timeout=None):
            s = seq_of(fs)
            perm = z3.Function("order", z3.IntSort(), z3.IntSort())
            return SymSeq(s.n, lambda i: s.get(Num(perm(num(i).e), True)))
        env.set(M, "as_completed", as_completed)
        out = M._parallel_process(func=func, configuration=cfg, pool=Pool() if pooled else None, config_are_kwargs=kwargs, front_serial=fs, front_parallel=fp)
    else:
        import time
        from concurrent.futures import ThreadPoolExecutor
        R = env.rng
        delays = [R.choice([0, 0.001, 0.004]) for _ in range(n)]
        f0 = func

        def slow(i=None):
            time.sleep(delays[i])
            return f0(i)
        cfg = [{"i": i} if kwargs else i for i in range(n)]
        with ThreadPoolExecutor(max_workers=R.randint(1, 4)) as p:
            out = M._parallel_process(func=slow, configuration=cfg, pool=p if pooled else None, config_are_kwargs=kwargs, front_serial=fs, front_parallel=fp)
        env.eq("each piece once", len(seen), n)
        env.check("configuration as before", cfg == [{"i": i} if kwargs else i for i in range(n)])
    env.eq("one result per piece", env.length(out), n)
    k = env.int("any", 0, None, 0, 11)
    env.assume(k < n)
    env.eq("result of its own piece", env.elem(out, k).i, k)


# ------------------------------------------------------------------ one piece of work
@contract(REG, functions=[WR + "._execute_run", WR + ".CSCMParWrapper.__init__", WR + ".CSCMParWrapper.run_over_cfgs"], samples=20)
def one_piece(env):
    """Three configurations of one scenario, any model and any results, some variables not available: each configuration starts from a
    model no run has changed, gets exactly its own parameter sets, and each available variable gives one row with the labels of that
    configuration and scenario, the values and unit of that variable."""
    import pandas as pd
    M = env.mod(WR)
    log = []
    have = [env.choice(f"available{v}", [True, False]) for v in range(2)] + [True]
    fixed = [env.choice(f"sets{k}", [("pamset_udm", "pamset_emiconc", "pamset_carbon"), ("pamset_udm",)]) for k in range(2)]
    names = ["v0", "v1", "v2"]
    val = {(j, v, y): env.anyreal(f"x.{j}.{v}.{y}") for j in range(3) for v in range(3) for y in range(2)}
    want = {}

    class Model:
        pv_heap = True

        def __init__(self, cfg):
            log.append(("new", cfg))
            self.cfg, self.runs, self.results = cfg, 0, {}

        def __deepcopy__(self, memo):
            m = Model.__new__(Model)
            m.cfg, m.runs, m.results = self.cfg, self.runs, dict(self.results)
            return m

        def __copy__(self):
            m = Model.__new__(Model)
            m.cfg, m.runs, m.results = self.cfg, self.runs, self.results
            m.parent = self
            return m

        def _run(self, cfg, pamset_udm=None, pamset_emiconc=None, pamset_carbon=None, make_plot=False):
            log.append(("run", self.runs, pamset_udm, pamset_emiconc, pamset_carbon, dict(cfg)))
            self.runs += 1
            if getattr(self, "parent", None) is not None:
                self.parent.runs += 1
            self.results["who"] = pamset_udm["who"]

    class Reader:
        pv_heap = True

        def __init__(self, nystart, nyend):
            log.append(("reader", nystart, nyend))

        def get_variable_timeseries(self, results, variable, sfilewriter):
            j, v = results["who"], names.index(variable)
            log.append(("units", sfilewriter.what))
            if not have[v]:
                return pd.Series([], dtype="float64"), pd.Series([], dtype="float64"), "NoUnit"
            return [2001, 2002], [val[j, v, 0], val[j, v, 1]], "unit" + variable

    class Writer:
        pv_heap = True

        def __init__(self, gaspam_file, nystart=None, nyend=None):
            self.what = gaspam_file
    real = {}
    for k, v in (("CICEROSCM", Model), ("CSCMREADER", Reader), ("COMMONSFILEWRITER", Writer)):
        real[k] = env.get(M, k)
        env.set(M, k, v)
    if env.symbolic:
        class PD:
            Series, DataFrame, concat = pd.Series, pd.DataFrame, staticmethod(pd.concat)
        env.set(M, "pd", PD())
    src = env.choice("gases", ["gaspam_file", "gaspam_data"])
    scen = {"nystart": 2001, "nyend": 2002, "scenname": "my scenario", src: "GAS"}
    cfgs = []
    for k in range(3):
        c = {"Index": f"cfg {k}", "pamset_udm": {"who": k}}
        for q in (fixed[k] if k < 2 else ()):
            c.setdefault(q, {"q": (q, k)})
        cfgs.append(c)
    before = [{q: dict(v) if isinstance(v, dict) else v for q, v in c.items()} for c in cfgs]
    env.cover()
    try:
        out = M._execute_run(cfgs, list(names), dict(scen))
    finally:
        for k, v in real.items():
            setattr(M, k, v)
    runs = [e for e in log if e[0] == "run"]
    env.check("one run per configuration", len(runs) == 3)
    for k, e in enumerate(runs):
        env.check("from an unchanged model", e[1] == 0)
        env.check("its own parameter sets", all(e[2 + i] == cfgs[k].get(q) for i, q in enumerate(("pamset_udm", "pamset_emiconc", "pamset_carbon"))))
        env.check("results kept in memory", e[5].get("results_as_dict") is True)
    env.check("the scenario's own data", all(e[1].get("scenname") == "my scenario" and e[1].get(src) == "GAS" and e[1]["nystart"] == 2001 and e[1]["nyend"] == 2002
                                             for e in log if e[0] == "new"))
    env.check("the scenario's own years", all(e[1:] == (2001, 2002) for e in log if e[0] == "reader"))
    env.check("the scenario's own units", all(e[1] == "GAS" for e in log if e[0] == "units"))
    env.check("configurations as before", [{q: v for q, v in c.items()} for c in cfgs] == before)
    env.eq("rows", len(out), 3 * sum(have))
    env.check("columns", set(out.columns) == {"climate_model", "model", "run_id", "scenario", "region", "variable", "unit", 2001, 2002})
    rows = [dict(zip(out.columns, [out.iloc[r, c] for c in range(len(out.columns))])) for r in range(len(out))]
    for k in range(3):
        for v in range(3):
            mine = [r for r in rows if r["run_id"] == f"cfg {k}" and r["variable"] == names[v]]
            env.check("one row per configuration and variable", len(mine) == (1 if have[v] else 0))
            for r in mine:
                env.check("scenario label", r["scenario"] == "my scenario" and r["model"] == "my scenario")
                env.check("unit of the variable", r["unit"] == "unit" + names[v])
                env.eq("value, first year", r[2001], val[k, v, 0])
                env.eq("value, second year", r[2002], val[k, v, 1])


# ------------------------------------------------------------------ whole ensembles
def configurations(R, n, thermal, emissions):
    from . import _scen as S
    out = []
    for k in range(n):
        c = {"Index": R.choice([k, f"run {k}"]) if R.random() < 0.7 else 1000 - k, "pamset_udm": S.udm_pams(R, thermal)}
        if emissions and R.random() < 0.7:
            c["pamset_emiconc"] = {q: R.uniform(-0.05, 0.05) for q in ("qo3", "qbc", "qdirso2", "qindso2") if R.random() < 0.6}
        if emissions and R.random() < 0.6:
            c["pamset_carbon"] = {"beta_f": R.uniform(0.1, 0.5)} if R.random() < 0.6 else {"mixed_carbon": R.uniform(40, 110)}
        if out and R.random() < 0.5:      # as an earlier one, all but the values of one set
            like = out[R.randrange(len(out))]
            q = R.choice([q for q in like if q != "Index"])
            c = {"Index": c["Index"], **{r: (v if R.random() < 0.5 else dict(v)) for r, v in like.items() if r not in ("Index", q)},
                 q: {r: v if isinstance(v, int) else v * R.uniform(0.9, 1.2) for r, v in like[q].items()} if R.random() < 0.8 else {}}
        out.append(c)
    idx = [c["Index"] for c in out]
    for k, c in enumerate(out):
        if idx.count(c["Index"]) > 1:
            c["Index"] = f"unique {k}"
    return out


@contract(REG, functions=[WR + ".run_ciceroscm_parallel", WR + "._execute_run", WR + ".CSCMParWrapper.run_over_cfgs", PP + "._parallel_process"], samples=20, thorough=120, symbolic=False, public=True)
def ensembles(env):
    """Whole ensembles, emission- or forcing-driven, with one or several workers: one row per combination and variable, equal to a model of
    its own run once with that configuration; the given configurations keep their values. (bounded)"""
    import copy
    import random
    import numpy as np
    R = random.Random(env.int("seed", 0, None, 0, 2 ** 30))
    emi = R.random() < 0.6
    ns, nc = (R.randint(1, 3), R.randint(1, 5)) if emi else (R.randint(1, 4), R.randint(1, 7))
    if emi:
        scens = emission_scenarios(env, R, ns)
        var = ["Surface Air Ocean Blended Temperature Change", "Effective Radiative Forcing|Anthropogenic", "Effective Radiative Forcing|Anthropogenic|CO2", "Atmospheric Concentrations|CO2", "Emissions|CH4",
               "Carbon Flux|Ocean", "Heat Content|Ocean", "Not a variable"]
        th = "default"
        cfgs = configurations(R, nc, th, True)
        for c in cfgs:
            c["pamset_udm"] = {k: v for k, v in c["pamset_udm"].items() if k in ("lambda", "mixed", "foan", "foas")}
    else:
        scens = forcing_scenarios(R, ns)
        var = ["Surface Air Ocean Blended Temperature Change", "Heat Uptake"]
        cfgs = configurations(R, nc, "default", False)
        for c in cfgs:
            c["pamset_udm"] = {k: v for k, v in c["pamset_udm"].items() if k in ("lambda", "mixed", "foan", "foas")}
    R.shuffle(var)
    given = copy.deepcopy(cfgs)
    w = R.choice([1, 1, 2, 3, 5])
    data = [s() for s in scens]
    res = env.mod(WR).run_ciceroscm_parallel(data, cfgs, list(var), max_workers=w)
    known = [v for v in var if v != "Not a variable"]
    env.eq("number of rows", len(res), ns * nc * len(known))
    for a, b in zip(cfgs, given):
        env.check("configurations keep their values", a["Index"] == b["Index"] and all(a[q].get(k) == v for q in b if q != "Index" for k, v in b[q].items()))
    for s in scens:
        sc = s()
        years = list(range(sc["nystart"], sc["nyend"] + 1))
        for c in given:
            r = alone(env, s(), c)
            for v in known:
                row = res[(res["scenario"] == sc["scenname"]) & (res["run_id"] == c["Index"]) & (res["variable"] == v)]
                env.eq("one row per combination and variable", len(row), 1)
                if len(row) == 1:
                    env.check("every year of the scenario is there", set(years) <= set(res.columns))
                    env.check("model label", row["climate_model"].iloc[0] == "CICERO-SCM-PY" and row["region"].iloc[0] == "World")
                    env.eq(f"{v} as in a run of its own", row[years].to_numpy(dtype=float)[0], raw(r, v), rtol=1e-12, atol=1e-12)
                    rest = [q for q in res.columns if isinstance(q, (int, np.integer)) and q not in years]
                    env.check("no values in other years", not len(rest) or bool(np.isnan(row[rest].to_numpy(dtype=float)).all()))
