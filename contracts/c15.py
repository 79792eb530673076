"""C15 each year of a run uses and reports that year's inputs, and only the past"""
from pyvc.contract import contract

LEVEL = "proof"
REG = []
TRUSTED = []
ASSUMPTIONS = ["the yearly driver is proved for runs of four years with any component models and data (the component models are arbitrary recorded functions); longer runs are bounded"]
CLS = "ciceroscm.CICEROSCM"
NY = 4


class Driver:
    """the real driver around a carbon/forcing part and a thermal model that record what they are given and answer arbitrarily"""

    def __init__(self, env, rf=None, volc=(12, 12), names=None, feedback=("dtemp",)):
        m = env.mod("ciceroscm")
        self.m, self.env = m, env
        d = m.CICEROSCM.__new__(m.CICEROSCM)
        self.d = d
        self.log = []
        self.y0 = 1990
        self.n = 0
        log = self.log
        outs = {"RIB_glob": "RIB", "dT_glob": "dtemp", "OHC700": "OHC700", "OHCTOT": "OHCTOT", "dT_NH": "dtempnh"}
        me = self

        class Thermal:
            pv_heap = True

            def __init__(self, pams=None):
                log.append(("new", pams))
                self.k = 0

            @classmethod
            def get_output_dict_thermal(cls):
                return dict(outs)

            def get_feedback_gregory(self):
                return 1.0

            def set_feedback_gregory(self, w_aero):
                log.append(("w", w_aero))

            def energy_budget(self, forc_nh, forc_sh, fn_volc, fs_volc):
                r = {v: env.anyreal(f"v{me.n}.{v}") for v in outs.values()}
                r["unused"] = env.anyreal(f"v{me.n}.unused")
                log.append(("ebud", forc_nh, forc_sh, list(fn_volc), list(fs_volc), r))
                me.n += 1
                return r

        class Handler:
            pv_heap = True

            def reset_with_new_pams(self, pamset, pamset_carbon=None, preexisting=True):
                log.append(("reset", pamset, pamset_carbon))

            def emi2conc(self, yr, feedback_dict=None):
                log.append(("emi2conc", yr, feedback_dict))

            def conc2forc(self, yr, rf_luc, rf_sun):
                r = tuple(env.anyreal(f"f{me.n}.{q}", -2, 5) for q in ("tot", "nh", "sh", "w"))
                log.append(("conc2forc", yr, rf_luc, rf_sun, r))
                return r

            def add_results_to_dict(self, cfg, feedback_dict_series=None):
                log.append(("results", cfg, feedback_dict_series))
                return {"from handler": 1}

            def get_feedback_list(self):
                return list(feedback)
        self.outs = outs
        d.cfg = {"nystart": self.y0, "nyend": self.y0 + NY - 1, "rf_run": rf is not None, "thermal_model": "default", "carbon_cycle_model": "default", "idtm": 24,
                 "emstart": env.int("emstart", None, None, 1985, 2000)}
        d.thermal_model_class = Thermal
        d.results = {}
        self.sun = [env.anyreal(f"sun{i}", -1, 1) for i in range(NY)]
        self.luc = [env.anyreal(f"luc{i}", -1, 1) for i in range(NY)]
        self.vn = [[env.anyreal(f"vn{i}.{j}", -1, 1) for j in range(volc[0])] for i in range(NY)]
        self.vs = [[env.anyreal(f"vs{i}.{j}", -1, 1) for j in range(volc[1])] for i in range(NY)]
        years = list(range(self.y0, self.y0 + NY))
        d.rf_volc_sun = {"volc_n": self.frame(self.vn, years), "volc_s": self.frame(self.vs, years), "sun": self.frame([[x] for x in self.sun], years)}
        d.rf_luc = self.frame([[x] for x in self.luc], years)
        if rf is None:
            d.ce_handler = Handler()
            d.feedback_list = list(feedback)
        else:
            d.rf = rf(self, years)

    def frame(self, rows, index):
        import pandas as pd
        if not self.env.symbolic:
            return pd.DataFrame(rows, index=index)
        return pd.DataFrame({c: pd.Series([r[c] for r in rows], index=index, dtype=object) for c in range(len(rows[0]))})

    def of(self, what):
        return [e for e in self.log if e[0] == what]


def mean(env, xs):
    return sum(xs[1:], xs[0]) / env.lit(len(xs))


def outputs(env, D, forc):
    """what was stored for each year is what the thermal model answered for that year"""
    eb = D.of("ebud")
    for i in range(NY):
        for o, v in D.outs.items():
            env.eq(f"{o} of year {i}", D.d.results[o][i], eb[i][5][v])
        env.eq(f"total forcing of year {i}", D.d.results["Total_forcing"][i], forc[i])
        env.eq(f"solar forcing of year {i}", D.d.results["Solar_forcing"][i], D.sun[i])
        env.eq(f"volcanic forcing north of year {i}", D.d.results["Volcanic_forcing_NH"][i], mean(env, D.vn[i]))
        env.eq(f"volcanic forcing south of year {i}", D.d.results["Volcanic_forcing_SH"][i], mean(env, D.vs[i]))
    for o in list(D.outs) + ["Total_forcing", "Solar_forcing", "Volcanic_forcing_NH", "Volcanic_forcing_SH"]:
        env.eq("one value per year: " + o, len(D.d.results[o]), NY)


def volcanic(env, D):
    for i, e in enumerate(D.of("ebud")):
        for nm, got, want in (("north", e[3], D.vn[i]), ("south", e[4], D.vs[i])):
            env.eq(f"volcanic values passed, {nm}", len(got), len(want))
            for a, b in zip(got, want):
                env.eq(f"volcanic input of year {i}, {nm}", a, b)


@contract(REG, functions=[CLS + "._run", CLS + ".add_year_data_to_output", CLS + ".initialise_output_arrays"], samples=30)
def driver(env):
    """Four years, any forcing part and thermal model, any sun, volcano (any number of columns) and land-use values: each year takes that
    year's inputs in order (concentrations with the temperature of the year before, forcing, feedback, thermal model) and stores that
    year's answers; a second run starts from a new thermal model and repeats the same calls."""
    D = Driver(env, volc=env.choice("volc", [(12, 12), (1, 1), (4, 13)]), feedback=("dtemp", "OHC700") if env.choice("fb", [0, 1]) else ("dtemp",))
    d = D.d
    p = ({"a": 1}, {"b": 2}, {"c": 3})
    env.cover()
    for run in range(2):
        del D.log[:]
        d._run({"results_as_dict": True}, pamset_udm=p[0], pamset_emiconc=p[1], pamset_carbon=p[2])
        kinds = [e[0] for e in D.log if e[0] in ("emi2conc", "conc2forc", "w", "ebud")]
        env.check("each year once, in order", kinds == ["emi2conc", "conc2forc", "w", "ebud"] * NY)
        new, reset = D.of("new"), D.of("reset")
        env.check("a new thermal model with the parameters given", len(new) == 1 and new[0][1] == p[0])
        env.check("a reset with the parameters given, before the years", len(reset) == 1 and reset[0][1:] == (p[1], p[2]) and D.log.index(reset[0]) < [e[0] for e in D.log].index("emi2conc"))
        em, cf, w, eb = D.of("emi2conc"), D.of("conc2forc"), D.of("w"), D.of("ebud")
        for i in range(NY):
            env.eq("year of the concentrations", em[i][1], D.y0 + i)
            env.eq("year of the forcing", cf[i][1], D.y0 + i)
            env.eq("land use of the year", cf[i][2], D.luc[i])
            env.eq("sun of the year", cf[i][3], D.sun[i])
            fb = em[i][2]
            if i == 0:
                env.check("no feedback in the first year", not fb or all(v == 0 for v in fb.values()))
            else:
                env.check("feedback given after the first year", isinstance(fb, dict) and all(q in fb for q in d.feedback_list))
                for q in d.feedback_list if isinstance(fb, dict) else ():
                    if q in fb:
                        env.eq(f"feedback of the year before: {q}", fb[q], eb[i - 1][5][q])
            env.eq("feedback weight of the year", w[i][1], cf[i][4][3])
            env.eq("northern forcing of the year", eb[i][1], cf[i][4][1])
            env.eq("southern forcing of the year", eb[i][2], cf[i][4][2])
        volcanic(env, D)
        outputs(env, D, [c[4][0] for c in cf])
        fin = D.of("results")
        env.check("results collected once, after the years", len(fin) == 1 and D.log[-1] is fin[0])
        fs = fin[0][2]
        for i in range(NY):
            env.eq("temperatures handed to the carbon outputs", fs["dtemp"][i], eb[i][5]["dtemp"])
        env.check("handler results in the results", d.results.get("from handler") == 1)


@contract(REG, functions=[CLS + ".forc_set", CLS + "._run"], samples=30)
def driver_with_prescribed_forcing(env):
    """Four years of prescribed forcing, as one series or per hemisphere with or without an aerosol weight: each year takes that year's
    forcing plus that year's sun, and its volcanic values, and stores that year's answers."""
    kind = env.choice("kind", ["series", "table", "table with weight"])
    tot, nh, sh, w = [[env.anyreal(f"{q}{i}", -2, 6) for i in range(NY)] for q in ("tot", "nh", "sh", "w")]

    def rf(D, years):
        if kind == "series":
            return D.m.np.array(tot)
        cols = [nh, sh, tot] + ([w] if kind != "table" else [])
        f = D.frame([list(r) for r in zip(*cols)], years)
        f.columns = ["FORC_NH", "FORC_SH", "total"] + (["w_aero"] if kind != "table" else [])
        return f
    D = Driver(env, rf=rf)
    env.cover()
    D.d._run({"results_as_dict": True}, pamset_udm={"a": 1})
    eb, ws = D.of("ebud"), D.of("w")
    env.check("each year once, in order", [e[0] for e in D.log if e[0] != "new"] == ["w", "ebud"] * NY)
    for i in range(NY):
        a, b = (tot[i], tot[i]) if kind == "series" else (nh[i], sh[i])
        env.eq("northern forcing", eb[i][1], a + D.sun[i])
        env.eq("southern forcing", eb[i][2], b + D.sun[i])
        env.eq("aerosol weight", ws[i][1], w[i] if kind == "table with weight" else 0)
    volcanic(env, D)
    outputs(env, D, [t + s for t, s in zip(tot, D.sun)])


def early(r, k):
    """the part of the results before year position k (the back-calculated carbon columns use the whole series only up to the year)"""
    import pandas as pd
    out = {}
    for q, v in r.items():
        if isinstance(v, pd.DataFrame):
            for c in v.columns:
                if v[c].dtype != object and c != "Year":
                    out[f"{q}.{c}"] = v[c].to_numpy(dtype=float)[:k]
        elif not isinstance(v, dict):
            out[q] = v[:k]
    return out


def agree(env, title, a, b):
    import numpy as np
    env.check(title + ": same outputs", set(a) == set(b))
    for q in a:
        x, y = np.array(a[q], dtype=float), np.array(b[q], dtype=float)
        ok = ~(np.isnan(x) & np.isnan(y))
        if "Airborne fraction" in q:        # undefined for the whole series when the emissions sum to zero somewhere
            ok = ok & ~np.isnan(x) & ~np.isnan(y)
        env.eq(f"{title}: {q}", x[ok], y[ok], rtol=1e-12, atol=1e-12)


@contract(REG, functions=[CLS + "._run", CLS + ".__init__", "concentrations_emissions_handler.ConcentrationsEmissionsHandler.emi2conc",
                          "concentrations_emissions_handler.ConcentrationsEmissionsHandler.conc2forc"], samples=14, thorough=250, symbolic=False, public=True)
def only_the_past(env):
    """Whole runs: changing any input from some year on (the values of the reference years apart) changes no output before; a run to an earlier
    end year, or with a later emission end, gives the same years. (bounded)"""
    import copy
    from . import _scen as S
    s = S.scen(env, pert_em=env.choice("pe", [False, True]), pert_forc=env.choice("pf", [False, True]))
    R, u = s.R, s.R.uniform
    base = copy.deepcopy(S.run(env, s))
    k = R.randrange(2, len(s.years))
    yk = s.years[k]
    t = copy.deepcopy(s)
    ref = s.p["ref_yr"]
    refs = (ref, 2000)      # 2000 is the reference year of the methane lifetime (mode TAR)
    for f in (t.emis, t.conc, t.natch4, t.natn2o):
        if f is not None and R.random() < 0.8:
            rows = [y for y in f.index if y >= yk and y not in refs]
            f.loc[rows] = f.loc[rows] * u(1.05, 1.5)
    for f in (t.sun, t.volc_n, t.volc_s, t.luc):
        if R.random() < 0.8:
            rows = [y for y in f.index if y >= yk]
            f.loc[rows] = f.loc[rows] + u(0.05, 0.4)
    if t.pert_forc is not None:
        t.pert_forc.loc[t.pert_forc["year"] >= yk, "forcing"] += 0.3
    if t.pert_em is not None:
        t.pert_em.loc[(t.pert_em["year"] >= yk) & ~t.pert_em["year"].isin(refs), "emission"] += 0.3
    other = S.run(env, t)
    agree(env, f"inputs changed from {yk} on", early(other, k), early(base, k))
    # a shorter run; perturbations of the years left out cannot be applied
    v = copy.deepcopy(s)
    v.y1 = max(s.years[max(k, 2)], ref if "ref_yr" in s.emiconc else 2010)
    n = v.y1 - s.y0 + 1
    if n >= 2 and v.y1 <= s.y1:
        v.years = s.years[:n]
        if v.pert_em is not None:
            v.pert_em = v.pert_em[v.pert_em["year"] <= v.y1].reset_index(drop=True)
        if v.pert_forc is not None:
            v.pert_forc = v.pert_forc[v.pert_forc["year"] <= v.y1].reset_index(drop=True)
        for q in ("pert_em", "pert_forc"):
            if getattr(v, q) is not None and not len(getattr(v, q)):
                setattr(v, q, None)
        short = S.run(env, v)
        agree(env, f"run to {v.y1} only", early(short, n), early(base, n))
        env.eq("years of the shorter run", len(short["dT_glob"]), n)


@contract(REG, functions=[CLS + "._run", CLS + ".forc_set"], samples=14, thorough=250, symbolic=False, public=True)
def prescribed_forcing_runs(env):
    """Whole runs with prescribed forcing, one series or per hemisphere: total and solar forcing reported are those of the year, changing
    later years changes nothing before, a shorter run gives the same years. (bounded)"""
    import numpy as np
    import pandas as pd
    import random
    R = random.Random(env.int("seed", 0, None, 0, 2 ** 30))
    u = R.uniform
    y0, n = R.randint(1750, 1990), R.randint(3, 20)
    kind = R.choice(["series", "table", "weight"])
    thermal = R.choice(["default", "twolayer"])
    years = list(range(y0, y0 + n))
    rf = np.array([u(-1, 5) for _ in years])
    nh = np.array([u(-1, 5) for _ in years])
    w = np.array([u(0, 1) for _ in years])
    sun = np.array([u(-0.3, 0.3) for _ in years])
    nv = R.choice([12, 12, 1, 24])
    volc = np.array([[u(-1, 0.1) for _ in range(nv)] for _ in years])
    C = env.mod("").CICEROSCM

    def go(rf, nh, w, sun, volc, n):
        ys = years[:n]
        data = rf[:n] if kind == "series" else pd.DataFrame({"FORC_NH": nh[:n], "FORC_SH": 2 * rf[:n] - nh[:n], "total": rf[:n], **({"w_aero": w[:n]} if kind == "weight" else {})}, index=ys)
        m = C({"nystart": y0, "nyend": y0 + n - 1, "forc_data": data, "thermal_model": thermal, "sunvolc": 1, "rf_sun_data": pd.DataFrame(sun[:n], index=ys),
               "rf_volc_n_data": pd.DataFrame(volc[:n], index=ys), "rf_volc_s_data": pd.DataFrame(volc[:n] / 2, index=ys)})
        m._run({"results_as_dict": True}, pamset_udm={"delta_lambda_aero": 0.2} if kind == "weight" else {})
        return {k: np.array(v) for k, v in m.results.items()}
    base = go(rf, nh, w, sun, volc, n)
    env.eq("total forcing", base["Total_forcing"], rf + sun)
    env.eq("solar forcing", base["Solar_forcing"], sun)
    env.eq("volcanic forcing", base["Volcanic_forcing_NH"], volc.mean(axis=1))
    k = R.randrange(1, n)
    cut = np.arange(n) >= k
    other = go(rf + cut, nh - 2 * cut, np.where(cut, w / 2, w), sun + 0.1 * cut, volc - 0.2 * cut[:, None], n)
    agree(env, f"changed from position {k}", early(other, k), early(base, k))
    env.check("later years do change", not np.allclose(other["dT_glob"][k:], base["dT_glob"][k:], rtol=0, atol=1e-9))
    short = go(rf, nh, w, sun, volc, k)
    agree(env, "shorter run", early(short, k), early(base, k))


@contract(REG, functions=[CLS + "._run", CLS + ".write_data_to_file", "concentrations_emissions_handler.ConcentrationsEmissionsHandler.write_output_to_files",
                          "concentrations_emissions_handler.ConcentrationsEmissionsHandler.add_results_to_dict"], samples=10, thorough=120, symbolic=False, public=True)
def output_files(env):
    """Whole runs written to files: every file has the values of the same run kept in memory for every year, to the six digits printed. (bounded)"""
    import os
    import shutil
    import tempfile
    import numpy as np
    import pandas as pd
    from . import _scen as S
    s = S.scen(env)
    R = s.R
    rf = R.random() < 0.3
    carbon = R.random() < 0.7
    if rf:
        n = len(s.years)
        data = np.array([R.uniform(-1, 5) for _ in range(n)])
        if R.random() < 0.5:
            data = pd.DataFrame({"FORC_NH": data + 0.3, "FORC_SH": data - 0.3, "total": data}, index=s.years)
        make = lambda: env.mod("").CICEROSCM({"nystart": s.y0, "nyend": s.y1, "forc_data": data, "thermal_model": s.thermal, "sunvolc": 1,
                                              "rf_sun_data": s.sun, "rf_volc_n_data": s.volc_n, "rf_volc_s_data": s.volc_s})
    else:
        make = lambda: S.model(env, s)
    cfg = {"carbon_cycle_outputs": True} if carbon else {}
    pams = lambda: dict(pamset_udm=dict(s.udm), pamset_emiconc=dict(s.emiconc), pamset_carbon=None)
    m = make()
    m._run(dict(cfg, results_as_dict=True), **pams())
    res = m.results
    tmp = tempfile.mkdtemp(prefix="c15")
    try:
        pre = R.choice(["output", "x", "run_1"])
        m = make()
        c = dict(cfg, output_folder=tmp)
        if pre != "output":
            c["output_prefix"] = pre
        m._run(c, **pams())
        want = {"ohc": ["OHC700", "OHCTOT"], "rib": ["RIB_glob", "RIB_N", "RIB_S"], "sunvolc": ["Solar_forcing", "Volcanic_forcing_NH", "Volcanic_forcing_SH"],
                "temp": ["dT_glob", "dT_NH", "dT_SH", "dT_glob_air", "dT_NH_air", "dT_SH_air", "dT_glob_sea", "dT_NH_sea", "dT_SHsea"]}
        tabs = {k: {v: np.array(res[v]) for v in vs if v in res} for k, vs in want.items()}
        if rf:
            tabs["forc"] = {"Total_forcing": np.array(res["Total_forcing"])}
        else:
            for k, f in (("emissions", "em"), ("concentrations", "conc"), ("forcing", "forc")):
                tabs[f] = {c: res[k][c].to_numpy() for c in res[k].columns if c != "Year"}
            if carbon and res["carbon cycle"] is not None:
                tabs["carbon"] = {c: res["carbon cycle"][c].to_numpy() for c in res["carbon cycle"].columns}
        for f, cols in tabs.items():
            t = pd.read_csv(os.path.join(tmp, f"{pre}_{f}.txt"), sep="\t")
            if f != "carbon":
                env.check(f"years of {f}", list(t["Year"].astype(int)) == s.years)
            env.check(f"columns of {f}", set(t.columns) - {"Year"} == set(cols) - {"Year"})
            for c, v in cols.items():
                got = t[c].to_numpy(dtype=float)
                v = np.asarray(v, dtype=float)
                env.check(f"{f} {c}", got.shape == v.shape and bool(np.allclose(got, v, rtol=6e-6, atol=1e-30, equal_nan=True)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
