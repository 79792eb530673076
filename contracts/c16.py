"""C16 input data are selected and sliced by year as configured"""
from pyvc.contract import contract

LEVEL = "proof"
REG = []
TRUSTED = ["pandas.read_csv gives the rows of the file in order, labelled as its arguments say (the files of the proofs; real files in the bounded harnesses)",
           "pandas drop/rename/set_index/column operations on tables with one row per year (pyvc/frames.py)"]
ASSUMPTIONS = ["start years from 1750 on for files without year labels; natural emission files have one row for every year 1750-2500",
               "in-memory solar, volcanic and land-use tables start in the start year"]
MOD = "input_handler"
IH = MOD + ".InputHandler"


class Files:
    """what read_csv returns for each of the files of a proof"""

    def __init__(self, env, M):
        self.env, self.asked, self.files = env, [], {}
        self.real = M.pd
        self.M = M

    def __enter__(self):
        self.M.pd = self
        return self

    def __exit__(self, *a):
        self.M.pd = self.real

    def __getattr__(self, n):
        return getattr(self.real, n)

    def rows(self, path, name, n, cols):
        """a file of n rows without labels"""
        self.files[path] = ("rows", name, n, cols)

    def table(self, path, name, y0, y1, cols):
        """a file of years with a header and three lines of description"""
        self.files[path] = ("table", name, y0, y1, cols)

    def header(self, path, units):
        """the header and the line of units of a table"""
        self.files[path] = ("header", units)

    def value(self, name, i, j):
        import z3
        from pyvc.core import Num, num
        return Num(z3.Function(f"{name}.{j}", z3.IntSort(), z3.RealSort())(num(i).e), False)

    def read_csv(self, path, sep=",", header="infer", names=None, index_col=None, skiprows=None, nrows=None, **k):
        from pyvc.core import Unsupported, num
        from pyvc.frames import YFrame, YSer
        self.asked.append(path)
        f = self.files.get(path)
        if f is None or k and set(k) - {"comment"}:
            raise Unsupported("read_csv of another kind")
        if f[0] == "header":
            if skiprows or index_col != 0 or nrows != 1 or header not in ("infer", 0):
                raise Unsupported("read_csv of a header in another way")
            return self.real.DataFrame({c: self.real.Series([v], index=["Unit"], dtype=object) for c, v in f[1].items()})
        if f[0] == "rows":
            _, name, n, cols = f
            n = num(n)
            if header is not None or not (index_col is None or index_col is False):
                raise Unsupported("read_csv with labels of a file without labels")
            skip = num(0 if skiprows is None else skiprows)
            ln = n - skip
            if nrows is not None and bool(num(nrows) < ln):
                ln = num(nrows)
            names = list(names) if names is not None else list(range(cols))
            return YFrame({c: YSer(lambda i, j=j: self.value(name, num(i) + skip, j), 0, ln - 1) for j, c in enumerate(names)}, 0, ln - 1)
        _, name, y0, y1, cols = f
        if sorted(skiprows or []) != [1, 2, 3] or index_col != 0 or nrows is not None or header not in ("infer", 0):
            raise Unsupported("read_csv of a table in another way")
        return YFrame({c: YSer(lambda y, c=c: self.value(name, y, c), y0, y1) for c in cols}, y0, y1)


NV = 3      # columns of a volcanic file
PATHS = ["/dev/null", "/dev/zero", "/dev/full", "/dev/random", "/dev/urandom"]     # existing files; their contents are never read


def years(env):
    y0 = env.int("nystart", 1750, None, 1750, 1990)
    y1 = env.int("nyend", None, None, 1760, 2000)
    env.assume(y0 <= y1)
    return y0, y1


@contract(REG, functions=[IH + ".read_data_on_year_row", IH + ".set_sun_volc_luc_defaults", IH + ".get_data", IH + ".__init__", MOD + ".check_inputfiles"], concrete=False, samples=0, max_paths=600)
def forcing_rows(env):
    """Any start and end year, each of land use, sun and volcanoes (global or per hemisphere) given as file, as data or not at all, with and
    without sunvolc: each year gets the row counted from 1750 of the file, the data given are used as they are, built-in files when nothing
    is given, zero sun and volcanoes when sunvolc is not 1."""
    import os
    M = env.mod(MOD)
    y0, y1 = years(env)
    sv = env.choice("sunvolc", [0, 1])
    luc, sun = env.choice("luc and sun", [("file", "data"), ("data", "none"), ("none", "file"), ("data", "file")])
    how = {"rf_luc": luc, "rf_sun": sun}
    volc = env.choice("volc", ["file", "data", "files", "datas", "none"])
    cfg = {"nystart": y0, "nyend": y1, "emstart": y0}
    if sv or env.choice("sunvolc given", [True, False]):
        cfg["sunvolc"] = sv
    tag = {}
    want = {}
    with Files(env, M) as F:
        n = y1 - 1750 + 1 + env.int("further rows", 0)
        src = dict(how)
        for w, x in (("rf_volc", volc if volc in ("file", "data") else "none"), ("rf_volc_n", {"files": "file", "datas": "data"}.get(volc, "none")),
                     ("rf_volc_s", {"files": "file", "datas": "data"}.get(volc, "none"))):
            src[w] = x
        for k, (w, x) in enumerate(sorted(src.items())):
            if x == "file":
                cfg[w + "_file"] = PATHS[k]
                F.rows(PATHS[k], w, n, NV if "volc" in w else 1)
            elif x == "data":
                cfg[w + "_data"] = tag[w] = Tag(w)
        dd = env.get(M, "default_data_dir")
        for nm in ("IPCC_LUCalbedo.txt", "solar_IPCC.txt", "meanVOLCmnd_ipcc_NH.txt"):
            F.rows(os.path.join(dd, nm), nm, n, NV if "VOLC" in nm else 1)
        env.cover()
        h = M.InputHandler(cfg)
        y = env.int("any year", None, None)
        env.assume((y >= y0) & (y <= y1))
        for w in ("rf_luc", "rf_sun", "rf_volc_n", "rf_volc_s"):
            got = h.get_data(w)
            x = src[w]
            name = w
            if w.startswith("rf_volc") and x == "none":
                x, name = src["rf_volc"], "rf_volc"
            cols = NV if "volc" in w else 1      # (zero tables have twelve)
            if w != "rf_luc" and not sv:
                env.eq(f"{w}: one row per year", env.length(got), y1 - y0 + 1)
                for j in range(cols):
                    env.eq(f"{w}: zero without sunvolc", got.iloc[y - y0, j], 0)
            elif x == "data":
                env.check(f"{w}: the data given", got is tag[name])
            else:
                if x == "none":
                    name = {"rf_luc": "IPCC_LUCalbedo.txt", "rf_sun": "solar_IPCC.txt"}.get(w, "meanVOLCmnd_ipcc_NH.txt")
                env.eq(f"{w}: one row per year", env.length(got), y1 - y0 + 1)
                for j in range(cols):
                    env.eq(f"{w}: the row of the year", got.iloc[y - y0, j], F.value(name, y - 1750, j))


class Tag:
    pv_heap = True

    def __init__(self, n):
        self.n = n


EMCOLS = ["CO2", "CO2.1", "CH4", "N2O", "SO2"]


@contract(REG, functions=[MOD + ".read_inputfile", IH + ".read_emissions", MOD + ".read_natural_emissions", IH + ".get_data"], concrete=False, samples=0, max_paths=400)
def tables(env):
    """Any start and end year and any files of years containing them: emissions and concentrations cover exactly the configured years, each
    with its own year's values, CO2 as fossil and land-use part; natural emissions of a year are the row counted from 1750."""
    M = env.mod(MOD)
    y0, y1 = years(env)
    env.assume(y1 <= 2500)
    f0, f1, g0, g1 = [env.int(q, None, None) for q in ("first em", "last em", "first conc", "last conc")]
    for a, b in ((f0, f1), (g0, g1)):
        env.assume((a <= y0) & (b >= y1))
    cfg = {"nystart": y0, "nyend": y1, "emstart": y0, "emissions_file": PATHS[0], "concentrations_file": PATHS[1], "nat_ch4_file": PATHS[2], "nat_n2o_file": PATHS[3]}
    with Files(env, M) as F:
        F.table(PATHS[0], "em", f0, f1, EMCOLS)
        F.table(PATHS[1], "conc", g0, g1, ["CO2", "CH4", "N2O"])
        F.rows(PATHS[2], "natch4", 751, 1)
        F.rows(PATHS[3], "natn2o", 751, 1)
        env.cover()
        h = M.InputHandler(cfg)
        y = env.int("any year", None, None)
        env.assume((y >= y0) & (y <= y1))
        em = h.get_data("emissions")
        env.check("emission columns", set(em.columns) == {"CO2_FF", "CO2_AFOLU", "CH4", "N2O", "SO2"})
        co = h.get_data("concentrations")
        for nm, t in (("emissions", em), ("concentrations", co)):
            env.eq(f"{nm} start in the start year", t.index[0], y0)
            env.eq(f"{nm} end in the end year", t.index[-1], y1)
        for c in EMCOLS:
            to = {"CO2": "CO2_FF", "CO2.1": "CO2_AFOLU"}.get(c, c)
            env.eq(f"emissions of {c}", em[to][y], F.value("em", y, c))
        for c in ("CO2", "CH4", "N2O"):
            env.eq(f"concentrations of {c}", co[c][y], F.value("conc", y, c))
        for w, g in (("natch4", "CH4"), ("natn2o", "N2O")):
            t = h.get_data("nat_" + g.lower())
            env.eq(f"natural emissions of {g}", t[g][y], F.value(w, y - 1750, 0))


@contract(REG, functions=[IH + ".get_flat_natural_emissions", IH + ".get_data", IH + ".optional_pam"], concrete=False, samples=0, max_paths=200)
def flat_natural_emissions(env):
    """Natural emissions not given: the value of the gas table in every configured year; given ones and all other in-memory data are used
    as they are; a file wins over data of the same kind."""
    M = env.mod(MOD)
    y0, y1 = years(env)
    gas = env.gastable({g: {"EM_UNIT": "X", "CONC_UNIT": "-", "NAT_EM": env.anyreal("nat." + g)} for g in
                        ["CO2", "CH4", "N2O", "LANDUSE", "OTHER", "SO4_IND", "TROP_O3", "STRAT_O3", "STRAT_H2O", "BMB_AEROS"]})
    cfg = {"nystart": y0, "nyend": y1, "emstart": y0, "gaspam_data": gas}
    kinds = ["emissions", "concentrations", "perturb_em", "perturb_forc", "forc", "rf_luc"]
    for k in kinds:
        cfg[k + "_data"] = Tag(k)
    given = env.choice("given", [(), ("CH4",), ("N2O",), ("CH4", "N2O")])
    for g in given:
        cfg[f"nat_{g.lower()}_data"] = Tag(g)
    both = env.choice("file and data", [False, True])
    with Files(env, M) as F:
        if both:
            cfg["rf_luc_file"] = PATHS[0]
            F.rows(PATHS[0], "luc", y1 - 1750 + 1, 1)
        env.cover()
        h = M.InputHandler(cfg)
        y = env.int("any year", None, None)
        env.assume((y >= y0) & (y <= y1))
        for g in ("CH4", "N2O"):
            t = h.get_data(f"nat_{g.lower()}")
            if g in given:
                env.check(f"natural emissions of {g} as given", getattr(t, "n", None) == g)
            else:
                env.eq(f"natural emissions of {g} flat", t[g][y], gas.at[g, "NAT_EM"])
                env.eq(f"natural emissions of {g} start", t.index[0], y0)
                env.eq(f"natural emissions of {g} end", t.index[-1], y1)
        for k in kinds:
            t = h.get_data(k)
            if k == "rf_luc" and both:
                env.eq("a file wins over data", t.iloc[y - y0, 0], F.value("luc", y - 1750, 0))
            else:
                env.check(f"{k} data as given", getattr(t, "n", None) == k)
        env.check("gas table as given", h.get_data("gaspam") is gas)


@contract(REG, functions=[MOD + ".read_forc"], concrete=False, samples=0, max_paths=100)
def forcing_tables(env):
    """A table of prescribed forcing with hemispheres, components or a total, any years and values: total and hemispheric forcing of every
    year as documented (mean of the hemispheres; sum of the components, equal in both hemispheres)."""
    import os
    import tempfile
    M = env.mod(MOD)
    cols = env.choice("columns", [("FORC_NH", "FORC_SH"), ("CO2", "CH4"), ("SO2", "CO2", "BC_ASIA", "NH3"), ("FORC_NH", "FORC_SH", "total")])
    y0, y1 = env.int("first", None), env.int("last", None)
    env.assume(y0 <= y1)
    fd, path = tempfile.mkstemp(prefix="c16")
    os.write(fd, ("year," + ",".join(cols) + "\n").encode())
    os.close(fd)
    try:
        with Files(env, M) as F:
            from pyvc.frames import YFrame, YSer

            def read_csv(p, index_col=None, **k):
                if p != path or index_col != 0 or k:
                    from pyvc.core import Unsupported
                    raise Unsupported("read_csv")
                return YFrame({c: YSer(lambda y, c=c: F.value("f", y, c), y0, y1) for c in cols}, y0, y1)
            F.read_csv = read_csv
            M.open = open
            env.cover()
            t = M.read_forc(path)
    finally:
        os.unlink(path)
    y = env.int("any year", None)
    env.assume((y >= y0) & (y <= y1))
    v = {c: F.value("f", y, c) for c in cols}
    for c in cols:
        env.eq("columns as in the file", t[c][y], v[c])
    if "total" in cols:
        return
    if "FORC_NH" in cols:
        env.eq("total from the hemispheres", t["total"][y], (v["FORC_NH"] + v["FORC_SH"]) / 2)
    else:
        tot = sum(list(v.values())[1:], list(v.values())[0])
        for c in ("total", "FORC_NH", "FORC_SH"):
            env.eq(f"{c} from the components", t[c][y], tot)


UGAS = ["N2O", "CO2", "LANDUSE", "CH4", "OTHER", "SO4_IND", "CFC-11", "TROP_O3", "STRAT_O3", "STRAT_H2O", "BMB_AEROS"]
EUNIT = {"CO2": "Pg_C", "CH4": "Tg", "N2O": "Tg_N", "CFC-11": "Gg"}
CUNIT = {"CO2": "ppm", "CH4": "ppb", "N2O": "ppb", "CFC-11": "ppt"}


@contract(REG, functions=[IH + "._check_gaspam_compatibility", IH + ".__init__"], samples=60, max_paths=2000, public=True)
def units(env):
    """Emission and concentration files with any line of units, columns in any order, with columns the gas table does not have and possibly without
    one of its gases: refused if and only if one gas of both has another unit than the gas table says (emissions: with all gases there)."""
    import os
    import shutil
    import tempfile
    M = env.mod(MOD)
    em = env.choice("emissions", [None, ["CO2", "CO2.1", "N2O", "CH4", "XX", "CFC-11"], ["CO2", "CO2.1", "CH4", "N2O"]])
    co = env.choice("concentrations", [None, ["CFC-11", "CH4", "N2O", "ZZ", "CO2"], ["CO2", "CH4"]])
    gas = env.gastable({g: {"EM_UNIT": EUNIT.get(g, "X"), "CONC_UNIT": CUNIT.get(g, "-"), "NAT_EM": 1.0} for g in UGAS})
    odd = ["Gg", "Tg", "ppb", "Tg_N", "ppm", "ppt", "Pg_C", "-"]
    eu = {c: env.string("emission unit " + c, [EUNIT.get(c, "Pg_C")] * 12 + odd) for c in em or []}
    cu = {c: env.string("concentration unit " + c, [CUNIT.get(c, "ppt")] * 12 + odd) for c in co or []}
    cfg = {"nystart": 2000, "nyend": 2001, "emstart": 2000, "gaspam_data": gas}
    tmp = None
    conds = [eu[g] != EUNIT[g] for g in EUNIT] if em and "CFC-11" in em else []
    conds += [cu[g] != CUNIT[g] for g in cu if g in CUNIT]
    bad = conds[0] if conds else False
    for c in conds[1:]:
        bad = bad | c
    try:
        if env.symbolic:
            with Files(env, M) as F:
                for k, path, u in (("emissions", PATHS[0], eu), ("concentrations", PATHS[1], cu)):
                    if u:
                        cfg[k + "_file"] = path
                        F.header(path, u)
                env.cover()
                refused = False
                try:
                    M.InputHandler(cfg)
                except ValueError:
                    refused = True
        else:
            tmp = tempfile.mkdtemp(prefix="c16")
            for k, u in (("emissions", eu), ("concentrations", cu)):
                if u:
                    cfg[k + "_file"] = os.path.join(tmp, k)
                    with open(cfg[k + "_file"], "w") as f:
                        f.write("\t".join(["Component"] + [c.replace(".1", "") for c in u]) + "\n" + "\t".join(["Unit"] + list(u.values())) + "\n")
                        for y in ("D", "E", "2000", "2001"):
                            f.write("\t".join([y] + ["1.0"] * len(u)) + "\n")
            refused = False
            try:
                M.InputHandler(cfg)
            except ValueError:
                refused = True
        if refused:
            env.check("only files with another unit are refused", bad)
        else:
            env.check("files with another unit are refused", ~bad if env.symbolic and conds else not bad)
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)


# ------------------------------------------------------------------ whole runs from files
def write_gases(path, s):
    names = {"TAU1": "TAU1(YEARS)", "NAT_EM": "NATURAL_EMISSIONS"}
    cols = ["EM_UNIT", "CONC_UNIT", "BETA", "ALPHA", "TAU1", "TAU2", "TAU3", "NAT_EM", "SARF_TO_ERF"]
    with open(path, "w") as f:
        f.write("\t".join(["GAS"] + [names.get(c, c) for c in cols]) + "\n")
        for g in s.gases:
            f.write("\t".join([g] + [str(s.gas[g][c]) if isinstance(s.gas[g][c], str) else repr(float(s.gas[g][c])) for c in cols]) + "\n")


def write_table(path, R, df, units, y0, y1, heads=None):
    """years y0..y1 as given, others beyond them with unrelated numbers"""
    sep = R.choice(["\t", " ", " \t "])
    a, b = y0 - R.choice([0, 1, 15]), y1 + R.choice([0, 1, 12])
    with open(path, "w") as f:
        f.write(sep.join(["Component"] + list(heads or df.columns)) + "\n")
        f.write(sep.join(["Unit"] + list(units)) + "\n")
        f.write(sep.join(["Description"] + ["x"] * len(df.columns)) + "\n")
        f.write(sep.join(["Reference"] + ["y"] * len(df.columns)) + "\n")
        for y in range(a, b + 1):
            row = [repr(float(df.loc[y, c])) for c in df.columns] if y0 <= y <= y1 else [repr(R.uniform(1, 999)) for _ in df.columns]
            f.write(sep.join([str(y)] + row) + "\n")


def write_rows(path, R, df, y0, y1, upto=None):
    """one row per year from 1750 on, unrelated numbers outside y0..y1"""
    end = upto or R.choice([y1, y1 + 3, 2500])
    with open(path, "w") as f:
        for y in range(1750, end + 1):
            row = df.loc[y].tolist() if y0 <= y <= y1 else [R.uniform(-5, 5) for _ in range(df.shape[1])]
            f.write("\t".join(repr(float(x)) for x in row) + "\n")


def compare(env, title, a, b):
    import numpy as np
    import pandas as pd
    env.check(title + ": same outputs", set(a) == set(b))
    for q in a:
        if q not in b:
            continue
        if isinstance(a[q], pd.DataFrame):
            env.check(f"{title}: columns of {q}", set(a[q].columns) == set(b[q].columns))
            for c in a[q].columns:
                if a[q][c].dtype != object and c in b[q]:
                    env.eq(f"{title}: {q} of {c}", a[q][c].to_numpy(dtype=float), b[q][c].to_numpy(dtype=float), rtol=1e-10, atol=1e-10)
        elif not isinstance(a[q], dict):
            env.eq(f"{title}: {q}", np.array(a[q], dtype=float), np.array(b[q], dtype=float), rtol=1e-10, atol=1e-10)


@contract(REG, functions=[IH + ".__init__", IH + ".get_data", MOD + ".read_components", MOD + ".read_inputfile", IH + ".read_emissions", IH + ".read_data_on_year_row", MOD + ".read_natural_emissions",
                          MOD + ".read_csv_no_index_col"], samples=16, thorough=200, symbolic=False, public=True)
def whole_runs_from_files(env):
    """Random set-ups with each input given as a file (years beyond the run filled with unrelated numbers) or in memory, in any mixture: the
    run gives what the same inputs give when all in memory; the tables read cover exactly the configured years. (bounded)"""
    import copy
    import os
    import shutil
    import tempfile
    from . import _scen as S
    s = S.scen(env, pert_em=env.choice("pe", [False, True]), pert_forc=env.choice("pf", [False, True]))
    R = s.R
    base = copy.deepcopy(S.run(env, s))
    tmp = tempfile.mkdtemp(prefix="c16")
    try:
        y0, y1 = s.y0, s.y1
        cfg = S.cfg(s)
        p = lambda n: os.path.join(tmp, n)      # noqa: E731
        unit = lambda g: s.gas[{"CO2_FF": "CO2", "CO2_AFOLU": "CO2"}.get(g, g)]      # noqa: E731
        rest = [c for c in s.emis.columns if not c.startswith("CO2_")]
        R.shuffle(rest)
        em = s.emis[["CO2_FF", "CO2_AFOLU"] + rest]
        write_table(p("em.txt"), R, em, [unit(c)["EM_UNIT"] for c in em.columns], y0, y1, ["CO2", "CO2"] + rest)
        write_table(p("conc.txt"), R, s.conc, [unit(c)["CONC_UNIT"] for c in s.conc.columns], y0, y1)
        write_gases(p("gas.txt"), s)
        for nm, d in (("sun", s.sun), ("volc_n", s.volc_n), ("volc_s", s.volc_s), ("luc", s.luc)):
            write_rows(p(nm + ".txt"), R, d, y0, y1)
        for nm, d in (("nat_ch4", s.natch4), ("nat_n2o", s.natn2o)):
            if d is not None:
                write_rows(p(nm + ".txt"), R, d, y0, y1, 2500)
        for nm, d in (("pert_em", s.pert_em), ("pert_forc", s.pert_forc)):
            if d is not None:
                d.to_csv(p(nm + ".txt"), index=False)
        where = {"emissions": "em", "concentrations": "conc", "gaspam": "gas", "rf_sun": "sun", "rf_volc_n": "volc_n", "rf_volc_s": "volc_s", "rf_luc": "luc", "nat_ch4": "nat_ch4",
                 "nat_n2o": "nat_n2o", "perturb_em": "pert_em", "perturb_forc": "pert_forc"}
        files = [k for k in where if k + "_data" in cfg and R.random() < 0.7]
        for k in files:
            cfg[k + "_file"] = p(where[k] + ".txt")
            if R.random() < 0.8:
                del cfg[k + "_data"]
        env.inputs["files"] = files
        m = env.mod("").CICEROSCM(dict(cfg))
        ih = env.mod(MOD).InputHandler(dict(cfg))
        for k in ("emissions", "concentrations"):
            if k in files:
                t = ih.get_data(k)
                env.check(f"{k} cover exactly the configured years", list(t.index) == s.years)
        pe = dict(s.emiconc)
        m._run(dict(S.FIXED), pamset_udm=dict(s.udm), pamset_emiconc=pe, pamset_carbon=None)
        compare(env, "from files " + ",".join(files), m.results, base)
        # a global volcanic file stands for both hemispheres; not 1: sun and volcanoes ignored
        v = copy.deepcopy(s)
        v.volc_s = v.volc_n
        v.sunvolc = R.choice([0, 1])
        want = copy.deepcopy(S.run(env, v))
        cfg = S.cfg(v)
        for k in ("rf_volc_n_data", "rf_volc_s_data"):
            cfg.pop(k, None)
        if R.random() < 0.5:
            cfg["rf_volc_file"] = p("volc_n.txt")
        elif v.sunvolc:
            cfg["rf_volc_data"] = v.volc_n
        else:
            cfg.update(rf_volc_n_file=p("volc_n.txt"), rf_volc_s_file=p("volc_n.txt"), rf_sun_file=p("sun.txt"), sunvolc=0)
        m = env.mod("").CICEROSCM(cfg)
        m._run(dict(S.FIXED), pamset_udm=dict(s.udm), pamset_emiconc=dict(s.emiconc), pamset_carbon=None)
        compare(env, f"global volcanic data, sunvolc={v.sunvolc}", m.results, want)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


@contract(REG, functions=[MOD + ".read_forc", IH + ".get_rf_type", IH + ".set_sun_volc_luc_defaults"], samples=20, thorough=300, symbolic=False, public=True)
def forcing_runs_from_files(env):
    """Forcing runs from files: one column counted from the start year, or a table by years with more years than the run; built-in solar and
    volcanic series with sunvolc and no data: each year gets its own values. (bounded)"""
    import os
    import random
    import shutil
    import tempfile
    import numpy as np
    R = random.Random(env.int("seed", 0, None, 0, 2 ** 30))
    u = R.uniform
    tmp = tempfile.mkdtemp(prefix="c16")
    try:
        y0 = R.choice([1750, 1751, R.randint(1752, 2300)])
        n = R.randint(2, 25)
        y1 = y0 + n - 1
        kind = R.choice(["column", "hemispheres", "components", "total"])
        f = os.path.join(tmp, "forc.txt")
        a, b = [u(-2, 6) for _ in range(n)], [u(-2, 6) for _ in range(n)]
        w = [0.0] * n
        if kind == "column":
            with open(f, "w") as h:
                h.write("\n".join(repr(x) for x in a + [u(-9, 9) for _ in range(R.choice([0, 4]))]))
            tot = nh = sh = a
        else:
            e0, e1 = y0 - R.choice([0, 1, 20]), y1 + R.choice([0, 1, 20])
            head = {"hemispheres": "FORC_NH,FORC_SH", "components": "CO2,LANDUSE", "total": "FORC_NH,FORC_SH,total"}[kind]
            with open(f, "w") as h:
                h.write(R.choice(["year", "Year", "YEAR"]) + "," + head + "\n")
                for y in range(e0, e1 + 1):
                    i = y - y0
                    x = [a[i], b[i]] if 0 <= i < n else [u(-9, 9), u(-9, 9)]
                    x += [a[i] / 4 + b[i] if 0 <= i < n else u(-9, 9)] if kind == "total" else []
                    h.write(",".join([str(y)] + [repr(q) for q in x]) + "\n")
            if kind == "components":
                tot = nh = sh = [x + y for x, y in zip(a, b)]
            else:
                nh, sh, tot = a, b, [(x + y) / 2 if kind == "hemispheres" else x / 4 + y for x, y in zip(a, b)]
        sv = R.choice([0, 1])
        C = env.mod("").CICEROSCM
        th = R.choice(["default", "twolayer"])
        m = C({"nystart": y0, "nyend": y1, "forc_file": f, "sunvolc": sv, "thermal_model": th})
        seen = []
        cls = env.get(m, "thermal_model_class")
        orig = cls.energy_budget

        def energy_budget(self, *x, **k):
            seen.append((x, k))
            return orig(self, *x, **k)
        cls.energy_budget = energy_budget
        try:
            m._run({"results_as_dict": True})
        finally:
            cls.energy_budget = orig
        sun, volc = np.zeros(n), np.zeros((n, 12))
        if sv:
            dd = env.get(env.mod(MOD), "default_data_dir")
            sun = np.loadtxt(os.path.join(dd, "solar_IPCC.txt"))[y0 - 1750:y1 - 1750 + 1]
            volc = np.loadtxt(os.path.join(dd, "meanVOLCmnd_ipcc_NH.txt"))[y0 - 1750:y1 - 1750 + 1]
        env.eq("solar forcing of the year", m.results["Solar_forcing"], sun)
        env.eq("volcanic forcing of the year, north", m.results["Volcanic_forcing_NH"], volc.mean(axis=1))
        env.eq("volcanic forcing of the year, south", m.results["Volcanic_forcing_SH"], volc.mean(axis=1))
        env.eq("total forcing of the year", m.results["Total_forcing"], np.array(tot) + sun)
        env.eq("one step per year", len(seen), n)
        if len(seen) == n and all(len(x) >= 2 for x, _ in seen):
            env.eq("northern forcing of the year", [float(x[0]) for x, _ in seen], np.array(nh) + sun)
            env.eq("southern forcing of the year", [float(x[1]) for x, _ in seen], np.array(sh) + sun)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
