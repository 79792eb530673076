"""C20 formatted output carries the same numbers under standard names and units"""
from pyvc.contract import contract

LEVEL = "proof"
REG = []
TRUSTED = ["pandas columns, series arithmetic and relabelling (pyvc/frames.py)"]
ASSUMPTIONS = ["results as the model gives them: tables with a Year column and one row per year of the run, time series with one value per year"]
MOD = "formattingtools.reformat_cscm_results"
RD = MOD + ".CSCMREADER"
FW = "formattingtools.reformat_inputdata_to_cscm_format.COMMONSFILEWRITER"

# ------------------------------------------------------------------ the documented table of names
HFC = "HFC125 HFC134a HFC143a HFC152a HFC227ea HFC236fa HFC23 HFC245fa HFC32 HFC365mfc HFC4310mee".split()
PFC = "C2F6 C3F8 C4F10 C5F12 C6F14 C7F16 C8F18 cC4F8 CF4".split()
OTHER_F = ["NF3", "SF6", "SO2F2"]
FGAS = HFC + PFC + OTHER_F
MONT = {"CFC-11": "CFC|CFC11", "CFC-12": "CFC|CFC12", "CFC-113": "CFC|CFC113", "CFC-114": "CFC|CFC114", "CFC-115": "CFC|CFC115", "CH3Br": "CH3Br", "CCl4": "CCl4", "CH3CCl3": "CH3CCl3",
        "H-1202": "Halon1202", "H-1211": "Halon1211", "H-1301": "Halon1301", "H-2402": "Halon2402", "HCFC-123": "HCFC123", "HCFC-142b": "HCFC142b", "HCFC-141b": "HCFC141b",
        "HCFC-22": "HCFC22", "CHCl3": "CHCl3", "CH3Cl": "CH3Cl", "CH2Cl2": "CH2Cl2"}
GHG = FGAS + list(MONT) + ["CO2", "CH4", "N2O", "TROP_O3", "STRAT_O3", "STRAT_H2O"]
ERF = "Effective Radiative Forcing"
ANT = ERF + "|Anthropogenic"
ARI = ANT + "|Aerosol|Aerosol-radiation Interactions"
FORC = {ANT: "Total_forcing", ARI + "|BC": "BC", ARI + "|OC": "OC", ARI + "|Sulfate": "SO4_DIR", ANT + "|Aerosol|Aerosol-cloud Interactions": "SO4_IND", ANT + "|CO2": "CO2",
        ANT + "|CH4": "CH4", ANT + "|N2O": "N2O", ANT + "|Other|Stratospheric H2O": "STRAT_H2O", ANT + "|Ozone|Stratospheric Contribution": "STRAT_O3",
        ANT + "|Ozone|Tropospheric Contribution": "TROP_O3"}
CONC = {"Atmospheric Concentrations|" + g: g for g in ("CO2", "CH4", "N2O")}
EMIS = {"Emissions|" + g: g for g in ("CO2", "CH4", "N2O")}
for _g in FGAS:
    _n = ("HFC|" if _g in HFC else "PFC|" if _g in PFC else "") + _g
    FORC[ANT + "|F-Gases|" + _n] = _g
    CONC["Atmospheric Concentrations|F-Gases|" + _n] = _g
for _g, _n in MONT.items():
    FORC[ANT + "|Montreal Gases|" + _n] = _g
    CONC["Atmospheric Concentrations|Montreal Gases|" + _n] = _g
SUMS = {ANT + "|Aerosol": ["BC", "OC", "SO4_DIR", "SO4_IND"], ARI: ["BC", "OC", "SO4_DIR"], ANT + "|F-Gases": FGAS, ERF + "|Greenhouse Gases": GHG}
TEMP = {"Surface Air Temperature Change": "dT_glob_air", "Surface Air Ocean Blended Temperature Change": "dT_glob", "Surface Air Ocean Temperature Change": "dT_glob_sea"}
OHC = {"Heat Content|Ocean": "OHCTOT", "Heat Content|Ocean|0-700m": "OHC700"}
CARBON = {"Carbon Flux|Land": "Biosphere carbon flux", "Carbon Flux|Ocean": "Ocean carbon flux", "Airborne fraction CO2": "Airborne fraction CO2"}
POOL = {"Carbon Pool|Land": "Biosphere carbon flux", "Carbon Pool|Ocean": "Ocean carbon flux"}
UNITS = {"Airborne fraction CO2": "Unitless"}
ZJ_PER_WM2 = 361e12 * 86400 * 365 / 1e21       # one watt per square metre over the ocean for a year, in zettajoules


class Writer:
    """the units of each component (what is asked of a file writer)"""
    pv_heap = True

    def __init__(self, names):
        self.components = list(names)
        self.units = ["emission unit of " + g for g in names]
        self.concunits = ["concentration unit of " + g for g in names]


def period(env):
    y0 = env.int("nystart", None, None, 1700, 2000)
    n = env.int("number of years", 1, None, 1, 30)
    return y0, y0 + n - 1, n


def table(env, name, cols, y0, y1, extra=()):
    """a table of the results: rows of the years y0..y1, a Year column and the others"""
    t = env.yframe(name, cols, y0, y1)
    if env.symbolic:
        from pyvc.core import num
        from pyvc.frames import YFrame, YSer
        c = dict(t.cols)
        c = {"Year": YSer(lambda y: num(y), y0, y1), **c}
        return YFrame(c, y0, y1)
    t.insert(0, "Year", list(range(y0, y1 + 1)))
    return t


class Frozen:
    """the contents of a table before something that must not change it"""

    def __init__(self, env, t):
        self.env, self.t = env, t
        if env.symbolic:
            self.cols = {c: v._get for c, v in t.cols.items()}
            self.y0, self.y1 = t.y0, t.y1
        else:
            self.copy = t.copy()

    def check(self, name):
        env, t = self.env, self.t
        if env.symbolic:
            env.check(f"{name}: the columns are as before", list(t.cols) == list(self.cols))
            env.check(f"{name}: the years are as before", (t.y0 == self.y0) & (t.y1 == self.y1))
            y = env.int("any year of " + name)
            env.assume((y >= self.y0) & (y <= self.y1))
            for c, g in self.cols.items():
                if t.cols[c]._get is not g:
                    env.eq(f"{name}: {c} is as before", t.cols[c][y], g(y))
            return
        env.check(f"{name}: as before", t.equals(self.copy) and list(t.columns) == list(self.copy.columns))


def at(env, ts, i, y0):
    """value number i of a time series"""
    if env.symbolic:
        from pyvc.frames import YSer
        if isinstance(ts, YSer):
            return ts.iloc[i]
        return env.elem(ts, i)
    import numpy as np
    return float(np.asarray(ts)[i])


def check_years(env, years, y0, n):
    env.eq("one entry per year", env.length(years), n)
    i = env.int("year number", 0, None, 0, 29)
    env.assume(i < n)
    env.eq("the years of the run in order", at(env, years, i, y0), y0 + i)
    return i


def subsets(names):
    return [list(names), []] + [[x for x in names if x != g] for g in names] + [[g] for g in names]


# ------------------------------------------------------------------ forcing, concentrations, emissions
@contract(REG, functions=[RD + ".__init__", RD + ".get_variable_timeseries", RD + ".get_data_from_forc", MOD + ".get_data_from_forc_common", MOD + ".get_data_from_conc", MOD + ".get_data_from_em"],
          samples=60, thorough=600, max_paths=2000, public=True)
def components(env):
    """Every forcing, concentration and emission variable of a single component: the column of that component, with that component's own unit, year by
    year; the tables are left as they were."""
    kind = env.choice("kind", ["forcing", "concentrations", "emissions"])
    names = {"forcing": FORC, "concentrations": CONC, "emissions": EMIS}[kind]
    var = env.choice("variable of the " + kind, sorted(names))
    y0, y1, n = period(env)
    g = names[var]
    others = [x for x in ("CO2", "CH4", "SO2", "BC", "CFC-11", "HFC23") if x != g]
    t = table(env, kind, others[:2] + [g] + others[2:], y0, y1)
    wrong = table(env, "another table", others[:2] + [g], y0, y1)
    res = {k: t if k == kind else wrong for k in ("forcing", "concentrations", "emissions")}
    if env.choice("with carbon cycle outputs", [True, False]):
        res["carbon cycle"] = table(env, "carbon", ["Biosphere carbon flux"], y0, y1)
    w = Writer(others + [g, "N"])
    env.cover()
    before = Frozen(env, t)
    years, ts, unit = env.mod(MOD).CSCMREADER(y0, y1).get_variable_timeseries(res, var, w)
    i = check_years(env, years, y0, n)
    env.eq("one value per year", env.length(ts), n)
    env.eq("the value of the raw results", at(env, ts, i, y0), t[g][y0 + i])
    env.check("the unit", unit == {"forcing": "W/m^2", "concentrations": "concentration unit of " + g, "emissions": "emission unit of " + g}[kind])
    before.check("the table")


@contract(REG, functions=[RD + ".get_variable_timeseries", MOD + ".get_data_from_em"], samples=20, thorough=200, public=True)
def back_calculated_emissions(env):
    """CO2 emissions of a concentration-driven run are those the carbon cycle gives; those of other gases are not touched by them"""
    var = env.choice("variable", ["Emissions|CO2", "Emissions|CH4", "Emissions|N2O"])
    y0, y1, n = period(env)
    g = EMIS[var]
    t = table(env, "emissions", ["CO2", "CH4", "N2O"], y0, y1)
    cc = table(env, "carbon", ["Airborne fraction CO2", "Emissions", "Biosphere carbon flux"], y0, y1)
    env.cover()
    b = [Frozen(env, t), Frozen(env, cc)]
    years, ts, unit = env.mod(MOD).CSCMREADER(y0, y1).get_variable_timeseries({"emissions": t, "carbon cycle": cc}, var, Writer(["CH4", "CO2", "N2O"]))
    i = check_years(env, years, y0, n)
    env.eq("one value per year", env.length(ts), n)
    env.eq("the value of the raw results", at(env, ts, i, y0), (cc["Emissions"] if g == "CO2" else t[g])[y0 + i])
    env.check("the unit", unit == "emission unit of " + g)
    b[0].check("emissions")
    b[1].check("carbon")


@contract(REG, functions=[RD + ".get_variable_timeseries", RD + ".get_data_from_forc", MOD + ".get_data_from_forc_common"], samples=60, thorough=600, max_paths=2000, public=True)
def sums(env):
    """Each sum of forcings holds exactly its documented components that the run has: for all of them, for none, for each alone and for all but each"""
    var = env.choice("variable", sorted(SUMS))
    y0, y1, n = period(env)
    parts = SUMS[var]
    have = env.choice("components of " + var, subsets(parts))
    if not env.symbolic:
        import random
        R = random.Random(env.rng.random())
        if R.random() < 0.7:
            have = [x for x in have if R.random() < 0.6]
    rest = [x for x in ("NOx", "Total_forcing", "LANDUSE", "OTHER", "BMB_AEROS", "SO2", "SO4_IND", "BC", "CO2", "SF6", "CFC-11", "STRAT_O3") if x not in parts]
    t = table(env, "forcing", rest[:3] + have + rest[3:], y0, y1)
    env.cover()
    before = Frozen(env, t)
    years, ts, unit = env.mod(MOD).CSCMREADER(y0, y1).get_variable_timeseries({"forcing": t}, var, Writer(["CO2"]))
    i = check_years(env, years, y0, n)
    env.eq("one value per year", env.length(ts), n)
    env.eq("the sum of the components", at(env, ts, i, y0), sum((t[g][y0 + i] for g in have), 0.0 * y0))
    env.check("the unit", unit == "W/m^2")
    before.check("the table")


@contract(REG, functions=[RD + ".get_variable_timeseries", RD + ".get_data_from_forc", RD + ".get_volc_forcing", RD + ".get_sun_forcing", MOD + ".get_data_from_forc_common"], samples=30, thorough=300, public=True)
def total_with_sun_and_volcanoes(env):
    """The whole effective forcing is the anthropogenic one plus the sun and the mean of the hemispheres' volcanic forcing of the same year"""
    y0, y1, n = period(env)
    t = table(env, "forcing", ["CO2", "Total_forcing", "BC"], y0, y1)
    vn, vs, s = env.arr("volcanoes, north", n), env.arr("volcanoes, south", n), env.arr("sun", n)
    i = env.int("the year", 0, None, 0, 29)
    env.assume(i < n)
    env.cover()
    keep = [at(env, x, i, y0) for x in (vn, vs, s)]
    before = Frozen(env, t)
    years, ts, unit = env.mod(MOD).CSCMREADER(y0, y1).get_variable_timeseries({"forcing": t, "Volcanic_forcing_NH": vn, "Volcanic_forcing_SH": vs, "Solar_forcing": s}, ERF, Writer([]))
    check_years(env, years, y0, n)
    env.eq("one value per year", env.length(ts), n)
    env.eq("the whole forcing", at(env, ts, i, y0), t["Total_forcing"][y0 + i] + keep[2] + (keep[0] + keep[1]) / 2)
    env.check("the unit", unit == "W/m^2")
    for x, k in zip((vn, vs, s), keep):
        env.eq("the raw results are as before", at(env, x, i, y0), k)
    before.check("the table")


# ------------------------------------------------------------------ temperatures, heat, carbon
@contract(REG, functions=[RD + ".get_variable_timeseries", MOD + ".get_data_from_temp_or_rib", MOD + ".get_data_from_ohc"], samples=30, thorough=300, public=True)
def temperatures_and_heat(env):
    """Temperatures as they are in kelvin, the radiative imbalance as the heat taken up by the ocean area in a year, heat contents (1e22 J) in ZJ"""
    names = {**TEMP, "Heat Uptake": "RIB_glob", **OHC}
    var = env.choice("variable", sorted(names))
    y0, y1, n = period(env)
    res = {k: env.arr(k, n) for k in ("dT_glob", "dT_glob_air", "dT_glob_sea", "RIB_glob", "RIB_N", "OHCTOT", "OHC700")}
    i = env.int("the year", 0, None, 0, 29)
    env.assume(i < n)
    env.cover()
    raw = {k: at(env, v, i, y0) for k, v in res.items()}
    years, ts, unit = env.mod(MOD).CSCMREADER(y0, y1).get_variable_timeseries(res, var, Writer([]))
    check_years(env, years, y0, n)
    env.eq("one value per year", env.length(ts), n)
    f = env.lit(repr(ZJ_PER_WM2)) if var == "Heat Uptake" else 10 if var in OHC else 1
    env.eq("the value in the declared unit", at(env, ts, i, y0), raw[names[var]] * f, rtol=1e-6)
    env.check("the unit", unit == ("ZJ / yr" if var == "Heat Uptake" else "ZJ" if var in OHC else "K"))
    for k in res:
        env.eq("the raw results are as before", at(env, res[k], i, y0), raw[k])


@contract(REG, functions=[RD + ".get_variable_timeseries", MOD + ".get_carbon_cycle_outputs"], samples=30, thorough=300, public=True)
def carbon(env):
    """Fluxes and the airborne fraction as they are, pools as the running sum of the fluxes, the net flux to the atmosphere as minus both fluxes;
    nothing when the run has no carbon cycle outputs"""
    var = env.choice("variable", sorted({**CARBON, **POOL}) + ["Net Flux to Atmosphere|CO2"])
    y0, y1, n = period(env)
    cc = table(env, "carbon", ["Airborne fraction CO2", "Biosphere carbon flux", "Ocean carbon flux", "Emissions"], y0, y1)
    there = env.choice("with carbon cycle outputs", [True, False])
    env.cover()
    b = Frozen(env, cc)
    res = {"dT_glob": env.arr("dT_glob", n)}
    if there:
        res["carbon cycle"] = cc
    years, ts, unit = env.mod(MOD).CSCMREADER(y0, y1).get_variable_timeseries(res, var, Writer([]))
    if not there:
        env.check("nothing", env.length(years) == 0 and env.length(ts) == 0 and unit == "NoUnit")
        return
    i = check_years(env, years, y0, n)
    env.eq("one value per year", env.length(ts), n)
    v = at(env, ts, i, y0)
    if var in CARBON:
        env.eq("the value of the raw results", v, cc[CARBON[var]][y0 + i])
    elif var in POOL:
        env.eq("the sum of the fluxes until that year", v, env.sum(0, i + 1, lambda j: cc[POOL[var]][y0 + j]), rtol=1e-7)
    else:
        env.eq("minus the sum of both fluxes", v, -(cc["Biosphere carbon flux"][y0 + i] + cc["Ocean carbon flux"][y0 + i]))
    env.check("the unit", unit == ("Unitless" if var in UNITS else "Pg C" if var in POOL else "Pg C / yr"))
    b.check("carbon")


@contract(REG, functions=[RD + ".get_variable_timeseries"], samples=20, thorough=100, public=True)
def unknown_names(env):
    """A name that is not in the table gives an empty series without unit"""
    var = env.choice("name", ["Emissions|XYZ", "Atmospheric Concentrations|XYZ", ERF + "|XYZ", "Carbon Flux|XYZ", "XYZ", "", "Heat Content"])
    y0, y1, n = period(env)
    t = {k: table(env, k, ["CO2"], y0, y1) for k in ("forcing", "concentrations", "emissions")}
    env.cover()
    years, ts, unit = env.mod(MOD).CSCMREADER(y0, y1).get_variable_timeseries(t, var, Writer(["CO2"]))
    env.check("nothing", env.length(years) == 0 and env.length(ts) == 0 and unit == "NoUnit")


# ------------------------------------------------------------------ units
def unit_ok(unit, mass):
    """a yearly emission in the mass unit of the gas table (with the element or compound spelt out behind it)"""
    return unit.endswith(" / yr") and unit.replace("_", "").startswith(mass.split("_")[0]) and (
        "_" not in mass or unit[:-5].replace("_", "")[len(mass.split("_")[0]):].startswith(mass.split("_")[1][:1]))


@contract(REG, functions=[FW + ".__init__", FW + ".initialize_units_comps", FW + ".initialize_units_comps_from_pd"], samples=25, thorough=400, symbolic=False, public=True)
def units_of_gas_tables(env):
    """Random gas tables, given as file or in memory: each component that has emissions is listed with its own concentration unit and an emission
    unit that starts with its mass unit; the table given is unchanged. (bounded)"""
    import os
    import random
    import shutil
    import tempfile
    import pandas as pd
    R = random.Random(env.int("seed", 0, None, 0, 2 ** 30))
    names = ["CO2", "CH4", "N2O", "SO2", "NOx", "BMB_AEROS_OC", "BMB_AEROS_BC", "CFC-11", "HCFC-141b", "HFC125", "SF6", "BC", "OC", "CO", "SO4_IND", "LANDUSE"]
    keep = [g for g in names if g.startswith("BMB") or R.random() < 0.8]
    if R.random() < 0.5:
        R.shuffle(keep)
    if len(keep) < 3:
        return
    fixed = {"CO2": "Pg_C", "N2O": "Tg_N", "SO2": "Tg_SO2", "NOx": "Mt_N", "SO4_IND": "X", "LANDUSE": "X"}
    rows = {g: {"EM_UNIT": fixed.get(g) or (R.choice(["Gg", "Mt", "kt"]) if "-" in g or g.startswith(("HFC", "SF")) else "Tg"), "CONC_UNIT": R.choice(["ppm", "ppb", "ppt", "-"]),
                "ALPHA": R.uniform(0, 1), "NAT_EM": R.uniform(0, 1)} for g in keep}
    t = pd.DataFrame.from_dict(rows, orient="index")
    before = t.copy()
    tmp = tempfile.mkdtemp(prefix="c20")
    try:
        how = R.choice(["data", "file"])
        src = t
        if how == "file":
            src = os.path.join(tmp, "gases.txt")
            t.to_csv(src, sep="\t", index_label="GAS")
        y0 = R.randint(1750, 2000)
        w = env.mod("formattingtools.reformat_inputdata_to_cscm_format").COMMONSFILEWRITER(src, y0, y0 + 9)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    env.check("the table given is unchanged", t.equals(before))
    env.check("three lists of one length", len(w.components) == len(w.units) == len(w.concunits))
    env.check("each component once", len(set(w.components)) == len(w.components))
    for g in keep:
        if rows[g]["EM_UNIT"] == "X":
            continue
        env.check(f"{g} is listed", g in w.components)
        k = w.components.index(g)
        env.check(f"concentration unit of {g}", w.concunits[k] == rows[g]["CONC_UNIT"])
        env.check(f"emission unit of {g}", unit_ok(w.units[k], rows[g]["EM_UNIT"]))


# ------------------------------------------------------------------ whole runs
@contract(REG, functions=[RD + ".get_variable_timeseries", RD + ".get_data_from_forc", MOD + ".get_data_from_ohc", MOD + ".get_carbon_cycle_outputs"], samples=16, thorough=250, symbolic=False, public=True)
def formatted_runs(env):
    """Random whole runs, all variables of the table: the numbers and units of the formatted results from the raw results, and the raw results
    unchanged by formatting. (bounded)"""
    import copy
    import numpy as np
    from . import _scen as S
    s = S.scen(env)
    r = S.run(env, s)
    before = copy.deepcopy(r)
    w = env.mod("formattingtools.reformat_inputdata_to_cscm_format").COMMONSFILEWRITER(s.gaspam, s.y0, s.y1)
    rd = env.mod(MOD).CSCMREADER(s.y0, s.y1)
    ny = len(s.years)

    def get(var):
        years, ts, unit = rd.get_variable_timeseries(r, var, w)
        env.check(f"{var}: the years", len(years) == ny and list(np.asarray(years)) == s.years)
        env.check(f"{var}: one value per year", len(ts) == ny)
        return np.asarray(ts, dtype=float), unit

    def compare(var, want, unit):
        ts, u = get(var)
        if callable(unit):
            env.check(f"{var}: the unit", unit(u))
        else:
            env.check(f"{var}: the unit", u == unit)
        for i in range(ny):
            env.eq(f"{var}", float(ts[i]), float(want[i]), rtol=1e-6)
    col = lambda t, c: np.array([float(x) for x in before[t][c]])       # noqa: E731
    order = [("forcing", v, g) for v, g in FORC.items()] + [("concentrations", v, g) for v, g in CONC.items()] + [("emissions", v, g) for v, g in EMIS.items()]
    s.R.shuffle(order)
    for kind, v, g in order:
        if g not in before[kind].columns:
            continue
        want = col(kind, g)
        if kind == "emissions" and g == "CO2" and "Emissions" in before["carbon cycle"].columns:
            want = col("carbon cycle", "Emissions")
        compare(v, want, "W/m^2" if kind == "forcing" else s.gas[g]["CONC_UNIT"] if kind == "concentrations" else (lambda u, g=g: unit_ok(u, s.gas[g]["EM_UNIT"])))
    for v, parts in SUMS.items():
        compare(v, sum((col("forcing", g) for g in parts if g in before["forcing"].columns), np.zeros(ny)), "W/m^2")
    compare(ERF, col("forcing", "Total_forcing") + np.array(before["Solar_forcing"]) + (np.array(before["Volcanic_forcing_NH"]) + np.array(before["Volcanic_forcing_SH"])) / 2, "W/m^2")
    for v, k in {**TEMP, **OHC}.items():
        if k in before:
            compare(v, np.array(before[k], dtype=float) * (10 if v in OHC else 1), "ZJ" if v in OHC else "K")
    compare("Heat Uptake", np.array(before["RIB_glob"], dtype=float) * ZJ_PER_WM2, "ZJ / yr")
    for v, c in CARBON.items():
        if c in before["carbon cycle"].columns:
            compare(v, col("carbon cycle", c), UNITS.get(v, "Pg C / yr"))
    for v, c in POOL.items():
        if c in before["carbon cycle"].columns:
            compare(v, np.cumsum(col("carbon cycle", c)), "Pg C")
    if {"Biosphere carbon flux", "Ocean carbon flux"} <= set(before["carbon cycle"].columns):
        compare("Net Flux to Atmosphere|CO2", -col("carbon cycle", "Biosphere carbon flux") - col("carbon cycle", "Ocean carbon flux"), "Pg C / yr")
    env.check("the raw results are unchanged", list(r) == list(before))
    for k, v in before.items():
        if hasattr(v, "columns"):
            env.check(f"the raw {k} is unchanged", list(r[k].columns) == list(v.columns) and r[k].equals(v))
        else:
            env.check(f"the raw {k} is unchanged", np.array_equal(np.asarray(r[k], dtype=float), np.asarray(v, dtype=float), equal_nan=True))
