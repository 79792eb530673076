"""C19 perturbations are additive and local"""
from pyvc.contract import contract
from . import _handler as H

LEVEL = "proof"
REG = []
P = "perturbations."


@contract(REG, functions=[H.CLS + ".conc2forc", P + "ForcingPerturbation.add_forcing_pert", P + "ForcingPerturbation.check_if_year_in_pert"], samples=80)
def forcing_perturbation(env):
    """From the same state, with and without any table of three perturbations (any year and size, repeated component, one not in the
    run): each component, the total and both hemispheres differ by exactly the given amounts in the perturbed year, and
    not at all otherwise."""
    tr = H.MAIN + ["SO2", "LANDUSE"]
    s = H.build(env, tracers=tr, pert=["SO2", "SO2", "LANDUSE", "unknown"])
    b = H.build(env, tracers=tr)
    luc, sun = env.anyreal("luc", -1, 1), env.anyreal("sun", -1, 1)
    env.cover()
    t1, n1, q1 = s.h.conc2forc(s.yr, luc, sun)[:3]
    t0, n0, q0 = b.h.conc2forc(s.yr, luc, sun)[:3]
    d = {t: H.pert_sum(env, s, t) for t in tr}
    for t in tr:
        env.eq(t, env.elem(s.h.forc[t], s.idx) - env.elem(b.h.forc[t], s.idx), d[t])
    env.eq("total", t1 - t0, sum(d.values()))
    env.eq("north", n1 - n0, sum(env.lit(H.split(t)) * d[t] for t in tr))
    env.eq("south", q1 - q0, sum((2 - env.lit(H.split(t))) * d[t] for t in tr))


@contract(REG, functions=[P + "ForcingPerturbation.add_forcing_pert", P + "calculate_hemispheric_forcing"], samples=120)
def forcing_perturbation_of_each_component(env):
    """For every kind of component and any state: the perturbation of that year moves the component, the total and, by the component's
    own documented split, each hemisphere; perturbations of other years and components outside the run move nothing."""
    m = env.mod("perturbations")
    t = env.choice("t", ["N2O", "SO2", "SO4_IND", "BC", "OC", "BMB_AEROS", "BMB_AEROS_OC", "BMB_AEROS_BC", "NOx", "TROP_O3", "LANDUSE",
                         "STRAT_O3", "Any other name"])
    y0 = env.int("y0", 1, None, 1990, 1995)
    off = env.int("off", 0, None, 0, 6)
    n = env.int("n", 1, None, 7, 12)
    env.assume(off < n)
    yr = y0 + off
    rows = [{"component": c, "year": y0 + env.int(f"py{i}", 0, None, 0, 6), "forcing": env.anyreal(f"pf{i}", -2, 2)}
            for i, c in enumerate([t, "CO2", t])]
    tab = env.rowtable(rows, ["component", "year", "forcing"])
    fp = m.ForcingPerturbation(H.Inp({"perturb_forc": tab}), y0)
    a, b = env.arr("forc", n), env.arr("forc2", n)
    a0, b0 = m.np.array(a), m.np.array(b)
    tot, nh, sh = env.anyreal("tot"), env.anyreal("nh"), env.anyreal("sh")
    forc = {t: a, "HFC-new": b} if t != "HFC-new" else {t: a}
    if t != "CO2":
        forc["CO2"] = m.np.zeros(n)
    env.cover()
    r = fp.add_forcing_pert(tot, nh, sh, forc, yr)
    d = dict.fromkeys([t, "CO2"], 0)
    for q in rows:
        if q["component"] in d:
            d[q["component"]] = d[q["component"]] + env.ite(q["year"] == yr, q["forcing"], 0)
    env.eq("total", r[0], tot + sum(d.values()))
    env.eq("north", r[1], nh + sum(env.lit(H.split(c)) * d[c] for c in d))
    env.eq("south", r[2], sh + sum((2 - env.lit(H.split(c))) * d[c] for c in d))

    def one(i):
        env.eq("component", env.elem(r[3][t], i), env.elem(a0, i) + env.ite(i == off, d[t], 0))
        if t != "CO2":
            env.eq("CO2", env.elem(r[3]["CO2"], i), env.ite(i == off, d["CO2"], 0))
        if t != "HFC-new":
            env.eq("another component", env.elem(r[3]["HFC-new"], i), env.elem(b0, i))
    env.forall(0, n, one)


@contract(REG, functions=[P + "perturb_emissions"], samples=80)
def emission_perturbation(env):
    """For any emission table and any four perturbations (any years and amounts, CO2 meaning fossil CO2, repeats): every cell of the
    table changes by exactly the sum of the amounts given for it."""
    m = env.mod("perturbations")
    y0 = env.int("y0", 1, None, 1990, 1995)
    y1 = y0 + env.int("ny", 0, None, 0, 6)
    em = env.yframe("em", ["CO2_FF", "CO2_AFOLU", "CH4", "SO2"], y0, y1, slo=0, shi=50)
    before = em.copy()
    rows = []
    for i, c in enumerate(env.choice("components", [["SO2", "CO2", "SO2", "CO2_FF"], ["CO2_AFOLU", "CO2", "CO2_AFOLU", "CH4"]])):
        y = y0 + env.int(f"py{i}", 0, None, 0, 6)
        env.assume(y <= y1)
        rows.append({"component": c, "year": y, "emission": env.anyreal(f"pe{i}", -5, 5)})
    env.cover()
    m.perturb_emissions(H.Inp({"perturb_em": env.rowtable(rows, ["component", "year", "emission"])}), em)
    y = y0 + env.int("y", 0, None, 0, 6)
    env.assume(y <= y1)
    for c in ["CO2_FF", "CO2_AFOLU", "CH4", "SO2"]:
        d = 0
        for r in rows:
            if (r["component"] if r["component"] != "CO2" else "CO2_FF") == c:
                d = d + env.ite(r["year"] == y, r["emission"], 0)
        env.eq(c, em[c][y], before[c][y] + d)


@contract(REG, functions=[P + "ForcingPerturbation.add_forcing_pert_for_vanilla", P + "ForcingPerturbation.__init__"], samples=80)
def precalculated_forcing_perturbation(env):
    """For any precomputed forcing table and perturbation table: every cell changes by exactly the sum of the amounts for it."""
    m = env.mod("perturbations")
    y0 = env.int("y0", 1, None, 1990, 1995)
    y1 = y0 + env.int("ny", 0, None, 0, 6)
    cols = ["HFC125", "CF4", "STRAT_O3"]
    T = env.yframe("erf", cols, y0, y1, slo=-1, shi=1)
    before = T.copy()
    rows = []
    for i, c in enumerate(["CF4", "CO2", "CF4", "STRAT_O3"]):
        y = y0 + env.int(f"py{i}", 0, None, 0, 6)
        env.assume(y <= y1)
        rows.append({"component": c, "year": y, "forcing": env.anyreal(f"pf{i}", -5, 5)})
    if env.choice("again", [0, 1]):
        rows.append(dict(rows[0]))
    env.cover()
    fp = m.ForcingPerturbation(H.Inp({"perturb_forc": env.rowtable(rows, ["component", "year", "forcing"])}), y0)
    fp.add_forcing_pert_for_vanilla(T)
    y = y0 + env.int("y", 0, None, 0, 6)
    env.assume(y <= y1)
    for c in cols:
        d = 0
        for r in rows:
            if r["component"] == c:
                d = d + env.ite(r["year"] == y, r["forcing"], 0)
        env.eq(c, T[c][y], before[c][y] + d)


@contract(REG, functions=["ciceroscm.CICEROSCM._run", H.CLS + ".__init__"], samples=30, thorough=400, symbolic=False, public=True)
def perturbed_whole_runs(env):
    """Whole runs with and without perturbations: emissions and forcings differ exactly by the tables, and nothing before the
    first perturbed year changes. (bounded)"""
    from . import _scen as S
    import numpy as np
    kind = env.choice("kind", ["em", "forc"])
    s = S.scen(env, pert_em=kind == "em", pert_forc=kind == "forc")
    if kind == "forc":
        s.carb = {}
    r1 = S.run(env, s)
    pe, pf = s.pert_em, s.pert_forc
    s.pert_em = s.pert_forc = None
    r0 = S.run(env, s)
    first = int((pe if kind == "em" else pf)["year"].min()) - s.y0
    if kind == "em" and any(r.component in ("NOx", "CO", "NMVOC") and r.year in (2000, s.p["ref_yr"]) for r in pe.itertuples()):
        first = 0       # a reference year of the methane lifetime or of ozone: it enters every year
    for k in [k for k in r0 if isinstance(r0[k], np.ndarray)]:
        env.eq(k + " before", r1[k][:first], r0[k][:first], rtol=0, atol=0)
    for k in ("concentrations", "forcing", "emissions"):
        for c in r0[k].columns:
            env.eq(f"{k} {c} before", S.series(r1[k], c, s.years)[:first], S.series(r0[k], c, s.years)[:first], rtol=0, atol=0)
    if kind == "em":
        for c in r0["emissions"].columns:
            d = np.zeros(len(s.years))
            for row in pe.itertuples():
                if row.component == c or (c == "CO2" and row.component in ("CO2_FF", "CO2_AFOLU")):
                    d[row.year - s.y0] += row.emission
            env.eq("emissions " + c, S.series(r1["emissions"], c, s.years) - S.series(r0["emissions"], c, s.years), d)
    else:
        # the climate response feeds back on the carbon cycle, so compare with the reported concentrations
        co2 = {y: float(r1["concentrations"].loc[y, "CO2"]) for y in s.years}
        F = S.forcings(s, co2)
        tot = np.zeros(len(s.years))
        for g in s.gases:
            d = np.zeros(len(s.years))
            for row in pf.itertuples():
                if row.component == g:
                    d[row.year - s.y0] += row.forcing
            tot += d
            env.eq("forcing " + g, S.series(r1["forcing"], S.fcol(g), s.years) - S.ser(F[g], s.years), d, rtol=1e-7, atol=1e-8)
        env.eq("total", r1["Total_forcing"] - sum(S.ser(F[g], s.years) for g in s.gases), tot, rtol=1e-7, atol=1e-8)
