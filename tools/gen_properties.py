"""writes properties.jsonl (kept as code so that the fields stay uniform)"""
import json, os
P = []
S = "src/ciceroscm/"
def p(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": {"files": [S + f for f in files],
              "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe), "hook_needed": None}})

H = "concentrations_emissions_handler.py"
T2 = "thermal_model/two_layer_ocean.py"
UD = "thermal_model/upwelling_diffusion_model.py"
CC = "carbon_cycle/carbon_cycle_mod.py"
CB = "carbon_cycle/carbon_cycle_mod_box.py"

p("C01", "Total forcing is the sum of the reported component forcings",
  "In every year of every emissions- or concentration-driven run, the reported total forcing equals the sum of all the "
  "individual component forcings reported for that year, prescribed forcing perturbations included; nothing is dropped or counted twice. "
  "When the run is restricted to a single component, the total is that component's forcing alone.",
  ["inputs", "configurations"], "every emission/concentration input, parameter set, component list, perturbation set and year",
  "Tests compare a few stored runs to reference numbers in selected columns; the sum must hold for all component lists, values and years.",
  [H, "perturbations.py"], [("per-year forcing loop and accumulation", H + ": conc2forc"), ("pre-computed gases", H + ": _precalculate_vanilla_gases"),
   ("forcing perturbations", "perturbations.py: add_forcing_pert")], ["results['forcing']", "conc2forc return value"])
p("C02", "Hemispheric forcings average to the global forcing",
  "In every year the northern and southern hemisphere forcings handed to the thermal model have the global total forcing plus the solar forcing as their "
  "mean, and for each agent the split between the hemispheres is the fixed one documented for it (even for well-mixed agents; unequal for "
  "tropospheric ozone, sulphate, black and organic carbon and land use). A hemispheric split never creates or destroys global-mean forcing.",
  ["inputs", "configurations"], "every agent, forcing value, year and accumulated hemispheric state",
  "Tests evaluate the split for a handful of agents and values; conservation must hold for every agent name, including regional ones, and every accumulation.",
  ["perturbations.py", H], [("split factors", "perturbations.py: calculate_hemispheric_forcing"), ("accumulation", H + ": conc2forc")],
  ["conc2forc return value", "calculate_hemispheric_forcing"])
p("C03", "Concentrations and emissions map to forcing by the documented relations",
  "For every year, the CO2, CH4 and N2O forcings follow the documented expressions in the three concentrations relative to the first model year with their overlap terms, halocarbons are "
  "linear in concentration change, aerosols linear in emission change (regional ones with the efficacy given for their region), and ozone and stratospheric water vapour follow their documented relations with the adjustment factor applied once. "
  "Every agent whose driver equals its first-year value has zero forcing.",
  ["inputs", "configurations"], "all positive concentration histories, emission histories, parameter values and years",
  "Tests pin values at a few years of one scenario; the functional relation must hold at every concentration, emission and parameter value.",
  [H], [("CO2/CH4/N2O", H + ": calculate_forc_three_main"), ("aerosols", H + ": calc_aerosol_forcing"),
        ("ozone", H + ": tropospheric_ozone_forcing, _add_precalculated_strat_o3, calculate_strat_quantities"), ("linear gases", H + ": _precalculate_erf_vanilla_gases")],
  ["results['forcing']"])
p("C04", "Concentrations obey the one-box mass balance of each gas",
  "From the emission start year on, each non-CO2 gas's concentration is the exact one-year solution of loss-plus-emission for that year's emissions "
  "(anthropogenic plus natural) starting from the previous year's concentration, with the loss rate the reciprocal of its lifetime (for CH4 the "
  "selected lifetime mode plus the two constant sinks). Before that year, and in every year of a concentration-driven run, the prescribed concentrations are reproduced exactly.",
  ["inputs", "configurations", "histories"], "all emission and concentration histories, gas lists, lifetimes, lifetime modes, start years and years",
  "Tests check selected years of one scenario; the recursion must hold for every year and every value of the emissions, lifetimes and start years.",
  [H], [("stepwise gases", H + ": emi2conc, methane_lifetime"), ("pre-computed gases", H + ": _precalculate_concentrations_vanilla_gases"),
        ("prescribed years", H + ": fill_one_row_conc")], ["results['concentrations']"])
p("C05", "The box carbon cycle conserves carbon",
  "In each year of the box carbon cycle the carbon in atmosphere, vegetation, soil, ocean mixed layer and deep ocean together grows by exactly that year's "
  "emissions, whatever the pool contents, parameters and temperature. The reported concentration is the atmospheric pool in ppm and a reset restores the documented pre-industrial pools. "
  "The primary production and ocean flux reported for a year are those of the model's flux laws at that year's concentration and temperature.",
  ["inputs", "configurations", "histories"], "all pool states, parameter values, temperatures and emissions, hence all histories",
  "Tests run a few years with fixed inputs and check reference concentrations; conservation must hold for any state and parameter vector.",
  [CB, "carbon_cycle/common_carbon_cycle_functions.py"], [("yearly pool update", CB + ": co2em2conc"), ("reset", CB + ": reset_co2_hold")], ["co2em2conc return value"])
p("C06", "The default carbon cycle's ocean-biosphere-atmosphere books balance",
  "In every sub-annual step of the default carbon cycle, emissions minus the net uptake by the biosphere and the ocean are accounted for: the atmosphere plus the carbon handed "
  "to the ocean change by exactly the carbon emitted less what the land has taken up, given the year's temperature feedback on ocean and land. "
  "The reported yearly ocean and biosphere fluxes and airborne fraction are the values implied by that same history (where concentrations are prescribed, the land flux is that of those concentrations), and a step depends only on earlier steps and years.",
  ["inputs", "configurations", "histories"], "all emission histories, step counts per year, parameters, response functions and temperature feedbacks",
  "Tests compare a few concentrations with stored numbers for the default 24 steps per year; the budget must close for every history, step count and parameter set.",
  [CC, "carbon_cycle/carbon_cycle_abstract.py"], [("sub-annual step", CC + ": co2em2conc"), ("biosphere flux", CC + ": get_biosphere_carbon_flux"),
   ("ocean flux", CC + ": get_ocean_carbon_flux")], ["co2em2conc return value", "results['carbon cycle']"])
p("C07", "Carbon response functions and airborne fraction follow their definitions",
  "The mixed-layer and biosphere impulse responses, built-in or given by user coefficients and time scales, are at every time exactly the documented sums of exponentials or "
  "flux form, evaluated at the sub-annual step times used by the carbon cycle, and user functions take effect wherever the built-in ones would. The airborne fraction at any year is the "
  "atmospheric carbon increase over cumulative emissions.",
  ["inputs", "configurations"], "all times, coefficient and time-scale vectors, step counts and emission/concentration series",
  "Tests evaluate the functions at a few times with the default coefficients; users supply their own coefficient vectors and step counts.",
  ["carbon_cycle/rfuns.py", "carbon_cycle/common_carbon_cycle_functions.py", "carbon_cycle/carbon_cycle_mod.py"],
  [("response functions", "carbon_cycle/rfuns.py"), ("airborne fraction", "carbon_cycle/common_carbon_cycle_functions.py: calculate_airborne_fraction")],
  ["rs_function, rb_function, calculate_airborne_fraction"])
p("C08", "Back-calculated emissions reproduce the prescribed concentrations",
  "When emissions are inferred from a prescribed CO2 concentration series, re-running the carbon cycle with the inferred emissions and the same feedbacks gives back the "
  "prescribed concentrations within the search tolerance (relative 1e-7), for every year whose concentration is attainable by emissions inside the search range. "
  "The inference starts from the initial state whatever the model was used for before, and leaves the model state and fluxes as a forward run with the inferred emissions would.",
  ["inputs", "configurations", "histories"], "all concentration series and parameter sets for which the yearly search succeeds",
  "Tests try one or two constant or stored series; users prescribe arbitrary concentration paths.",
  ["carbon_cycle/carbon_cycle_abstract.py", CC, CB], [("yearly bisection", "carbon_cycle/carbon_cycle_abstract.py: back_calculate_emissions, _guess_emissions_iteration"),
   ("state rewinding", CC + ": _get_co2_hold_values, _set_co2_hold")], ["back_calculate_emissions"])
p("C09", "The two-layer ocean model closes its energy budget every year",
  "In each year of the two-layer thermal model the heat gained by the two ocean layers equals the forcing minus the feedback response minus the efficacy-weighted part of the exchange, "
  "and the reported temperatures, heat contents, upper-700 m heat content and top-of-atmosphere imbalance are those of that state. "
  "Zero forcing from rest leaves every output zero, and forcing the hemispheres unequally with the same mean gives the same result.",
  ["inputs", "configurations", "histories"], "all parameter sets, layer depths, temperatures, hemispheric and monthly volcanic forcings",
  "Tests check signs and a few values with default depths and no volcanic forcing; the budget must hold in every state and parameter vector.",
  [T2], [("yearly step", T2 + ": energy_budget"), ("heat capacities", T2 + ": __init__")], ["energy_budget return value"])
p("C10", "The upwelling-diffusion model conserves energy",
  "In each year of the upwelling-diffusion thermal model (no direct air exchange between the hemispheres, the default) the change in heat stored in all ocean layers of both hemispheres equals the sub-annual mean of the forcing "
  "minus the climate feedback response of the air temperatures, less the extra part of the heat leaving the mixed layer that an ocean efficacy other than 1 asks for; nothing is created or lost between layers, in polar sinking or between hemispheres. "
  "In every configuration the yearly mean air temperatures of each hemisphere balance its mean forcing with its feedback and its exchange with the sea and with the other hemisphere. "
  "Zero forcing from rest leaves every temperature at zero, and with temperature-independent upwelling the response is linear in the forcing.",
  ["inputs", "configurations", "histories"], "all admissible parameter sets, ocean states, hemispheric and monthly volcanic forcings",
  "Tests compare stored temperatures for one parameter set; a small leak in one layer, term or parameter combination does not show in them.",
  [UD], [("implicit column solve", UD + ": energy_budget, setup_ebud, get_gam_and_fro_factor_ns, coeff"), ("layer coefficients", UD + ": setup_ebud2, _coeff")], ["energy_budget return value"])
p("C11", "Thermal-model diagnostics are consistent with its state",
  "The reported global, hemispheric, land/air and sea-surface temperatures, radiative imbalances and ocean heat contents of the upwelling-diffusion model are the stated area-weighted combinations of its "
  "state in that year: global values are the mean of the hemispheric ones, total ocean heat content is the depth integral of the temperature anomaly of both hemispheres, and the content above 700 m is its part above 700 m (mixed layer shallower than 700 m).",
  ["inputs", "configurations"], "all ocean states, parameter sets and forcings",
  "Tests compare reference outputs of a stored run with default parameters; the relations must hold for all states and ocean-fraction parameters.",
  [UD], [("outputs", UD + ": energy_budget, ocean_temperature")], ["energy_budget return value"])
p("C12", "Aerosol pattern feedback enters as documented and only when asked for",
  "The aerosol weight handed to the thermal model is in every year the aerosol share of the summed absolute forcings of the components computed year by year (perturbations included, precalculated halocarbons and stratospheric ozone left out), lies between 0 and 1, and is 0 when there is no forcing; the "
  "effective feedback of that year is the base feedback plus that weight times the pattern coefficient. With a zero coefficient results are those of the plain model.",
  ["inputs", "configurations", "histories"], "all component forcings, years, weights and coefficients, for both thermal models",
  "Tests check some weights at a few years; the relation must hold for every combination of component forcings and parameters.",
  [H, T2, UD, "ciceroscm.py"], [("weight", H + ": conc2forc"), ("effective feedback", T2 + " and " + UD + ": set_feedback_gregory")], ["conc2forc return value", "get_feedback_gregory"])
p("C13", "Parameters reach the model exactly as given, or the documented default is used",
  "A numeric parameter (any real number type) given by the user for a component is used by that component exactly as given, whichever entry point and other parameters are used; a missing or non-numeric one takes its documented default and "
  "unknown names are ignored; only the direct sulphate, black-carbon and organic-carbon parameters are set to zero where regional aerosol components replace them. Which year range, step count and models are run is as configured (or the documented default), fixed at construction, and cannot be changed by a later parameter set.",
  ["inputs", "configurations"], "all parameter dictionaries: any subset, order, unknown names and value types",
  "Tests try a few dictionaries; the guarantee is over all subsets, orders and values.",
  ["_utils.py", H, "ciceroscm.py", "carbon_cycle/carbon_cycle_abstract.py", T2, UD], [("selection", "_utils.py: cut_and_check_pamset, update_pam_if_numeric"), ("consistency", H + ": check_pamset_consistency")],
  ["component parameter sets, run results"])
p("C14", "Repeated runs are independent and leave the user's data untouched",
  "Running the same instance again with the same parameter sets gives identical results whatever runs came in between with other forcing or thermal parameters, and equal to those of a fresh instance. "
  "No run or construction changes the data frames and arrays the user passed in.",
  ["histories", "inputs"], "all sequences of runs on one instance, all parameter sets and inputs supplied in memory",
  "Tests re-run an instance in a couple of fixed orders; hidden state can leak through any sequence of runs.",
  ["ciceroscm.py", H, CC, CB], [("reset between runs", H + ": reset_with_new_pams"), ("fresh thermal state and output arrays", "ciceroscm.py: _run")], ["results of successive runs"])
p("C15", "Each year of a run uses and reports that year's inputs, and only the past",
  "In every run, the outputs stored for a year, in memory or (to the digits printed) in the output files, come from that same year's emissions, concentrations, natural emissions and solar, volcanic and land-use forcing, with the temperature feedback of the year before. "
  "Changing any input from some year on changes no output before that year (the values of the reference years apart: the configured one, and 2000 for the methane lifetime), and a run to a later end year reproduces the shorter run.",
  ["inputs", "histories", "configurations"], "all inputs, start/emission/end years and years of change, in emission-, concentration- and forcing-driven runs",
  "Tests look at reference numbers for fixed year ranges; misalignment by a year or leakage from the future can hide at particular start/end years.",
  ["ciceroscm.py", H], [("yearly driver", "ciceroscm.py: _run, forc_set, add_year_data_to_output")], ["results"])
p("C16", "Input data are selected and sliced by year as configured",
  "The data a run uses come from the source the user configured, or the built-in default when none is given, and cover exactly the configured years: concentrations, emissions, natural emissions and forcing tables by their year labels, "
  "sun, volcano and land-use files by their rows counted from 1750 (zero sun and volcanoes, whatever is given, unless sunvolc is 1); in-memory sun, volcano and land-use tables have one row per model year from the start year. "
  "A file is preferred to data in memory for the same input. The two CO2 emission columns, renamed gas parameters and hemispheric or component forcing columns are mapped as documented. A concentrations file with another unit than the gas table for one of its gases is refused, and so is an emissions file with all gases of the table. A data year outside the configured range never influences the run.",
  ["inputs", "configurations"], "all combinations of supplied data and files, first data years and configured year ranges",
  "Tests read a few fixed files starting in the default years; the rule must hold for all start years, formats and combinations.",
  ["input_handler.py"], [("reading and slicing", "input_handler.py: read_* functions"), ("selection", "input_handler.py: InputHandler")], ["InputHandler.get_data"])
p("C17", "Parallel ensemble results equal one-by-one runs",
  "An ensemble run over scenarios and configurations returns, for any number of workers and any ordering or splitting of the work, exactly one result for each combination, labelled with its own scenario and configuration "
  "and equal to a stand-alone run of that combination. The values given in the configurations are not changed.",
  ["schedules", "configurations", "inputs"], "all worker counts, orders and numbers of scenarios and configurations",
  "Tests run a small ensemble with one fixed worker number; loss, duplication, mislabelling or cross-talk depends on the split and order.",
  ["parallel/cscmparwrapper.py", "parallel/_parallel_process.py", "parallel/distributionrun.py"], [("splitting and collection", "parallel/cscmparwrapper.py"), ("pool driver", "parallel/_parallel_process.py: _parallel_process")],
  ["run_ciceroscm_parallel"])
p("C18", "Sampled configurations stay in their priors and survive storage",
  "Every sampled configuration has exactly the requested parameters: each sampled one within its prior range (latin hypercube, one sample in each stratum) or at the middle of the range plus half the range times a standard normal draw (gaussian), "
  "each fixed one at its fixed value, all placed in the parameter set of the component that uses them, and the labels (prefix, chunk number when chunked, running number) are distinct. Chunks together hold every sample exactly once. "
  "Writing configurations to a file and reading them back gives the same configurations, and a distribution run uses exactly those.",
  ["inputs", "configurations"], "all prior ranges, fixed values, sample sizes, chunk sizes, orderings, sampling methods and options",
  "Tests draw a few samples with default priors; the guarantees are over all priors, sizes and parameter selections.",
  ["parallel/_configdistro.py", "parallel/distributionrun.py"], [("sampling", "parallel/_configdistro.py: get_samples_from_distro_latin and siblings"), ("configuration lists", "parallel/_configdistro.py: make_config_lists")],
  ["make_config_lists, write_configs_to_json"])
p("C19", "Perturbations are additive and local",
  "An emission perturbation changes the named component's emissions in the named year by exactly the given amount, and a forcing perturbation changes that component's forcing and the total in that year by exactly the given amount "
  "with the component's hemispheric split; nothing else in that year and nothing before it changes (perturbed reference years of ozone and methane lifetime apart). Several perturbations of the same component and year add up.",
  ["inputs", "configurations"], "all perturbation tables, components, years and amounts, repeated entries included",
  "Tests apply one or two fixed perturbation files; additivity must hold for every table.",
  ["perturbations.py", H], [("emissions", "perturbations.py: perturb_emissions"), ("forcing", "perturbations.py: ForcingPerturbation")], ["emissions used, results['forcing']"])
p("C20", "Formatted output carries the same numbers under standard names and units",
  "Each variable in the formatted results equals the corresponding raw model output for every year of the run after the declared unit conversion (temperatures in K, heat uptake over the ocean area in ZJ per year, heat content in ZJ, carbon pools as running sums of the fluxes), "
  "and each aggregate variable is the sum of exactly its components present in the run: aerosols (BC, OC, direct and indirect sulfate; the interactions with radiation without the last), F-gases, greenhouse gases (CO2, CH4, N2O, ozone, stratospheric water vapour, F-gases and Montreal gases), and anthropogenic plus solar and mean hemispheric volcanic forcing. "
  "Formatting does not alter the raw results.",
  ["inputs", "configurations"], "all result dictionaries, component lists, year ranges and variables",
  "Tests check a few variables of one stored run; the mapping must hold for every variable, component list and year range.",
  ["formattingtools/reformat_cscm_results.py"], [("mapping and units", "formattingtools/reformat_cscm_results.py: CSCMREADER and unit tables")], ["formatted results"])
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
