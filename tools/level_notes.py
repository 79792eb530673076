_D = "contracts on the real functions, mechanically extracted on every run, symbolic execution + loop summarisation, obligations discharged by a ring normaliser and z3"
_A = "Machine arithmetic is treated as real arithmetic; numpy/pandas/scipy operations are assumed to meet the stated contracts; the engine pyvc and z3 are trusted. "
NA = {}
_B = " Whole runs through the public interface are checked on random set-ups (bounded, never counted as proved)."
NOTES.update({
 "C01": ("proof", _D, _A + "conc2forc from any state, for every kind of agent the code distinguishes, with perturbation tables of up to four rows and single-component runs." + _B),
 "C02": ("proof", _D, _A + "The split for every agent name; conc2forc from any state, with perturbations and single-component runs." + _B),
 "C03": ("proof", _D, _A + "Every component from any state; halocarbons and stratospheric ozone for all values in windows of up to 6 years." + _B),
 "C04": ("proof", _D, _A + "emi2conc from any state in any year; constant-lifetime gases for all values in windows of up to 5 years; the carbon cycle enters by its interface only." + _B),
 "C06": ("proof", _D, _A + "The yearly step from any state for 1, 2 and 4 sub-steps in the first three years, the ocean partial pressure at any step of any history, the temperature feedbacks and the reported fluxes; longer histories and default step counts are bounded." + _B),
 "C08": ("proof", _D, _A + "The search over two years for every carbon cycle with one state variable and any response; rewinding of the default carbon cycle from any state (1 and 2 sub-steps, first two years). That bisection reaches the tolerance within its iterations is bounded (round trips)." + _B),
 "C10": ("proof", _D, _A + "Any state, parameters and forcing: default resolution (40 layers, 12 sub-steps) and small sizes; matrix columns for any number of layers; scipy's banded solver is assumed to return the unique solution." + _B),
 "C11": ("proof", _D, _A + "Any state, parameters and forcing with 4 layers and up to 3 sub-steps; heat contents for every mixed-layer depth below 700 m." + _B),
 "C12": ("proof", _D, _A + "The weight for any component forcings; the effective feedback of both models, coefficients included (upwelling model with 5 layers)." + _B),
 "C13": ("proof", _D, _A + "Every subset and every value type of a parameter set, for each component's own list of parameters; the parameter reaching the numbers is proved for each component's equations in C01-C11." + _B),
 "C14": ("proof", _D, _A + "The reset from any state left by a run, and the frame conditions of a year's concentrations and forcings; sequences of runs as such are bounded." + _B),
 "C15": ("proof", _D, _A + "The driver loop for runs of any length against components known by their interface only; causality of whole runs is bounded." + _B),
 "C16": ("proof", _D, _A + "Selection, slicing and defaults for any start and end year over tables with one row per year (pandas.read_csv and row/column selection by contract, real files in the bounded harnesses)." + _B),
 "C20": ("proof", _D, _A + "Every variable of the documented table for runs of any length; the sums for all, none, each alone and all but each of their components; unit tables and whole runs are bounded." + _B),
 "C17": ("proof", _D, _A + "The splitting for all numbers of scenarios, configurations and workers, the pool driver for all numbers of pieces and orders of completion (concurrent.futures by contract), one piece of work for three configurations with any model; whole ensembles with real processes are bounded." + _B),
 "C18": ("proof", _D, _A + "Any priors, fixed values, sample numbers and chunk sizes for a list of parameters of each kind; the random generators enter by contract, storage and distribution runs are bounded."),
 "C19": ("proof", _D, _A + "Any state and any perturbation tables of four rows." + _B),

 "C05": ("proof", _D, _A + "Every obligation of the yearly pool update from any state, any sub-step count, is discharged."),
 "C07": ("proof", _D, _A + "Response functions for every time and coefficient vector, airborne fraction for every series."),
 "C09": ("proof", _D, _A + "The yearly step from any state and parameter vector."),
})
