From a7e497430b3c3d42dbb9d37d0da406acadbdfe79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:21 +0000
Subject: [PATCH 01/25] fix: keep results in configuration order when running
 without a pool

_parallel_process returned the front serial results after the rest of the
results when pool is None, so results did not line up with configuration.
---
 src/ciceroscm/parallel/_parallel_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/parallel/_parallel_process.py b/src/ciceroscm/parallel/_parallel_process.py
index be9a4f7..3a1ddf8 100644
--- a/src/ciceroscm/parallel/_parallel_process.py
+++ b/src/ciceroscm/parallel/_parallel_process.py
@@ -165,7 +165,7 @@ def _parallel_process(  # pylint:disable=too-many-arguments,too-many-positional-
             desc="Serial runs",
         )
 
-        return rest + front_serial_res
+        return front_serial_res + rest
 
     front_parallel_res = []
     if front_parallel > 0:
-- 
2.43.0


From e6ae287448a50407dc72b7e9973855a2a6cf817c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:21 +0000
Subject: [PATCH 02/25] fix: take hemispheric mean per year for hemispherically
 split forcing

read_forc averaged over years instead of over the two hemispheres, which
left the total column as NaN for every year.
---
 src/ciceroscm/input_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/input_handler.py b/src/ciceroscm/input_handler.py
index 40cbc3d..2b88f22 100644
--- a/src/ciceroscm/input_handler.py
+++ b/src/ciceroscm/input_handler.py
@@ -174,7 +174,7 @@ def read_forc(forc_file):
         df_forc = pd.read_csv(forc_file, index_col=0)
         if "total" not in df_forc.columns:
             if "FORC_NH" in df_forc.columns and "FORC_SH" in df_forc.columns:
-                df_forc["total"] = df_forc[["FORC_NH", "FORC_SH"]].mean()
+                df_forc["total"] = df_forc[["FORC_NH", "FORC_SH"]].mean(axis=1)
             else:
                 df_forc["total"] = df_forc[list(df_forc)].sum(axis=1)
                 df_forc["FORC_NH"] = df_forc["total"]
-- 
2.43.0


From 73001168402425f8a0257096523211885da0973f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:21 +0000
Subject: [PATCH 03/25] fix: average volcanic forcing over hemispheres in two
 layer model

With numpy arrays (which is what CICEROSCM sends) fn_volc + fs_volc is the
sum over hemispheres, so volcanic forcing was counted twice.
---
 src/ciceroscm/thermal_model/two_layer_ocean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/thermal_model/two_layer_ocean.py b/src/ciceroscm/thermal_model/two_layer_ocean.py
index 683d1ce..740c0c7 100644
--- a/src/ciceroscm/thermal_model/two_layer_ocean.py
+++ b/src/ciceroscm/thermal_model/two_layer_ocean.py
@@ -144,7 +144,7 @@ class TwoLayerOceanModel(
               hemisphere-specific)
             - OHCTOT/OHC_MIXED/OHC_DEEP/OHC700: Ocean heat content diagnostics
         """
-        forc = (forc_nh + forc_sh) / 2 + np.mean(fn_volc + fs_volc)
+        forc = (forc_nh + forc_sh) / 2 + (np.mean(fn_volc) + np.mean(fs_volc)) / 2
 
         # Fast layer temperature change
         dtemp_fast = (
-- 
2.43.0


From cd28ba351403f62c4a9073ed948bf559e7c7df27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:21 +0000
Subject: [PATCH 04/25] fix: route set decay function values to the carbon
 parameter set

rb_ and rs_ set values ended up in pamset_emiconc where they were dropped.
---
 src/ciceroscm/parallel/_configdistro.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/parallel/_configdistro.py b/src/ciceroscm/parallel/_configdistro.py
index fb91c0d..b6919b4 100644
--- a/src/ciceroscm/parallel/_configdistro.py
+++ b/src/ciceroscm/parallel/_configdistro.py
@@ -200,7 +200,9 @@ class _ConfigDistro:
         for pam, value in self.setvalues.items():
             if pam in ordering_standard_forc:
                 self.pamset_udm_start[pam] = value
-            elif pam in CARBON_CYCLE_MODEL_REQUIRED_PAMSET:
+            elif pam in CARBON_CYCLE_MODEL_REQUIRED_PAMSET or pam.startswith(
+                ("rb_", "rs_")
+            ):
                 self.pamset_carbon_start[pam] = value
             else:
                 self.pamset_emiconc_start[pam] = value
-- 
2.43.0


From a15f9cd2ebbb81f67dab6399fad270ee74900261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:21 +0000
Subject: [PATCH 05/25] fix: keep stored meta_info when writing configurations
 to json

---
 src/ciceroscm/parallel/distributionrun.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/parallel/distributionrun.py b/src/ciceroscm/parallel/distributionrun.py
index 0cdb749..79c7aa3 100644
--- a/src/ciceroscm/parallel/distributionrun.py
+++ b/src/ciceroscm/parallel/distributionrun.py
@@ -89,7 +89,9 @@ class DistributionRun:
         meta_info: dict, optional
             dictionary with meta optional information to add to the json file
         """
-        if meta_info is None and self.meta_info is None:
+        if meta_info is None:
+            meta_info = self.meta_info
+        if meta_info is None:
             with open(json_file_name, "w", encoding="utf-8") as wfile:
                 json.dump(self.cfgs, wfile)
         else:
-- 
2.43.0


From 30e7f1f8555f749c710af3acee780770fc305e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:21 +0000
Subject: [PATCH 06/25] fix: honour rf_volc_file and rf_volc_data

The keys were cut from the configurations before use, so the default
volcanic data was silently used in stead.
---
 src/ciceroscm/input_handler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ciceroscm/input_handler.py b/src/ciceroscm/input_handler.py
index 2b88f22..904f2e8 100644
--- a/src/ciceroscm/input_handler.py
+++ b/src/ciceroscm/input_handler.py
@@ -274,6 +274,8 @@ class InputHandler:
             "sunvolc": 0,
             "conc_run": False,
             "idtm": 24,
+            "rf_volc_file": 0,
+            "rf_volc_data": 0,
         }
         for key in self.read_methods:
             used[f"{key}_file"] = 0
-- 
2.43.0


From 98151126c37a964771850fd79beecfb84b4e3943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:14 +0000
Subject: [PATCH 07/25] fix: sum all components in the aggregated aerosol
 forcings

The aggregate names did not match the component variable names, so only
the direct sulfate forcing was included in the aerosol totals.
---
 src/ciceroscm/formattingtools/reformat_cscm_results.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/formattingtools/reformat_cscm_results.py b/src/ciceroscm/formattingtools/reformat_cscm_results.py
index 6760bd8..82b58d4 100644
--- a/src/ciceroscm/formattingtools/reformat_cscm_results.py
+++ b/src/ciceroscm/formattingtools/reformat_cscm_results.py
@@ -44,7 +44,10 @@ openscm_to_cscm_dict = {
     "Atmospheric Concentrations|N2O": "N2O",
     "Atmospheric Concentrations|Ozone|Tropospheric'": "TROP_O3",
 }
-forc_sums = ["Aerosols", "Aerosols|Direct Effect"]
+forc_sums = {
+    "Aerosols": "|Aerosol|",
+    "Aerosols|Direct Effect": "|Aerosol-radiation Interactions|",
+}
 fgas_list = [
     "HFC125",
     "HFC134a",
@@ -178,7 +181,7 @@ def get_data_from_forc_common(
     if variable in forc_sums:
         timeseries = np.zeros(len(years))
         for comp, value in v_dict.items():
-            if variable in comp and value not in forc_sums:
+            if forc_sums[variable] in comp and value not in forc_sums:
                 timeseries = timeseries + df_temp[value].to_numpy()
     elif variable in ("Fgas", "GHG"):
         timeseries = np.zeros(len(years))
-- 
2.43.0


From 6c0af91d40f08d08a53ea18f0642cc970701f340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:14 +0000
Subject: [PATCH 08/25] fix: add up repeated forcing perturbations of
 precalculated gases

Only one of several perturbations of the same gas and year was applied.
---
 src/ciceroscm/perturbations.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ciceroscm/perturbations.py b/src/ciceroscm/perturbations.py
index e8bf566..d336b9c 100644
--- a/src/ciceroscm/perturbations.py
+++ b/src/ciceroscm/perturbations.py
@@ -221,8 +221,6 @@ class ForcingPerturbation:
             return
         for gas in precalc_pert_gases:
             perturb_here = self.perturb_raw[self.perturb_raw.component == gas]
-            precalc_erf.loc[perturb_here.year.values, gas] = (
-                precalc_erf.loc[perturb_here.year.values, gas].values
-                + perturb_here.forcing.values
-            )
+            for year, forcing in zip(perturb_here.year, perturb_here.forcing):
+                precalc_erf.loc[year, gas] = precalc_erf.loc[year, gas] + forcing
         return
-- 
2.43.0


From 1c011f7e75996c89e4247d7af9a534553cabb978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:14 +0000
Subject: [PATCH 09/25] fix: include forcing perturbations in the aerosol part
 of w_aero

The aerosol magnitude was taken before perturbations were added while the
total magnitude included them, so the fraction could exceed one.
---
 src/ciceroscm/concentrations_emissions_handler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index dbf05f9..68a21fe 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -636,7 +636,7 @@ class ConcentrationsEmissionsHandler:
         tot_forc, forc_nh, forc_sh = self.calculate_forc_three_main(yr)
         yr_0 = self.years[0]
         # Finish per tracer calculations, add per tracer to printable df and sum the total
-        f_aero_mag = 0.0
+        aero_tracers = []
         for tracer, forc_val_series in self.forc.items():
             if tracer in ["CO2", "N2O", "CH4"]:
                 continue
@@ -651,7 +651,7 @@ class ConcentrationsEmissionsHandler:
                 "BM",
             ]:
                 q = self.calc_aerosol_forcing(yr, tracer)
-                f_aero_mag = f_aero_mag + abs(q)
+                aero_tracers.append(tracer)
             elif (
                 tracer in self.df_gas.index
                 and self.df_gas["ALPHA"][tracer] != 0  # pylint: disable=compare-to-zero
@@ -718,6 +718,7 @@ class ConcentrationsEmissionsHandler:
         # Returns 0.0 when all components are zero (pre-industrial),
         # which is the no-pattern-effect case anyway.
         idx = yr - yr_0
+        f_aero_mag = sum(abs(self.forc[k][idx]) for k in aero_tracers)
         f_abs_total = sum(
             abs(s[idx]) for k, s in self.forc.items() if k != "Total_forcing"
         )
-- 
2.43.0


From 8c3fb780682d0068fe8f5af28fed44a31487ce03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:14 +0000
Subject: [PATCH 10/25] fix: do not let just_one leak into later runs of the
 same instance

---
 src/ciceroscm/concentrations_emissions_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index 68a21fe..60cd1d5 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -109,7 +109,7 @@ def check_pamset_consistency(pamset_old, pamset_new):
             )
             pamset_new[pam] = pamset_old[pam]
     for pam, value in pamset_old.items():
-        if pam not in pamset_new:
+        if pam not in pamset_new and pam != "just_one":
             pamset_new[pam] = value
     return pamset_new
 
-- 
2.43.0


From 335d6610735ed20fd4dfbbd6c86dc934c796d9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:14 +0000
Subject: [PATCH 11/25] fix: do not change user supplied emissions and gas
 parameter data

Emission perturbations were added in place to emissions_data, and natural
emissions written to gaspam_data, so that they leaked into the next model
instance set up from the same data.
---
 src/ciceroscm/concentrations_emissions_handler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index 60cd1d5..020b073 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -182,7 +182,8 @@ class ConcentrationsEmissionsHandler:
         pamset : dict
            list of physical parameters to define the run
         """
-        self.df_gas = input_handler.get_data("gaspam")
+        # Copying so data sent directly by the user is not changed by the run
+        self.df_gas = input_handler.get_data("gaspam").copy()
         self.conc = {}
         self.forc = {}
         self.nat_emis_ch4 = input_handler.get_data("nat_ch4")
@@ -193,6 +194,8 @@ class ConcentrationsEmissionsHandler:
         self.emis = input_handler.get_data("emissions")
         self.pamset["conc_run"] = input_handler.conc_run()
         if input_handler.optional_pam("perturb_em"):
+            # Copying so data sent directly by the user is not perturbed
+            self.emis = self.emis.copy()
             perturb_emissions(input_handler, self.emis)
         if input_handler.optional_pam("perturb_forc"):
             self.pamset["forc_pert"] = ForcingPerturbation(input_handler, self.years[0])
-- 
2.43.0


From c0c6046c0a8303543a22808564b5b63d3e99adbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:15 +0000
Subject: [PATCH 12/25] fix: use the rs_function and rb_function sent in the
 configurations

They were put in pamset_emiconc where they are cut, so that the default
decay functions were silently used.
---
 src/ciceroscm/ciceroscm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/ciceroscm.py b/src/ciceroscm/ciceroscm.py
index f0c6a9b..fa4b74d 100644
--- a/src/ciceroscm/ciceroscm.py
+++ b/src/ciceroscm/ciceroscm.py
@@ -121,11 +121,12 @@ class CICEROSCM:
             pamset_emiconc["nyend"] = self.cfg["nyend"]
             pamset_emiconc["idtm"] = self.cfg["idtm"]
 
+            pamset_carbon = {}
             for key, value in cfg.items():
                 if key in ["rs_function", "rb_function"]:
-                    pamset_emiconc[key] = value
+                    pamset_carbon[key] = value
             self.ce_handler = ConcentrationsEmissionsHandler(
-                input_handler, pamset_emiconc
+                input_handler, pamset_emiconc, pamset_carbon
             )
             self.feedback_list = self.ce_handler.get_feedback_list()
         self.results = {}
-- 
2.43.0


From 69787cc17244f2a6a26963b6ba46a5d65add48be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:15 +0000
Subject: [PATCH 13/25] fix: make results independent of previously run
 configurations

The carbon cycle parameters of one configuration were kept for later
configurations in the same batch that did not set them, so that results
depended on how the configurations were split between workers.
---
 src/ciceroscm/parallel/cscmparwrapper.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/parallel/cscmparwrapper.py b/src/ciceroscm/parallel/cscmparwrapper.py
index f7a6073..86bcc8f 100644
--- a/src/ciceroscm/parallel/cscmparwrapper.py
+++ b/src/ciceroscm/parallel/cscmparwrapper.py
@@ -2,6 +2,7 @@
 Module for running CICEROSCM in parallel
 """
 
+import copy
 import logging
 from concurrent.futures import ProcessPoolExecutor
 from itertools import product
@@ -188,7 +189,10 @@ class CSCMParWrapper:  # pylint: disable=too-few-public-methods
         """
         runs = []
         for pamset in cfgs:
-            self.cscm._run(  # pylint: disable=protected-access
+            # Starting from the same state for all configurations, so that results
+            # do not depend on which configurations were run before
+            cscm = copy.deepcopy(self.cscm)
+            cscm._run(  # pylint: disable=protected-access
                 {"results_as_dict": True, "carbon_cycle_outputs": carbon_cycle_outputs},
                 pamset_udm=pamset.get("pamset_udm", None),
                 pamset_emiconc=pamset.get("pamset_emiconc", None),
@@ -200,7 +204,7 @@ class CSCMParWrapper:  # pylint: disable=too-few-public-methods
                     timeseries,
                     unit,
                 ) = self.resultsreader.get_variable_timeseries(
-                    self.cscm.results, variable, self.sdatagetter
+                    cscm.results, variable, self.sdatagetter
                 )
                 if isinstance(years, pd.DataFrame) and years.empty:  # pragma: no cover
                     continue  # pragma: no cover
-- 
2.43.0


From c1cd9719ec439b592c2c2c2daf4cc6c412fbbe59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:10 +0000
Subject: [PATCH 14/25] fix: allow emissions data that start before the first
 model year

Reporting the results raised a ValueError when in-memory emissions data
started before nystart.
---
 src/ciceroscm/concentrations_emissions_handler.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index 020b073..c9c33f0 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -999,9 +999,7 @@ class ConcentrationsEmissionsHandler:
         cols = cols[-1:] + cols[:-1]
         df_forc = df_forc[cols]
         df_forc.rename(columns={"SO2": "SO4_DIR"}, inplace=True)
-        df_emis = self.emis.drop(labels=["CO2_FF", "CO2_AFOLU"], axis=1).drop(
-            labels=np.arange(self.years[-1] + 1, self.emis.index[-1] + 1), axis=0
-        )
+        df_emis = self.emis.drop(labels=["CO2_FF", "CO2_AFOLU"], axis=1).loc[self.years]
         df_emis["Year"] = self.years
         df_emis["CO2"] = self.emis["CO2_FF"] + self.emis["CO2_AFOLU"]
         cols = df_emis.columns.tolist()
-- 
2.43.0


From daa4b678a59ce6e689ede39a1c4ba41db64edfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:53 +0000
Subject: [PATCH 15/25] fix: start emission driven gases in the right year also
 when emstart is the first or last year

The precalculated gases were emission driven from emstart only if it lay
strictly inside the run: emstart equal to nystart raised IndexError,
an earlier emstart gave prescribed concentrations, and emstart equal to
nyend left the last year prescribed.
---
 src/ciceroscm/concentrations_emissions_handler.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index c9c33f0..c3d441f 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -282,7 +282,7 @@ class ConcentrationsEmissionsHandler:
 
     def _precalculate_concentrations_vanilla_gases(self, df_gases_vanilla):
         conc_in_vanilla = self.conc_in.copy()[df_gases_vanilla.index]
-        if self.pamset["conc_run"] or self.pamset["nyend"] <= self.pamset["emstart"]:
+        if self.pamset["conc_run"] or self.pamset["nyend"] < self.pamset["emstart"]:
             return conc_in_vanilla.iloc[
                 self.pamset["nystart"]
                 - conc_in_vanilla.index[0] : self.pamset["nyend"]
@@ -290,15 +290,19 @@ class ConcentrationsEmissionsHandler:
                 + 1
             ]
 
+        first_em_year = max(self.pamset["emstart"], self.pamset["nystart"])
+        conc_start = conc_in_vanilla.loc[
+            max(first_em_year - 1, self.pamset["nystart"])
+        ].to_numpy()
         conc_in_vanilla = conc_in_vanilla.iloc[
             self.pamset["nystart"]
-            - conc_in_vanilla.index[0] : self.pamset["emstart"]
+            - conc_in_vanilla.index[0] : first_em_year
             - conc_in_vanilla.index[0]
         ]
 
         emis_vanilla = self.emis.copy()[df_gases_vanilla.index]
         emis_vanilla = emis_vanilla.iloc[
-            self.pamset["emstart"]
+            first_em_year
             - emis_vanilla.index[0] : self.pamset["nyend"]
             - emis_vanilla.index[0]
             + 1
@@ -309,7 +313,7 @@ class ConcentrationsEmissionsHandler:
         for i in range(emis.shape[0]):
             emis_now = emis[i, :]
             if i == 0:
-                conc_prev = conc_in_vanilla.iloc[-1, :].to_numpy()
+                conc_prev = conc_start
             else:
                 conc_prev = conc_rows[-1]
             conc = emis_now / df_gases_vanilla["BETA"].to_numpy() / q * (
-- 
2.43.0


From 0e9200067d8c31c4489afdc146d8a90bb556676c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:07 +0000
Subject: [PATCH 16/25] fix: allow just_one for components with precalculated
 forcing

just_one set to a gas whose forcing is precalculated (halocarbons,
stratospheric ozone) raised KeyError.
---
 src/ciceroscm/concentrations_emissions_handler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index c3d441f..3bd23d3 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -711,7 +711,10 @@ class ConcentrationsEmissionsHandler:
         # Adding solar forcing
         # tot_forc = tot_forc + rf_sun
         if "just_one" in self.pamset:
-            tot_forc = self.forc[self.pamset["just_one"]][yr - yr_0]
+            if self.pamset["just_one"] in self.forc:
+                tot_forc = self.forc[self.pamset["just_one"]][yr - yr_0]
+            else:
+                tot_forc = self.precalc_dict["precalc_erf"][self.pamset["just_one"]][yr]
             forc_nh, forc_sh = calculate_hemispheric_forcing(
                 self.pamset["just_one"], tot_forc, 0, 0
             )
-- 
2.43.0


From a4e7aece70f47cddee8ce16c30e65a44b12d2cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:44 +0000
Subject: [PATCH 17/25] fix: start back-calculation of emissions from the
 initial carbon cycle state

---
 src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py b/src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py
index a75f473..f62d575 100644
--- a/src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py
+++ b/src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py
@@ -329,6 +329,8 @@ class AbstractCarbonCycleModel(ABC):
             Timeseries of estimated emissions to match the concentration and
             temperature timeseries sent
         """
+        # Start from the initial state, whatever the model has been used for before
+        self._set_co2_hold()
         prev_co2_conc = self.get_preindustrial_co2_conc()
         em_series = np.zeros(len(co2_conc_series))
         if feedback_dict_series is None:
-- 
2.43.0


From 1a6e8496b300c5d587c5e74e480b1af85430b6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:45 +0000
Subject: [PATCH 18/25] fix: accept no temperature series in
 get_ocean_carbon_flux

---
 src/ciceroscm/carbon_cycle/carbon_cycle_mod.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ciceroscm/carbon_cycle/carbon_cycle_mod.py b/src/ciceroscm/carbon_cycle/carbon_cycle_mod.py
index f95ad8f..20bb985 100644
--- a/src/ciceroscm/carbon_cycle/carbon_cycle_mod.py
+++ b/src/ciceroscm/carbon_cycle/carbon_cycle_mod.py
@@ -729,6 +729,8 @@ class CarbonCycleModel(AbstractCarbonCycleModel):
         """
         # TODO: Don't redo this if back-calculation is already done...
         if conc_run and co2_conc_series is not None and redo_back_calculation:
+            if dtemp_series is None:
+                dtemp_series = np.zeros(len(co2_conc_series))
             self.back_calculate_emissions(
                 co2_conc_series, feedback_dict_series={"dtemp": dtemp_series}
             )
-- 
2.43.0


From 8382941042743e4aa4e1d37863913cbeedde2b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:08 +0000
Subject: [PATCH 19/25] fix: treat numpy integers and other real numbers as
 numeric parameters

---
 src/ciceroscm/_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/_utils.py b/src/ciceroscm/_utils.py
index 36080a6..285d2ca 100644
--- a/src/ciceroscm/_utils.py
+++ b/src/ciceroscm/_utils.py
@@ -3,6 +3,7 @@ Class for common utility functions
 """
 
 import logging
+from numbers import Real
 
 LOGGER = logging.getLogger(__name__)
 
@@ -35,7 +36,7 @@ def check_numeric_pamset(required, pamset):
                 f"Parameter {pam} not in pamset. Using default value {value}",
             )
             pamset[pam] = value
-        elif not isinstance(pamset[pam], int) and not isinstance(pamset[pam], float):
+        elif not isinstance(pamset[pam], Real):
             LOGGER.info(  # pylint: disable=logging-fstring-interpolation
                 f"Parameter {pam} must be a number. Using default value {value}",
             )
@@ -142,7 +143,7 @@ def update_pam_if_numeric(pamset_old, pamset_new, can_change):
                 f"{key} is not a valid parameter to update this version of the Carbon cycle",
             )
             continue
-        if not isinstance(value, int) and not isinstance(value, float):
+        if not isinstance(value, Real):
             LOGGER.info(  # pylint: disable=logging-fstring-interpolation
                 f"Parameter {key} must be a number. {value} will be ignored",
             )
-- 
2.43.0


From 83b8e7ab9a5ea488f56b5232b6d453c445c5fd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:35 +0000
Subject: [PATCH 20/25] fix: place every sampled thermal and box carbon
 parameter in the set of its component

---
 src/ciceroscm/parallel/_configdistro.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/parallel/_configdistro.py b/src/ciceroscm/parallel/_configdistro.py
index b6919b4..830ea11 100644
--- a/src/ciceroscm/parallel/_configdistro.py
+++ b/src/ciceroscm/parallel/_configdistro.py
@@ -9,6 +9,7 @@ import numpy as np
 from scipy.stats import qmc
 
 from ..carbon_cycle.carbon_cycle_mod import CARBON_CYCLE_MODEL_REQUIRED_PAMSET
+from ..carbon_cycle.carbon_cycle_mod_box import CarbonCycleModel as BoxCarbonCycleModel
 
 LOGGER = logging.getLogger(__name__)
 
@@ -83,6 +84,11 @@ ordering_standard_forc = [
     "threstemp",
     "lm",
     "ldtime",
+    "foan",
+    "foas",
+    "ebbeta",
+    "deep",
+    "k",
 ]
 """list: Containing a default ordering of parameters for forcing run"""
 
@@ -95,6 +101,12 @@ set_values_default = {
 }
 """dict: Containing default set values for parameters"""
 
+carbon_cycle_pams = {
+    **CARBON_CYCLE_MODEL_REQUIRED_PAMSET,
+    **BoxCarbonCycleModel.carbon_cycle_model_required_pamset,
+}
+"""dict: Containing the parameters used by the carbon cycle models"""
+
 options_default = {"forc": False, "method": "latin"}
 """dict: Containing default options for making parameter distributions"""
 
@@ -200,7 +212,7 @@ class _ConfigDistro:
         for pam, value in self.setvalues.items():
             if pam in ordering_standard_forc:
                 self.pamset_udm_start[pam] = value
-            elif pam in CARBON_CYCLE_MODEL_REQUIRED_PAMSET or pam.startswith(
+            elif pam in carbon_cycle_pams or pam.startswith(
                 ("rb_", "rs_")
             ):
                 self.pamset_carbon_start[pam] = value
@@ -358,7 +370,7 @@ class _ConfigDistro:
                     pamset_udm[pam] = samples[i, j]
                 elif (
                     not self.options["forc"]
-                    and pam in CARBON_CYCLE_MODEL_REQUIRED_PAMSET
+                    and pam in carbon_cycle_pams
                 ):
                     pamset_carbon[pam] = samples[i, j]
                 elif not self.options["forc"] and pam.startswith(("rb_", "rs_")):
-- 
2.43.0


From 879602fb0e9b6238e21583ff47b826e098177219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:07 +0000
Subject: [PATCH 21/25] fix: ignore solar and volcanic files when sunvolc is
 not 1

---
 src/ciceroscm/input_handler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ciceroscm/input_handler.py b/src/ciceroscm/input_handler.py
index 904f2e8..18d156b 100644
--- a/src/ciceroscm/input_handler.py
+++ b/src/ciceroscm/input_handler.py
@@ -430,6 +430,8 @@ class InputHandler:
                 self.cfg["rf_volc_n_data"] = self.cfg["rf_volc_data"]
                 self.cfg["rf_volc_s_data"] = self.cfg["rf_volc_data"]
         else:
+            for key in ["rf_sun_file", "rf_volc_n_file", "rf_volc_s_file"]:
+                self.cfg.pop(key, None)
             indices = np.arange(self.cfg["nystart"], self.cfg["nyend"] + 1)
             self.cfg["rf_volc_n_data"] = pd.DataFrame(
                 data=np.zeros((self.cfg["nyend"] - self.cfg["nystart"] + 1, 12)),
-- 
2.43.0


From 28a5c8899dd783461f60fd549f1ccbd0bb32bab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:40 +0000
Subject: [PATCH 22/25] fix: sum only the aerosol components present in the run
 in formatted forcing

---
 src/ciceroscm/formattingtools/reformat_cscm_results.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/formattingtools/reformat_cscm_results.py b/src/ciceroscm/formattingtools/reformat_cscm_results.py
index 82b58d4..8b00d8a 100644
--- a/src/ciceroscm/formattingtools/reformat_cscm_results.py
+++ b/src/ciceroscm/formattingtools/reformat_cscm_results.py
@@ -181,7 +181,11 @@ def get_data_from_forc_common(
     if variable in forc_sums:
         timeseries = np.zeros(len(years))
         for comp, value in v_dict.items():
-            if forc_sums[variable] in comp and value not in forc_sums:
+            if (
+                forc_sums[variable] in comp
+                and value not in forc_sums
+                and value in df_temp.columns
+            ):
                 timeseries = timeseries + df_temp[value].to_numpy()
     elif variable in ("Fgas", "GHG"):
         timeseries = np.zeros(len(years))
-- 
2.43.0


From 89984da6e13eba1feaa46de2ba3e4ea00da46f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:40 +0000
Subject: [PATCH 23/25] fix: format emissions of runs without carbon cycle
 outputs

---
 src/ciceroscm/formattingtools/reformat_cscm_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/formattingtools/reformat_cscm_results.py b/src/ciceroscm/formattingtools/reformat_cscm_results.py
index 8b00d8a..42e1972 100644
--- a/src/ciceroscm/formattingtools/reformat_cscm_results.py
+++ b/src/ciceroscm/formattingtools/reformat_cscm_results.py
@@ -225,7 +225,7 @@ def get_data_from_em(results, variable):
     df_temp = results["emissions"]
     years = df_temp.Year[:]
     # If concentrations run, CO2 emissions should be taken from carbon cycle back calculation
-    if "Emissions" in results["carbon cycle"].keys() and variable == "CO2":
+    if variable == "CO2" and "Emissions" in results.get("carbon cycle", {}):
         timeseries = results["carbon cycle"][
             "Emissions"
         ].to_numpy()  # pylint:disable=unsubscriptable-object
-- 
2.43.0


From e8bb6b5d13d6c2c13f7601471381e256a49d1161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:16 +0000
Subject: [PATCH 24/25] fix: check concentration units also when the emissions
 file lacks a gas

---
 src/ciceroscm/input_handler.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ciceroscm/input_handler.py b/src/ciceroscm/input_handler.py
index 18d156b..a07b4e0 100644
--- a/src/ciceroscm/input_handler.py
+++ b/src/ciceroscm/input_handler.py
@@ -341,10 +341,8 @@ class InputHandler:
                     LOGGER.info(  # pylint: disable=logging-fstring-interpolation
                         f"Missing species {set(df_gas.index) - set(em_header.columns)}"
                     )
-                    return
-                em_header_check = em_header[df_gas.index]
-                if (
-                    em_header_check.loc["Unit", :].to_list()
+                elif (
+                    em_header[df_gas.index].loc["Unit", :].to_list()
                     != df_gas["EM_UNIT"].to_list()
                 ):
                     raise ValueError(
-- 
2.43.0


From 344b94355dc82c57aa70f4c6ca77b45beff7d851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:36 +0000
Subject: [PATCH 25/25] fix: write output files of runs with the two-layer
 model

---
 src/ciceroscm/ciceroscm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/ciceroscm.py b/src/ciceroscm/ciceroscm.py
index fa4b74d..1c9ce2b 100644
--- a/src/ciceroscm/ciceroscm.py
+++ b/src/ciceroscm/ciceroscm.py
@@ -367,7 +367,8 @@ class CICEROSCM:
         list_rib = ["RIB_glob", "RIB_N", "RIB_S"]
         df_rib = pd.DataFrame(data={"Year": indices})
         for vari in list_rib:
-            df_rib[vari] = self.results[vari]
+            if vari in self.results:
+                df_rib[vari] = self.results[vari]
         list_temp = [
             "dT_glob",
             "dT_NH",
@@ -385,7 +386,8 @@ class CICEROSCM:
         else:
             filename_start = "output"
         for vari in list_temp:
-            df_temp[vari] = self.results[vari]
+            if vari in self.results:
+                df_temp[vari] = self.results[vari]
 
         df_ohc.to_csv(
             os.path.join(outdir, f"{filename_start}_ohc.txt"),
-- 
2.43.0

