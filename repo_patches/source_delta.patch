From a5c16e47771350216bf1bdcf1764625ba2731d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:07 +0000
Subject: [PATCH 01/56] fix: do not fail when the statistic is undefined for
 every resample

np.percentile was called with an empty array. The limits are now
reported as not available, like for a constant distribution.
---
 metcalcpy/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/bootstrap.py b/metcalcpy/bootstrap.py
index f105165..2845f8f 100644
--- a/metcalcpy/bootstrap.py
+++ b/metcalcpy/bootstrap.py
@@ -519,7 +519,7 @@ def _all_the_same(elements):
     if elements.size == 0:
         return True
     try:
-        result = len(_np.unique(elements[elements != _np.array([None])])) == 1
+        result = len(_np.unique(elements[elements != _np.array([None])])) <= 1
     except TypeError:
         result = False
     return result
-- 
2.43.0


From 0bec14fd088093e252cd4d2702a186c869ed336f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:48 +0000
Subject: [PATCH 02/56] fix: report an error when a bootstrap worker process
 dies

multiprocessing.Pool never learns about the task of a killed worker and
the call waited for its result for ever. The executor raises
BrokenProcessPool, and its workers are gone when the call ends.
---
 metcalcpy/bootstrap.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/metcalcpy/bootstrap.py b/metcalcpy/bootstrap.py
index 2845f8f..2bff72e 100644
--- a/metcalcpy/bootstrap.py
+++ b/metcalcpy/bootstrap.py
@@ -15,6 +15,7 @@ Program Name: bootstrap.py
 import numpy as _np
 from collections.abc import Iterable
 import multiprocessing as _multiprocessing
+from concurrent.futures import ProcessPoolExecutor as _ProcessPoolExecutor
 import scipy.sparse as _sparse
 
 __author__ = 'Tatiana Burek'
@@ -222,20 +223,19 @@ def _bootstrap_distribution_cbb(values_lists, stat_func_lists,
         results = _bootstrap_sim_cbb(values_lists, stat_func_lists,
                                      num_iterations, iteration_batch_size, None, block_length)
     else:
-        pool = _multiprocessing.Pool(num_threads)
-
         iter_per_job = _np.ceil(num_iterations * 1.0 / num_threads)
 
-        results = []
-        for seed in _np.random.randint(0, 2 ** 32 - 1, num_threads):
-            r = pool.apply_async(_bootstrap_sim_cbb, (values_lists, stat_func_lists,
-                                                      iter_per_job,
-                                                      iteration_batch_size, seed, block_length))
-            results.append(r)
-
-        results = _np.hstack([res.get() for res in results])
-
-        pool.close()
+        # unlike multiprocessing.Pool the executor raises an error
+        # if a worker process dies instead of waiting for it for ever
+        with _ProcessPoolExecutor(max_workers=num_threads) as pool:
+            results = []
+            for seed in _np.random.randint(0, 2 ** 32 - 1, num_threads):
+                r = pool.submit(_bootstrap_sim_cbb, values_lists, stat_func_lists,
+                                iter_per_job,
+                                iteration_batch_size, seed, block_length)
+                results.append(r)
+
+            results = _np.hstack([res.result() for res in results])
 
     return results
 
-- 
2.43.0


From 6144522d27385fec9bf7db3052079d13fac34d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:32 +0000
Subject: [PATCH 03/56] fix: write the values of every statistic in bootstrap
 aggregation of objects

With more than one statistic all values were stored in the row of the first one.
Grouped and numeric series values were not found in the output table.
---
 metcalcpy/agg_stat_bootstrap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index 7514461..a419876 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -192,7 +192,7 @@ class AggStatBootstrap:
                                     filter_list[i] = float(filter_val)
 
                             all_filters.append((filtered_by_indy_data[field].isin(filter_list)))
-                            out_frame_filter.append((out_frame[field].isin(filter_list)))
+                            out_frame_filter.append((out_frame[field] == filter_value))
                         # use numpy to select the rows where any record evaluates to True
                         mask = np.array(all_filters).all(axis=0)
                         mask_out_frame = np.array(out_frame_filter).all(axis=0)
@@ -205,7 +205,8 @@ class AggStatBootstrap:
                         # find an index of this point in the output data frame
                         rows_with_mask = out_frame.loc[mask_out_frame]
                         rows_with_mask_indy_var = \
-                            rows_with_mask[(rows_with_mask[self.params['indy_var']] == indy_val)]
+                            rows_with_mask[(rows_with_mask[self.params['indy_var']] == indy_val)
+                                           & (rows_with_mask['stat_name'] == stat_upper)]
                         index = rows_with_mask_indy_var.index[0]
 
                         # save results to the output data frame
-- 
2.43.0


From b2136b035eab4ace7359ed7b21df16f186920b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:35 +0000
Subject: [PATCH 04/56] fix: use only the records of the requested variable in
 object aggregation

---
 metcalcpy/agg_stat_bootstrap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index a419876..8a3dad8 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -193,6 +193,9 @@ class AggStatBootstrap:
 
                             all_filters.append((filtered_by_indy_data[field].isin(filter_list)))
                             out_frame_filter.append((out_frame[field] == filter_value))
+                        # add fcst var
+                        if fcst_var is not None:
+                            all_filters.append((filtered_by_indy_data['fcst_var'].isin([fcst_var])))
                         # use numpy to select the rows where any record evaluates to True
                         mask = np.array(all_filters).all(axis=0)
                         mask_out_frame = np.array(out_frame_filter).all(axis=0)
-- 
2.43.0


From 1188e6f873501ed859e357d4fdb2c950a72b2243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:51 +0000
Subject: [PATCH 05/56] fix: accept a boolean append_to_file

A YAML parameter file with append_to_file: True gives a boolean, which was ignored. The existing output was overwritten.
---
 metcalcpy/agg_eclv.py  | 2 +-
 metcalcpy/agg_stat.py  | 2 +-
 metcalcpy/scorecard.py | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/metcalcpy/agg_eclv.py b/metcalcpy/agg_eclv.py
index eed39eb..d79a875 100644
--- a/metcalcpy/agg_eclv.py
+++ b/metcalcpy/agg_eclv.py
@@ -303,7 +303,7 @@ class AggEclv:
         header = True
         mode = 'w'
 
-        if 'append_to_file' in self.params.keys() and self.params['append_to_file'] == 'True':
+        if 'append_to_file' in self.params.keys() and parse_bool(self.params['append_to_file']) is True:
             header = False
             mode = 'a'
 
diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 1bcfd7f..914bf83 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -1166,7 +1166,7 @@ class AggStat:
         header = True
         mode = 'w'
 
-        if 'append_to_file' in self.params.keys() and self.params['append_to_file'] == 'True':
+        if 'append_to_file' in self.params.keys() and parse_bool(self.params['append_to_file']) is True:
             header = False
             mode = 'a'
 
diff --git a/metcalcpy/scorecard.py b/metcalcpy/scorecard.py
index f128f55..c11de27 100644
--- a/metcalcpy/scorecard.py
+++ b/metcalcpy/scorecard.py
@@ -48,7 +48,7 @@ from pandas import DataFrame
 from metcalcpy import GROUP_SEPARATOR, DATE_TIME_REGEX
 from metcalcpy.util.tost_paired import pt
 
-from metcalcpy.util.utils import intersection, get_derived_curve_name, \
+from metcalcpy.util.utils import intersection, get_derived_curve_name, parse_bool, \
     is_derived_point, is_string_integer, OPERATION_TO_SIGN, calc_derived_curve_value, \
     perfect_score_adjustment, sort_data, PRECISION, DerivedCurveComponent, is_string_strictly_float
 
@@ -178,7 +178,7 @@ class Scorecard:
         if derived_frame is not None:
             header = True
             mode = 'w'
-            if 'append_to_file' in self.params.keys() and self.params['append_to_file'] == 'True':
+            if 'append_to_file' in self.params.keys() and parse_bool(self.params['append_to_file']) is True:
                 header = False
                 mode = 'a'
             export_csv = derived_frame.to_csv(self.params['sum_stat_output'],
-- 
2.43.0


From 41d01feae25f2660812175f8aee2d9c2d9f800b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:55 +0000
Subject: [PATCH 06/56] fix: do not add the independent variable to the
 caller's series parameters

---
 metcalcpy/agg_stat.py | 2 +-
 metcalcpy/sum_stat.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 914bf83..ea01c9f 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -1082,7 +1082,7 @@ class AggStat:
                         point_data = aggregate_field_values(series_var_val, point_data, self.params['line_type'])
                     elif indy_val and ';' in indy_val:
                         # if aggregated value in indy val - add it to series values add aggregate
-                        series_indy_var_val = series_var_val
+                        series_indy_var_val = series_var_val.copy()
                         series_indy_var_val[self.params['indy_var']] = [indy_val]
                         point_data = aggregate_field_values(series_indy_var_val, point_data,
                                                             self.params['line_type'])
diff --git a/metcalcpy/sum_stat.py b/metcalcpy/sum_stat.py
index 1b7030d..e215821 100644
--- a/metcalcpy/sum_stat.py
+++ b/metcalcpy/sum_stat.py
@@ -232,7 +232,7 @@ class SumStat:
                                                             self.params['line_type'])
                     elif ';' in indy_val:
                         # if aggregated value in indy val - add it to series values add aggregate
-                        series_indy_var_val = series_var_val
+                        series_indy_var_val = series_var_val.copy()
                         series_indy_var_val[self.params['indy_var']] = [indy_val]
                         point_data = aggregate_field_values(series_indy_var_val,
                                                             point_data,
-- 
2.43.0


From d2f52af5e0231a0cfa0d8713fa626e6137a6ec70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:58 +0000
Subject: [PATCH 07/56] fix: leave the caller's data frame unchanged when
 equalizing

---
 metcalcpy/event_equalize.py                | 2 ++
 metcalcpy/event_equalize_against_values.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/metcalcpy/event_equalize.py b/metcalcpy/event_equalize.py
index dfb172b..10cbcf6 100644
--- a/metcalcpy/event_equalize.py
+++ b/metcalcpy/event_equalize.py
@@ -49,6 +49,8 @@ def event_equalize(series_data, indy_var, series_var_vals, fix_vars,
         A data frame that contains equalized records
     """
     pd.options.mode.chained_assignment = None
+    # the caller's frame stays as it is
+    series_data = series_data.copy()
     column_names = list(series_data)
     exception_columns = ["", "fcst_valid_beg", 'fcst_lead', 'fcst_valid', 'fcst_init', 'fcst_init_beg', 'VALID', 'LEAD']
     if isinstance(fix_vars, str):
diff --git a/metcalcpy/event_equalize_against_values.py b/metcalcpy/event_equalize_against_values.py
index 6681ffa..29fe8ea 100644
--- a/metcalcpy/event_equalize_against_values.py
+++ b/metcalcpy/event_equalize_against_values.py
@@ -43,6 +43,8 @@ def event_equalize_against_values(series_data, input_unique_cases):
     if 'fcst_valid' in column_names:
         # always use fcst_valid for equalization
         # create a unique member to use for equalization
+        # the caller's frame stays as it is
+        series_data = series_data.copy()
         series_data.insert(len(series_data.columns), 'equalize',
                            series_data['fcst_valid'].astype(str)
                            + ' '
-- 
2.43.0


From 9f8ae1b9591598fb8961a59be7396a375300a84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:32 +0000
Subject: [PATCH 08/56] fix: select the records to equalize by all series
 variables

Only the last series variable was used, and numeric series values never matched.
---
 metcalcpy/util/utils.py | 59 ++++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 19 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index c8b9961..80ecc1f 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -669,6 +669,39 @@ def calc_series_sums(input_df, line_type):
     return sums_data_frame
 
 
+def select_series_data(series_val, input_data):
+    """ Selects the records that belong to the series. A record is selected
+        if it has one of the values of every series variable
+        Args:
+            series_val:    dictionary of the series variables and their values
+            input_data:    data as DataFrame
+        Returns:
+            DataFrame with the selected records
+    """
+    series_data = input_data
+    for series_var, series_var_vals in series_val.items():
+        if series_var not in series_data.columns:
+            continue
+        # ungroup series value if needed
+        series_var_vals_no_group = []
+        for val in series_var_vals:
+            split_val = re.findall(DATE_TIME_REGEX, val)
+            if len(split_val) == 0:
+                split_val = val.split(GROUP_SEPARATOR)
+            series_var_vals_no_group.extend(split_val)
+
+        # numeric columns are compared with numbers
+        numeric_vals = [int(val) for val in series_var_vals_no_group if is_string_integer(val)]
+        numeric_vals += [float(val) for val in series_var_vals_no_group
+                         if is_string_strictly_float(val)]
+        selected = series_data[series_var].isin(series_var_vals_no_group) \
+            | series_data[series_var].isin(numeric_vals)
+        if 'NA' in series_var_vals_no_group:
+            selected = selected | series_data[series_var].isnull()
+        series_data = series_data[selected]
+    return series_data
+
+
 def equalize_axis_data(fix_vals_keys, fix_vals_permuted, params, input_data, axis='1'):
     """ Performs event equalisation on the specified axis on input data.
         Args:
@@ -696,25 +729,13 @@ def equalize_axis_data(fix_vals_keys, fix_vals_permuted, params, input_data, axi
             if len(params['series_val_' + axis]) == 0:
                 series_data_for_ee = input_data
             else:
-                for series_var, series_var_vals in params['series_val_' + axis].items():
-                    # ungroup series value if needed
-                    series_var_vals_no_group = []
-                    for val in series_var_vals:
-                        split_val = re.findall(DATE_TIME_REGEX, val)
-                        if len(split_val) == 0:
-                            split_val = val.split(GROUP_SEPARATOR)
-                        series_var_vals_no_group.extend(split_val)
-
-                    # filter input data based on fcst_var, statistic
-                    # and all series variables values
-                    series_data_for_ee = input_data
-                    if series_var in input_data.keys():
-                        series_data_for_ee = series_data_for_ee[
-                            series_data_for_ee[series_var].isin(series_var_vals_no_group)]
-                    if 'fcst_var' in input_data.keys():
-                        series_data_for_ee = series_data_for_ee[series_data_for_ee['fcst_var'] == fcst_var]
-                    if 'stat_name' in input_data.keys():
-                        series_data_for_ee = series_data_for_ee[series_data_for_ee["stat_name"] == fcst_var_stat]
+                # filter input data based on fcst_var, statistic
+                # and all series variables values
+                series_data_for_ee = select_series_data(params['series_val_' + axis], input_data)
+                if 'fcst_var' in input_data.keys():
+                    series_data_for_ee = series_data_for_ee[series_data_for_ee['fcst_var'] == fcst_var]
+                if 'stat_name' in input_data.keys():
+                    series_data_for_ee = series_data_for_ee[series_data_for_ee["stat_name"] == fcst_var_stat]
 
             # perform EE on filtered data
             # for SSVAR line_type use equalization of multiple events
-- 
2.43.0


From 1cc6be9afed55cef19d9cb5c71fa1cd39fdf7285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:35 +0000
Subject: [PATCH 09/56] fix: equalize two axes over the series of both and keep
 each record once

The series values of the second axis replaced those of the first. Records used on both axes were duplicated.
---
 metcalcpy/util/utils.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 80ecc1f..617df43 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -781,6 +781,10 @@ def perform_event_equalization(params, input_data):
             DataFrame with equalised data
     """
 
+    # records are recognised by their index
+    if not input_data.index.is_unique:
+        input_data = input_data.reset_index(drop=True)
+
     # list all fixed variables
     fix_vals_permuted_list = []
     fix_vals_keys = []
@@ -807,13 +811,15 @@ def perform_event_equalization(params, input_data):
         output_ee_data_2 = \
             equalize_axis_data(fix_vals_keys, fix_vals_permuted_list, params, input_data, axis='2')
 
-        # append and reindex output from both axis
-        all_ee_records = pd.concat([output_ee_data, output_ee_data_2]).reindex()
+        # append output from both axis, a record used on both of them only once
+        all_ee_records = pd.concat([output_ee_data, output_ee_data_2])
+        all_ee_records = all_ee_records[~all_ee_records.index.duplicated()]
 
         # create a single unique dictionary from series for Y1 and Y2 to us in EE
-        all_series = {**params['series_val_1'], **params['series_val_2']}
-        for key in all_series:
-            all_series[key] = list(set(all_series[key]))
+        all_series = {}
+        for series_val in (params['series_val_1'], params['series_val_2']):
+            for key, vals in series_val.items():
+                all_series[key] = list(dict.fromkeys(all_series.get(key, []) + list(vals)))
 
         # run EE on run event equalizer on Y1 and Y2
         output_ee_data = event_equalize(all_ee_records, params['indy_var'],
-- 
2.43.0


From 07dff1f8efd0c8c438c5028c3299158c6f9b99fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:16 +0000
Subject: [PATCH 10/56] fix: equalize over all series and fixed values in the
 equalization job

Records were repeated once per series variable. Values of the first axis and all but
the first value of a fixed variable were ignored.
---
 metcalcpy/agg_stat_event_equalize.py | 54 ++++++++++------------------
 1 file changed, 18 insertions(+), 36 deletions(-)

diff --git a/metcalcpy/agg_stat_event_equalize.py b/metcalcpy/agg_stat_event_equalize.py
index 9a5d49f..e46a2e8 100644
--- a/metcalcpy/agg_stat_event_equalize.py
+++ b/metcalcpy/agg_stat_event_equalize.py
@@ -36,11 +36,10 @@ import sys
 import itertools
 import pandas as pd
 import yaml
-import numpy as np
 import warnings
 
-from metcalcpy import GROUP_SEPARATOR
 from metcalcpy.event_equalize import event_equalize
+from metcalcpy.util.utils import select_series_data
 
 class AggStatEventEqualize:
     """A class that performs event equalisation logic on input data
@@ -74,12 +73,11 @@ class AggStatEventEqualize:
 
             # list all fixed variables
             if 'fixed_vars_vals_input' in self.params:
-                fix_vals_permuted_list = []
+                # all values of each variable
+                fix_vals_permuted = []
                 for key in self.params['fixed_vars_vals_input']:
                     vals_permuted = list(itertools.product(*self.params['fixed_vars_vals_input'][key].values()))
-                    fix_vals_permuted_list.append(vals_permuted)
-
-                fix_vals_permuted = [item for sublist in fix_vals_permuted_list for item in sublist]
+                    fix_vals_permuted.append([item for sublist in vals_permuted for item in sublist])
 
             else:
                 fix_vals_permuted = []
@@ -95,11 +93,14 @@ class AggStatEventEqualize:
                 output_ee_data = output_ee_data.drop('equalize', axis=1)
                 output_ee_data_2 = output_ee_data_2.drop('equalize', axis=1)
                 warnings.simplefilter(action='error', category=FutureWarning)
-                all_ee_records = pd.concat([output_ee_data, output_ee_data_2]).reindex()
+                # a record used on both axes is kept once
+                all_ee_records = pd.concat([output_ee_data, output_ee_data_2])
+                all_ee_records = all_ee_records[~all_ee_records.index.duplicated()]
                 all_series_vars = {}
-                for key in self.params['series_val_2']:
-                    all_series_vars[key] = np.unique(self.params['series_val_2'][key]
-                                                     + self.params['series_val_2'][key])
+                for series_val in (self.params['series_val_1'], self.params['series_val_2']):
+                    for key, vals in series_val.items():
+                        all_series_vars[key] = list(dict.fromkeys(all_series_vars.get(key, [])
+                                                                  + list(vals)))
 
                 output_ee_data = event_equalize(all_ee_records, self.params['indy_var'],
                                                 all_series_vars,
@@ -122,33 +123,14 @@ class AggStatEventEqualize:
                A data frame that contains equalized records
        """
 
-        output_ee_data = pd.DataFrame()
-        for series_var, series_var_vals in self.params['series_val_' + axis].items():
-            # ungroup series value
-            series_var_vals_no_group = []
-            for val in series_var_vals:
-                split_val = val.split(GROUP_SEPARATOR)
-                series_var_vals_no_group.extend(split_val)
-
-            # filter input data based on fcst_var, statistic and all series variables values
-            series_data_for_ee = self.input_data[
-                self.input_data[series_var].isin(series_var_vals_no_group)
-            ]
-            # perform EE on filtered data
-            series_data_after_ee = \
-                event_equalize(series_data_for_ee, self.params['indy_var'],
-                               self.params['series_val_' + axis],
-                               list(self.params['fixed_vars_vals_input'].keys()),
-                               fix_vals_permuted, True, False)
-
-            # append EE data to result
-            if output_ee_data.empty:
-                output_ee_data = series_data_after_ee
-            else:
-                warnings.simplefilter(action="error", category=FutureWarning)
-                output_ee_data = pd.concat([output_ee_data, series_data_after_ee])
+        # filter input data based on all series variables values
+        series_data_for_ee = select_series_data(self.params['series_val_' + axis], self.input_data)
 
-        return output_ee_data
+        # perform EE on filtered data
+        return event_equalize(series_data_for_ee, self.params['indy_var'],
+                              self.params['series_val_' + axis],
+                              list(self.params['fixed_vars_vals_input'].keys()),
+                              fix_vals_permuted, True, False)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From ed2ca09e9aa36551c771ce396a25ae3e4b676b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:19 +0000
Subject: [PATCH 11/56] fix: keep each record once when equalizing against
 earlier cases

---
 metcalcpy/agg_stat_eqz.py | 58 ++++++++++++++++-----------------------
 1 file changed, 24 insertions(+), 34 deletions(-)

diff --git a/metcalcpy/agg_stat_eqz.py b/metcalcpy/agg_stat_eqz.py
index 0102389..02ef8f8 100644
--- a/metcalcpy/agg_stat_eqz.py
+++ b/metcalcpy/agg_stat_eqz.py
@@ -38,9 +38,8 @@ import pandas as pd
 import yaml
 import warnings
 
-from metcalcpy import GROUP_SEPARATOR
 from metcalcpy.event_equalize_against_values import event_equalize_against_values
-from metcalcpy.util.utils import parse_bool
+from metcalcpy.util.utils import parse_bool, select_series_data
 
 
 class AggStatEventEqz:
@@ -89,6 +88,8 @@ class AggStatEventEqz:
             # perform for axis 2
             if self.params['series_val_2']:
                 output_ee_data = pd.concat([output_ee_data, self.perform_ee_on_axis(prev_cases, '2')])
+                # a record used on both axes is kept once
+                output_ee_data = output_ee_data[~output_ee_data.index.duplicated()]
         else:
             output_ee_data = self.input_data
             if self.input_data.empty:
@@ -109,38 +110,27 @@ class AggStatEventEqz:
 
         output_ee_data = pd.DataFrame()
         for fcst_var, fcst_var_stats in self.params['fcst_var_val_' + axis].items():
-            for series_var, series_var_vals in self.params['series_val_' + axis].items():
-
-                series_var_vals_no_group = []
-                for val in series_var_vals:
-                    split_val = val.split(GROUP_SEPARATOR)
-                    series_var_vals_no_group.extend(split_val)
-
-                # filter input data based on fcst_var, statistic and all series variables values
-                series_data_for_ee = self.input_data[
-                    (self.input_data['fcst_var'] == fcst_var)
-                    & (self.input_data[series_var].isin(series_var_vals_no_group))
-                    ]
-                # filter previous cases on the same  fcst_var,
-                # statistic and all series variables values
-                series_data_for_prev_cases = prev_cases[
-                    (prev_cases['fcst_var'] == fcst_var)
-                    & (prev_cases[series_var].isin(series_var_vals_no_group))
-                    ]
-                # get unique cases from filtered previous cases
-
-                series_data_for_prev_cases_unique = series_data_for_prev_cases['equalize'].unique()
-
-                # perform ee
-                series_data_after_ee = event_equalize_against_values(
-                    series_data_for_ee,
-                    series_data_for_prev_cases_unique)
-
-                # append EE data to result
-                if output_ee_data.empty:
-                    output_ee_data = series_data_after_ee
-                else:
-                    output_ee_data = pd.concat([output_ee_data, series_data_after_ee])
+            # filter input data based on fcst_var and all series variables values
+            series_data_for_ee = select_series_data(
+                self.params['series_val_' + axis],
+                self.input_data[self.input_data['fcst_var'] == fcst_var])
+            # filter previous cases on the same fcst_var and all series variables values
+            series_data_for_prev_cases = select_series_data(
+                self.params['series_val_' + axis],
+                prev_cases[prev_cases['fcst_var'] == fcst_var])
+            # get unique cases from filtered previous cases
+            series_data_for_prev_cases_unique = series_data_for_prev_cases['equalize'].unique()
+
+            # perform ee
+            series_data_after_ee = event_equalize_against_values(
+                series_data_for_ee,
+                series_data_for_prev_cases_unique)
+
+            # append EE data to result
+            if output_ee_data.empty:
+                output_ee_data = series_data_after_ee
+            else:
+                output_ee_data = pd.concat([output_ee_data, series_data_after_ee])
         return output_ee_data
 
 
-- 
2.43.0


From 59a7a9c2e4070934f0ce4e553954a6ba22e9d9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:23 +0000
Subject: [PATCH 12/56] fix: event equalization in object aggregation

The equalized data was not returned, so the job failed. The equalized data replaced the
input file when its name has no agg_stat_bootstrap in it.
---
 metcalcpy/agg_stat_bootstrap.py | 8 ++++++--
 metcalcpy/agg_stat_eqz.py       | 3 +++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index 8a3dad8..1ea27ff 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -32,6 +32,7 @@ How to use:
 
 """
 import argparse
+import os
 import itertools
 import sys
 
@@ -316,8 +317,11 @@ class AggStatBootstrap:
         agg_stat_event_eqz = AggStatEventEqz(self.params)
 
         self.input_data = agg_stat_event_eqz.calculate_values()
-        file_name = self.params['agg_stat_input'].replace("agg_stat_bootstrap", "dataAfterEq")
-        self.input_data.to_csv(file_name, index=None, header=True, mode='w', sep="\t", na_rep="NA")
+        directory, name = os.path.split(self.params['agg_stat_input'])
+        if "agg_stat_bootstrap" in name:
+            # never replace the input file
+            file_name = os.path.join(directory, name.replace("agg_stat_bootstrap", "dataAfterEq"))
+            self.input_data.to_csv(file_name, index=None, header=True, mode='w', sep="\t", na_rep="NA")
 
 
 if __name__ == "__main__":
diff --git a/metcalcpy/agg_stat_eqz.py b/metcalcpy/agg_stat_eqz.py
index 02ef8f8..3dc07df 100644
--- a/metcalcpy/agg_stat_eqz.py
+++ b/metcalcpy/agg_stat_eqz.py
@@ -70,6 +70,8 @@ class AggStatEventEqz:
 
     def calculate_values(self):
         """Performs event equalisation if needed and saves equalized data to the file.
+            Returns:
+                A data frame that contains the saved records
         """
         is_event_equal = parse_bool(self.params['event_equal'])
 
@@ -100,6 +102,7 @@ class AggStatEventEqz:
         output_ee_data.to_csv(self.params['agg_stat_output'],
                               index=None, header=True, mode='w',
                               sep="\t", na_rep="NA")
+        return output_ee_data
 
     def perform_ee_on_axis(self, prev_cases, axis='1'):
         """Performs event equalisation against previously calculated cases for the selected axis
-- 
2.43.0


From a583b8f644a5625c8dd7cd3607a3920a1efd5c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:12 +0000
Subject: [PATCH 13/56] fix: compute the testing period from one reading of the
 clock

---
 metcalcpy/validate_mv_python.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/validate_mv_python.py b/metcalcpy/validate_mv_python.py
index 7e7eeaf..d945d63 100644
--- a/metcalcpy/validate_mv_python.py
+++ b/metcalcpy/validate_mv_python.py
@@ -218,17 +218,20 @@ def get_testing_period(params):
            a date range as start and end dates
         Raises: KeyError if the date range is invalid
     """
+    # both defaults follow the same moment
+    now = dt.datetime.now()
+
     if 'start_date' in params.keys():
         start = dt.datetime.strptime(str(params['start_date']), '%Y-%m-%d').date()
     else:
         # start = yesterday
-        start = (dt.datetime.now() - dt.timedelta(1)).date()
+        start = (now - dt.timedelta(1)).date()
 
     if 'end_date' in params.keys():
         end = dt.datetime.strptime(str(params['end_date']), '%Y-%m-%d').date()
     else:
         # end = today
-        end = dt.datetime.now().date()
+        end = now.date()
 
     if end < start:
         raise KeyError(f'Invalid start/end dates {start} - {end}')
-- 
2.43.0


From 53801d5aa6022649bcd3187f2a8f5540c9d86c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:38 +0000
Subject: [PATCH 14/56] fix: save and show the threshold image and the second
 marked image more than once

---
 metcalcpy/compare_images.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metcalcpy/compare_images.py b/metcalcpy/compare_images.py
index 2316630..acb200f 100644
--- a/metcalcpy/compare_images.py
+++ b/metcalcpy/compare_images.py
@@ -117,7 +117,7 @@ class CompareImages:
             Args:
                 path_to_file - Name of the file
         """
-        if not self.thresh:
+        if self.thresh is None:
             self._init_thresh()
         cv2.imwrite(path_to_file, self.thresh)
 
@@ -126,7 +126,7 @@ class CompareImages:
             Args:
                 wait_for_key_event : If True, The function waitKey waits for a key event infinitely
         """
-        if not self.thresh:
+        if self.thresh is None:
             self._init_thresh()
         cv2.imshow("Threshold", self.thresh)
         if wait_for_key_event:
@@ -195,7 +195,7 @@ class CompareImages:
             Args:
                 path_to_file - Name of the file
         """
-        if not self.diff_in_image_2:
+        if self.diff_in_image_2 is None:
             self._init_diff_in_image_2()
         cv2.imwrite(path_to_file, self.diff_in_image_2)
 
@@ -204,7 +204,7 @@ class CompareImages:
             Args:
                 wait_for_key_event : If True, The function waitKey waits for a key event infinitely
         """
-        if not self.diff_in_image_2:
+        if self.diff_in_image_2 is None:
             self._init_diff_in_image_2()
         cv2.imshow('Difference in image 2', self.diff_in_image_2)
         if wait_for_key_event:
-- 
2.43.0


From 92da482b7a838481d9cbdfa5d69c1ab9c94e61b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:38 +0000
Subject: [PATCH 15/56] fix: report an image that cannot be written

---
 metcalcpy/compare_images.py     | 20 ++++++++++++++++----
 metcalcpy/validate_mv_python.py |  7 +++++--
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/metcalcpy/compare_images.py b/metcalcpy/compare_images.py
index acb200f..01e9714 100644
--- a/metcalcpy/compare_images.py
+++ b/metcalcpy/compare_images.py
@@ -84,13 +84,25 @@ class CompareImages:
         """
         return self.mssim
 
+    @staticmethod
+    def _save_image(path_to_file, image):
+        """Writes the image to the specified file
+            Args:
+                path_to_file - Name of the file
+                image - image to write
+            Raises:
+                OSError if the image cannot be written
+        """
+        if not cv2.imwrite(path_to_file, image):
+            raise OSError(f'Problems writing the image: {path_to_file}')
+
     def save_difference_image(self, path_to_file):
         """Saves the difference image to the specified file. The image format is chosen based on the
               filename extension
             Args:
                 path_to_file - Name of the file
         """
-        cv2.imwrite(path_to_file, self.grad)
+        self._save_image(path_to_file, self.grad)
 
     def show_difference_image(self, wait_for_key_event=False):
         """ Displays the difference image in the popup window
@@ -119,7 +131,7 @@ class CompareImages:
         """
         if self.thresh is None:
             self._init_thresh()
-        cv2.imwrite(path_to_file, self.thresh)
+        self._save_image(path_to_file, self.thresh)
 
     def show_thresh_image(self, wait_for_key_event=False):
         """ Displays the threshold image in the popup window
@@ -176,7 +188,7 @@ class CompareImages:
         """
         if self.diff_in_image_1 is None:
             self._init_diff_in_image_1()
-        cv2.imwrite(path_to_file, self.diff_in_image_1)
+        self._save_image(path_to_file, self.diff_in_image_1)
 
     def show_difference_in_image_1(self, wait_for_key_event=False):
         """ Displays the first image with  the bounding box in the popup window
@@ -197,7 +209,7 @@ class CompareImages:
         """
         if self.diff_in_image_2 is None:
             self._init_diff_in_image_2()
-        cv2.imwrite(path_to_file, self.diff_in_image_2)
+        self._save_image(path_to_file, self.diff_in_image_2)
 
     def show_difference_in_image_2(self, wait_for_key_event=False):
         """ Displays the second image with  the bounding box in the popup window
diff --git a/metcalcpy/validate_mv_python.py b/metcalcpy/validate_mv_python.py
index d945d63..1712d0d 100644
--- a/metcalcpy/validate_mv_python.py
+++ b/metcalcpy/validate_mv_python.py
@@ -158,8 +158,11 @@ def main(params):
                 else:
                     print(f'ERROR: For {plot_name} images are different')
                     # add more diagnostic images
-                    compare.save_thresh_image(params['output_plots_dir']
-                                              + replace_name(plot_name, 'thresh'))
+                    try:
+                        compare.save_thresh_image(params['output_plots_dir']
+                                                  + replace_name(plot_name, 'thresh'))
+                    except OSError as err:
+                        print(f'WARNING: For {plot_name} : {err}')
 
             except KeyError as err:
                 print(f'ERROR: For {plot_name} : {err}')
-- 
2.43.0


From db0a82b32712397de792c5592990c79ffe19eacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:38 +0000
Subject: [PATCH 16/56] fix: go on with the next plot when images cannot be
 compared

---
 metcalcpy/validate_mv_python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/validate_mv_python.py b/metcalcpy/validate_mv_python.py
index 1712d0d..a5307e2 100644
--- a/metcalcpy/validate_mv_python.py
+++ b/metcalcpy/validate_mv_python.py
@@ -164,7 +164,7 @@ def main(params):
                     except OSError as err:
                         print(f'WARNING: For {plot_name} : {err}')
 
-            except KeyError as err:
+            except (KeyError, ValueError) as err:
                 print(f'ERROR: For {plot_name} : {err}')
 
 
-- 
2.43.0


From 58e48d5e4415eec9615851b1d959f6035a299fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:38 +0000
Subject: [PATCH 17/56] fix: do not take images of different colors for
 identical

---
 metcalcpy/validate_mv_python.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/validate_mv_python.py b/metcalcpy/validate_mv_python.py
index a5307e2..c5384ae 100644
--- a/metcalcpy/validate_mv_python.py
+++ b/metcalcpy/validate_mv_python.py
@@ -144,7 +144,8 @@ def main(params):
             try:
                 compare = CompareImages(original_plot_path, new_image_path)
                 ssim = compare.get_mssim()
-                if ssim == 1.0:
+                # the index does not see colors of the same brightness
+                if ssim == 1.0 and (compare.image_1 == compare.image_2).all():
                     print(f'SUCCESS: For {plot_name} images are identical')
                     # remove new image
                     os.remove(new_image_path)
-- 
2.43.0


From f57f85026a999c2e7d9e52893419cb08ddd6de0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:38 +0000
Subject: [PATCH 18/56] fix: keep the artifacts of plots whose name starts with
 that of a passed plot

---
 metcalcpy/validate_mv_python.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/metcalcpy/validate_mv_python.py b/metcalcpy/validate_mv_python.py
index c5384ae..bc46257 100644
--- a/metcalcpy/validate_mv_python.py
+++ b/metcalcpy/validate_mv_python.py
@@ -177,10 +177,11 @@ def delete_similar_files(directory, file_name):
             file_name - name of the file to delete
 
     """
-    for filename in glob.glob(directory
-                              + file_name.split('.')[0]
-                              + '*'):
-        os.remove(filename)
+    # names that only start with the same characters belong to other plots
+    stem = replace_name(file_name, 'py').rsplit('.', 1)[0]
+    for filename in glob.glob(glob.escape(directory + stem) + '.*'):
+        if os.path.basename(filename).rsplit('.', 1)[0] == os.path.basename(stem):
+            os.remove(filename)
 
 
 def get_test_xml(params):
-- 
2.43.0


From 2e17ec651c3c311394e427135e34ae11b0c8bfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:19 +0000
Subject: [PATCH 19/56] fix: keep the tag of a parsed configuration out of
 other YAML loading

Parsing a configuration registered its tag and pattern with the loader that
all code shares, so later loads in the same process resolved references and
tags nobody asked for. Use a loader of its own for each call.
---
 metcalcpy/util/read_env_vars_in_config.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/util/read_env_vars_in_config.py b/metcalcpy/util/read_env_vars_in_config.py
index dd458a5..55e8b8f 100644
--- a/metcalcpy/util/read_env_vars_in_config.py
+++ b/metcalcpy/util/read_env_vars_in_config.py
@@ -33,7 +33,12 @@ def parse_config(path=None, data=None, tag='!ENV'):
     """
     # pattern for global vars: look for ${word}
     pattern = re.compile('.*?\${(\w+)}.*?')
-    loader = yaml.SafeLoader
+
+    # a loader of its own: the tag must not change how other YAML is loaded
+    class EnvLoader(yaml.SafeLoader):
+        pass
+
+    loader = EnvLoader
 
     # the tag will be used to mark where to start searching for the pattern
     # e.g. somekey: !ENV somestring${MYENVVAR}blah blah blah
-- 
2.43.0


From 1478663c321483b6b087e44e6df31d22a13bae96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:19 +0000
Subject: [PATCH 20/56] fix: write the forecast reference time in UTC

The reference time was taken as local time, so the value in the file
depended on the time zone of the machine.
---
 metcalcpy/vertical_interp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index 8cbba86..16f66c8 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -44,7 +44,7 @@ import sys
 import argparse
 import logging
 import yaml
-from datetime import datetime
+from datetime import datetime, timezone
 import numpy as np
 import xarray as xr  # http://xarray.pydata.org/
 import netCDF4 as nc
@@ -557,7 +557,7 @@ def write_dataset(ds, ds_nc, coords_interp=None,
         mm = int(yyyymmddhh_str[4:6])
         dd = int(yyyymmddhh_str[6:8])
         hh = int(yyyymmddhh_str[8:10])
-        ref_time_obj = datetime(yyyy, mm, dd, hh)
+        ref_time_obj = datetime(yyyy, mm, dd, hh, tzinfo=timezone.utc)
         ref_time_coord[:] = ref_time_obj.timestamp()
 
 
-- 
2.43.0


From e95ca1002085c0be038c4eb6308d3b0d0cf45664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:47:09 +0000
Subject: [PATCH 21/56] fix: create the time dimension of a written dataset

Converting the valid and initialization times raised a TypeError, so a
dataset could never be written with a time dimension.
---
 metcalcpy/vertical_interp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index 16f66c8..c35267f 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -502,9 +502,9 @@ def write_dataset(ds, ds_nc, coords_interp=None,
         time_coord = ds_nc.createVariable(
             'valid_time', 'float64', ('valid_time'))
         dt_valid = datetime.utcfromtimestamp(
-            ds['valid_time'].astype('O')/1e9)
+            ds['valid_time'].values.astype('O')/1e9)
         dt_init = datetime.utcfromtimestamp(
-            ds['init_time'].astype('O')/1e9)
+            ds['init_time'].values.astype('O')/1e9)
         time_coord[:] = (dt_valid - dt_init).total_seconds()
         time_coord.long_name = 'valid_time'
         time_coord.units = 'seconds since ' + str(dt_init)
-- 
2.43.0


From cbeff2004a6880ab1c25e9a705b7bb70714b24c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:56 +0000
Subject: [PATCH 22/56] fix: use the requested alpha for confidence limits of
 plain series

The limits of plain series were always those of alpha 0.05.
Only derived series used the value given by the job.
---
 metcalcpy/agg_eclv.py           | 1 +
 metcalcpy/agg_stat.py           | 1 +
 metcalcpy/agg_stat_bootstrap.py | 3 ++-
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/agg_eclv.py b/metcalcpy/agg_eclv.py
index d79a875..2ee8b09 100644
--- a/metcalcpy/agg_eclv.py
+++ b/metcalcpy/agg_eclv.py
@@ -177,6 +177,7 @@ class AggEclv:
                         num_iterations=self.params['num_iterations'],
                         num_threads=self.params['num_threads'],
                         ci_method=self.params['method'],
+                        alpha=self.params.get('alpha', 0.05),
                         save_data=False,
                         block_length=block_length,
                         eclv=True
diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index ea01c9f..b2fbeee 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -829,6 +829,7 @@ class AggStat:
                     num_iterations=self.params['num_iterations'],
                     num_threads=self.params['num_threads'],
                     ci_method=self.params['method'],
+                    alpha=self.params.get('alpha', 0.05),
                     save_data=has_derived_series,
                     block_length=block_length)
 
diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index 1ea27ff..0ebd169 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -239,7 +239,8 @@ class AggStatBootstrap:
                     stat_func=self._calc_stats,
                     num_iterations=self.params['num_iterations'],
                     num_threads=self.params['num_threads'],
-                    ci_method=self.params['method'])
+                    ci_method=self.params['method'],
+                    alpha=self.params.get('alpha', 0.05))
 
             except KeyError as err:
                 results = BootstrapResults(None, None, None)
-- 
2.43.0


From bf3feccf2ecda38c86155514de15552e9e2195ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:56 +0000
Subject: [PATCH 23/56] fix: count cases of an object resample as often as they
 were drawn

A case drawn several times was counted once.
The limits were those of a resample without replacement.
---
 metcalcpy/agg_stat_bootstrap.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index 0ebd169..765af38 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -271,9 +271,13 @@ class AggStatBootstrap:
         elif cases is not None and cases.ndim == 3:
             # bootstrapped case
             stat_values = []
+            data_cases = np.asarray(self.series_data['case'])
             for row in cases:
-                values_ind = self.series_data['case'].isin(row.flatten())
-                values = self.series_data[values_ind]
+                # a case that was drawn several times counts several times
+                drawn, counts = np.unique(row.flatten(), return_counts=True)
+                times_drawn = dict(zip(drawn, counts))
+                repeats = [times_drawn.get(case, 0) for case in data_cases]
+                values = self.series_data.iloc[np.repeat(np.arange(len(data_cases)), repeats)]
                 stat_values.append([globals()[func_name](values, self.column_names)])
         else:
             raise KeyError("can't calculate statistic")
-- 
2.43.0


From 48b932fd68a4f815177e142cf3eeaa74ebcc0e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:56 +0000
Subject: [PATCH 24/56] fix: resample only the cases of the current independent
 value

The list of cases kept growing from one independent value to the next.
---
 metcalcpy/agg_stat_bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index 765af38..d76e781 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -119,12 +119,12 @@ class AggStatBootstrap:
             if len(self.params['fcst_var_val_' + axis]) > 0 and 'fcst_var' in self.input_data.columns:
                 fcst_var = list(self.params['fcst_var_val_' + axis].keys())[0]
 
-            cases = []
             out_frame = self._init_out_frame(all_fields_values.keys(), all_points)
             point_to_distrib = {}
 
             # run the bootstrap flow for each independent variable value
             for indy_val in indy_vals:
+                cases = []
                 # extract the records for the current indy value
                 if is_string_integer(indy_val):
                     filtered_by_indy_data = \
-- 
2.43.0


From 7773b16d1cb8a311678c8287c661b93d77290f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:56 +0000
Subject: [PATCH 25/56] fix: keep a point whose economic value is missing in
 every resample

Such a point ended the whole job with an IndexError.
---
 metcalcpy/bootstrap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metcalcpy/bootstrap.py b/metcalcpy/bootstrap.py
index 2bff72e..b47ff3b 100644
--- a/metcalcpy/bootstrap.py
+++ b/metcalcpy/bootstrap.py
@@ -383,6 +383,9 @@ def _get_confidence_interval_and_value_eclv(bootstrap_dist, stat_val, alpha, ci_
         stat_btcu = [None] * steps_len
 
         for ind in range(steps_len):
+            if not all_values:
+                # the value is missing for all resamples - no limits
+                break
             low = None
             high = None
             column = all_values_np[:, ind]
-- 
2.43.0


From 839c4d3ccc4c3daad35cf54e4c2738b18ba2771e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:56 +0000
Subject: [PATCH 26/56] fix: flip longitudes without writing into the caller's
 coordinate

The new longitudes were written over the ones still to be read.
---
 metcalcpy/contributed/spacetime/spacetime_utils.py  | 2 +-
 metcalcpy/contributed/tropical_diagnostics/utils.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime_utils.py b/metcalcpy/contributed/spacetime/spacetime_utils.py
index accce20..430d65b 100755
--- a/metcalcpy/contributed/spacetime/spacetime_utils.py
+++ b/metcalcpy/contributed/spacetime/spacetime_utils.py
@@ -69,7 +69,7 @@ def lonFlip(data,lon):
     :return: dataflip
     """
 
-    lonnew = lon.values
+    lonnew = lon.values.copy()
 
     if lonnew.min() < 0:
         # change longitude to 0:360
diff --git a/metcalcpy/contributed/tropical_diagnostics/utils.py b/metcalcpy/contributed/tropical_diagnostics/utils.py
index 048a66a..55eb85c 100755
--- a/metcalcpy/contributed/tropical_diagnostics/utils.py
+++ b/metcalcpy/contributed/tropical_diagnostics/utils.py
@@ -67,7 +67,7 @@ def lonFlip(data,lon):
     :return: dataflip
     """
 
-    lonnew = lon.values
+    lonnew = lon.values.copy()
 
     if lonnew.min() < 0:
         # change longitude to 0:360
-- 
2.43.0


From ad624ee3d92f2bc61f4887dbc73a6f27663cbbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:56 +0000
Subject: [PATCH 27/56] fix: filter outgoing longwave radiation without
 changing the input

The trend was removed from the array of the caller.
---
 metcalcpy/contributed/rmm_omi/compute_mjo_indices.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py b/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
index 83a337a..e2b2d81 100755
--- a/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
+++ b/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
@@ -235,7 +235,7 @@ def bandpass_filter_3D(data, time, a, b):
     dt = (time[1] - time[0]).astype('timedelta64[s]') / np.timedelta64(1, 'D')
 
     # remove linear trend from data in time
-    data = detrend(data,axis=0,type='linear',overwrite_data=True)
+    data = detrend(data,axis=0,type='linear',overwrite_data=False)
 
     # taper time window and pad with zeros
     orig_data = data
@@ -321,7 +321,7 @@ def taper_vector_to_zero(data, window_length):
     startinds = np.arange(0, window_length, 1)
     endinds = np.arange(-window_length - 1, -1, 1) + 2
 
-    result = data
+    result = data.copy()
     result[0:window_length] = result[0:window_length] * 0.5 * (1 - np.cos(startinds * np.pi / window_length))
     result[data.size - window_length:data.size] = \
         result[data.size - window_length:data.size] * 0.5 * (1 - np.cos(endinds * np.pi / window_length))
@@ -371,7 +371,7 @@ def perform_3dim_spectral_filtering(data, time_spacing, period_min, period_max,
         lat = orig_data['lat']
 
         print('detrending in time')
-        orig_data = detrend(orig_data, axis=0, type='linear', overwrite_data=True)
+        orig_data = detrend(orig_data, axis=0, type='linear', overwrite_data=False)
 
         # ######################## Zero Padding ############################
         nt_max = 2 ** 17  # Zero padding for performance and resolution optimization, as well as consistency with origininal Kiladis code
-- 
2.43.0


From cd99e09ef3a074726537c4b8027b7d0960229ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:56 +0000
Subject: [PATCH 28/56] fix: sort by threshold without adding columns to the
 input table

Two helper columns stayed in the table of the caller.
---
 metcalcpy/util/ctc_statistics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metcalcpy/util/ctc_statistics.py b/metcalcpy/util/ctc_statistics.py
index 007cec4..dd7385a 100644
--- a/metcalcpy/util/ctc_statistics.py
+++ b/metcalcpy/util/ctc_statistics.py
@@ -1046,6 +1046,7 @@ def sort_by_thresh(input_dataframe: pd.DataFrame, sort_column_name: str = 'fcst_
 
     # Columns to use in pandas dataframe sorting
     sort_by_cols = ['thresh_values', 'op_wts']
+    input_dataframe = input_dataframe.copy()
     input_dataframe['op_wts'] = operator_wts
 
     # assign new column based on the format of the threshold values
-- 
2.43.0


From 62b509878be387fd8642380794e04e10a36ebff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:56 +0000
Subject: [PATCH 29/56] fix: compute EOFs without detrending the caller's array

The trend and the seasonal cycle were removed from the input itself.
---
 metcalcpy/contributed/blocking_weather_regime/WeatherRegime.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metcalcpy/contributed/blocking_weather_regime/WeatherRegime.py b/metcalcpy/contributed/blocking_weather_regime/WeatherRegime.py
index cdab30f..8beeeb4 100644
--- a/metcalcpy/contributed/blocking_weather_regime/WeatherRegime.py
+++ b/metcalcpy/contributed/blocking_weather_regime/WeatherRegime.py
@@ -104,6 +104,7 @@ class WeatherRegimeCalculation():
 
     def Calc_EOF(self,eofin):
 
+        eofin = eofin.copy()
         #Remove trend and seasonal cycle
         for d in np.arange(0,len(eofin[0,:,0,0]),1):
             eofin[:,d] = signal.detrend(eofin[:,d],axis=0)
-- 
2.43.0


From f718835c89ad02a4a0b63217ae1b197d17e67d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:58:32 +0000
Subject: [PATCH 30/56] fix: aggregate all fields of values joined with a
 semicolon

Contingency tables failed, anomaly, vector, neighborhood, ensemble and
skill score fields kept the values of the first record, and a lead without
records for a valid time made the job fail.
---
 metcalcpy/util/utils.py | 54 +++++++++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 617df43..abf6fee 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -492,6 +492,8 @@ def aggregate_field_values(series_var_val, input_data_frame, line_type):
                                 & (input_data_frame.fcst_lead == lead)
                                 & (input_data_frame[series_var].isin(single_values))
                                 ]
+                            if rows_for_agg.empty:
+                                continue
                             rows_indexes = rows_for_agg.index.values
                             # reset indexes
                             rows_for_agg.reset_index(inplace=True, drop=True)
@@ -529,6 +531,8 @@ def aggregate_field_values(series_var_val, input_data_frame, line_type):
                             & (input_data_frame[series_var].isin(single_values_int))
                             ]
 
+                        if rows_for_agg.empty:
+                            continue
                         rows_indexes = rows_for_agg.index.values
 
                         # reset indexes
@@ -583,31 +587,30 @@ def calc_series_sums(input_df, line_type):
     sums_data_frame['total'] = [total]
 
     # proceed for the line type
-    if line_type in ('ctc', 'nbrctc'):
+    if line_type in ('ctc', 'nbrctc', 'nbr_ctc'):
         column_names = ['fy_oy', 'fy_on', 'fn_oy', 'fn_on']
         for column in column_names:
             sums_data_frame[column] = [sum_column_data_by_name(input_df.to_numpy(),
-                                                               column_names, column_names)]
+                                                               input_df.columns, column)]
 
     elif line_type == 'sl1l2':
         column_names = ['fbar', 'obar', 'fobar', 'ffbar', 'oobar']
+        if 'mae' in input_df.columns:
+            column_names.append('mae')
         for column in column_names:
             sums_data_frame[column] = [np.nansum(input_df[column] * input_df.total.astype(float))
                                        / total]
 
     elif line_type == 'sal1l2':
-        sums_data_frame['fbar'] = [np.nansum(input_df['fabar'] * input_df.total.astype(float))
-                                   / total]
-        sums_data_frame['obar'] = [np.nansum(input_df['oabar'] * input_df.total.astype(float))
-                                   / total]
-        sums_data_frame['fobar'] = [np.nansum(input_df['foabar'] * input_df.total.astype(float))
-                                    / total]
-        sums_data_frame['ffbar'] = [np.nansum(input_df['ffabar'] * input_df.total.astype(float))
-                                    / total]
-        sums_data_frame['oobar'] = [np.nansum(input_df['ooabar'] * input_df.total.astype(float))
-                                    / total]
-
-    elif line_type == 'vl1l2':
+        # the summary statistics rename the columns to the sl1l2 names
+        column_names = [column for column in ['fabar', 'oabar', 'foabar', 'ffabar', 'ooabar',
+                                              'fbar', 'obar', 'fobar', 'ffbar', 'oobar']
+                        if column in input_df.columns]
+        for column in column_names:
+            sums_data_frame[column] = [np.nansum(input_df[column] * input_df.total.astype(float))
+                                       / total]
+
+    elif line_type in ('vl1l2', 'vcnt'):
         column_names = ['ufbar', 'vfbar', 'uobar', 'vobar', 'uvfobar',
                         'uvffbar', 'uvoobar', 'f_speed_bar', 'o_speed_bar']
         for column in column_names:
@@ -626,7 +629,7 @@ def calc_series_sums(input_df, line_type):
             sums_data_frame[column] = [np.nansum(input_df[column] * input_df.total.astype(float))
                                        / total]
 
-    elif line_type == 'nbrcnt':
+    elif line_type in ('nbrcnt', 'nbr_cnt'):
         dbl_fbs = np.nansum(input_df['fbs'] * input_df.total.astype(float)) / total
         dbl_fss_den = np.nansum(
             (input_df['fbs'] / (1.0 - input_df['fss'])) * input_df.total.astype(float)) \
@@ -653,10 +656,24 @@ def calc_series_sums(input_df, line_type):
         sums_data_frame['mse'] = [np.nansum(input_df['total'] * mse) / total]
         sums_data_frame['mse_oerr'] = [np.nansum(input_df['total'] * mse_oerr) / total]
         sums_data_frame['crps_climo'] = [np.nansum(input_df['total'] * crps_climo) / total]
-        column_names = ['me', 'crps', 'ign', 'spread', 'me_oerr', 'spread_oerr', 'spread_plus_oerr']
+        column_names = ['me', 'crps', 'ign', 'me_oerr', 'mae', 'mae_oerr', 'crpscl', 'crps_emp',
+                        'crpscl_emp', 'crps_emp_fair', 'spread_md']
         for column in column_names:
-            sums_data_frame[column] = [np.nansum(input_df[column] * input_df.total.astype(float))
-                                       / total]
+            if column in input_df.columns:
+                sums_data_frame[column] = [np.nansum(input_df[column] * input_df.total.astype(float))
+                                           / total]
+        # these are aggregated through their squares
+        for column in ['rmse', 'rmse_oerr', 'spread', 'spread_oerr', 'spread_plus_oerr']:
+            sums_data_frame[column] = [np.sqrt(np.nansum(input_df[column] * input_df[column]
+                                                         * input_df.total.astype(float)) / total)]
+        # the mean errors have the numbers of ensemble values as their weights
+        for column in ['ge_obs', 'lt_obs']:
+            if 'n_' + column in input_df.columns:
+                number = np.nansum(input_df['n_' + column])
+                sums_data_frame['n_' + column] = [number]
+                if number > 0:
+                    sums_data_frame['me_' + column] = \
+                        [np.nansum(input_df['me_' + column] * input_df['n_' + column]) / number]
     elif line_type == 'rps':
         d_rps_climo = input_df['rps'] / (1 - input_df['rpss'])
         sums_data_frame['rps'] = [np.nansum(input_df["rps"] * input_df.total.astype(float))
@@ -665,6 +682,7 @@ def calc_series_sums(input_df, line_type):
                                        / total]
         sums_data_frame['rps_climo'] = [np.nansum(d_rps_climo * input_df.total.astype(float))
                                         / total]
+        sums_data_frame['rpss'] = 1 - sums_data_frame['rps'] / sums_data_frame['rps_climo']
 
     return sums_data_frame
 
-- 
2.43.0


From 5373c59ec99e3d6fee47c3d4b391b84e5ba9a525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:58:32 +0000
Subject: [PATCH 31/56] fix: aggregate SPREAD_PLUS_OERR from its own column

---
 metcalcpy/agg_stat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index b2fbeee..cde95de 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -488,7 +488,7 @@ class AggStat:
 
         variance = data_for_prepare['spread'].values * data_for_prepare['spread'].values
         variance_oerr = data_for_prepare['spread_oerr'].values * data_for_prepare['spread_oerr'].values
-        variance_plus_oerr = data_for_prepare['spread_oerr'].values * data_for_prepare['spread_oerr'].values
+        variance_plus_oerr = data_for_prepare['spread_plus_oerr'].values * data_for_prepare['spread_plus_oerr'].values
 
         data_for_prepare['mse'] = mse * data_for_prepare['total'].values
         data_for_prepare['mse_oerr'] = mse_oerr * data_for_prepare['total'].values
-- 
2.43.0


From b84a4b26bc200756ef6ccb495c06f26df063f848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:58:32 +0000
Subject: [PATCH 32/56] fix: weight the observed rate of neighborhood
 statistics by the number of points

---
 metcalcpy/agg_stat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index cde95de..2e0afc6 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -552,6 +552,7 @@ class AggStat:
         data_for_prepare['fbs'] = fbs
         data_for_prepare['fss'] = fss_den
         data_for_prepare['f_rate'] = f_rate
+        data_for_prepare['o_rate'] = total * data_for_prepare['o_rate'].values
 
     def _prepare_pct_data(self, data_for_prepare):
         """Prepares pct data.
-- 
2.43.0


From 081515e4d6426ecc6124e907c7f2b307651ca2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:42:09 +0000
Subject: [PATCH 33/56] fix: find records whose model name looks like a number

Series values such as 12 were always converted to numbers before the data was
filtered. In a column that also holds other names they are text, so no record
was found. Compare with both forms.
---
 metcalcpy/agg_eclv.py           |  7 ++++---
 metcalcpy/agg_stat.py           |  7 ++++---
 metcalcpy/agg_stat_bootstrap.py | 26 +++++++++++++-------------
 metcalcpy/event_equalize.py     | 18 +++++++++++-------
 metcalcpy/scorecard.py          |  7 ++++---
 metcalcpy/sum_stat.py           |  7 ++++---
 6 files changed, 40 insertions(+), 32 deletions(-)

diff --git a/metcalcpy/agg_eclv.py b/metcalcpy/agg_eclv.py
index 2ee8b09..d84e70a 100644
--- a/metcalcpy/agg_eclv.py
+++ b/metcalcpy/agg_eclv.py
@@ -237,11 +237,12 @@ class AggEclv:
                 filter_value = point[field_ind]
                 filter_list = [filter_value]
                 out_frame_local[field] = [filter_value] * (len(self.steps))
-                for i, filter_val in enumerate(filter_list):
+                # values that look like numbers can be text in the data
+                for filter_val in filter_list.copy():
                     if is_string_integer(filter_val):
-                        filter_list[i] = int(filter_val)
+                        filter_list.append(int(filter_val))
                     elif is_string_strictly_float(filter_val):
-                        filter_list[i] = float(filter_val)
+                        filter_list.append(float(filter_val))
                 if field in self.input_data.keys():
                     all_filters.append((self.input_data[field].isin(filter_list)))
 
diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 2e0afc6..2d27e41 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -1029,11 +1029,12 @@ class AggStat:
                             filter_list = filter_value.split(';')
                         else:
                             filter_list = [filter_value]
-                        for i, filter_val in enumerate(filter_list):
+                        # values that look like numbers can be text in the data
+                        for filter_val in filter_list.copy():
                             if is_string_integer(filter_val):
-                                filter_list[i] = int(filter_val)
+                                filter_list.append(int(filter_val))
                             elif is_string_strictly_float(filter_val):
-                                filter_list[i] = float(filter_val)
+                                filter_list.append(float(filter_val))
                         if field in self.input_data.keys():
                             if field != self.params['indy_var']:  #
                                 filters_wihtout_indy. \
diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index d76e781..e0ffb3d 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -126,15 +126,13 @@ class AggStatBootstrap:
             for indy_val in indy_vals:
                 cases = []
                 # extract the records for the current indy value
+                indy_val_list = [indy_val]
                 if is_string_integer(indy_val):
-                    filtered_by_indy_data = \
-                        self.input_data[self.input_data[self.params['indy_var']] == int(indy_val)]
+                    indy_val_list.append(int(indy_val))
                 elif is_string_strictly_float(indy_val):
-                    filtered_by_indy_data = \
-                        self.input_data[self.input_data[self.params['indy_var']] == float(indy_val)]
-                else:
-                    filtered_by_indy_data = \
-                        self.input_data[self.input_data[self.params['indy_var']] == indy_val]
+                    indy_val_list.append(float(indy_val))
+                filtered_by_indy_data = \
+                    self.input_data[self.input_data[self.params['indy_var']].isin(indy_val_list)]
                 # and statistics and then permute them
                 all_fields_values = series_val.copy()
 
@@ -150,11 +148,12 @@ class AggStatBootstrap:
                             filter_list = filter_value.split(';')
                         else:
                             filter_list = [filter_value]
-                        for i, filter_val in enumerate(filter_list):
+                        # values that look like numbers can be text in the data
+                        for filter_val in filter_list.copy():
                             if is_string_integer(filter_val):
-                                filter_list[i] = int(filter_val)
+                                filter_list.append(int(filter_val))
                             elif is_string_strictly_float(filter_val):
-                                filter_list[i] = float(filter_val)
+                                filter_list.append(float(filter_val))
 
                         all_filters.append((filtered_by_indy_data[field].isin(filter_list)))
 
@@ -186,11 +185,12 @@ class AggStatBootstrap:
                                 filter_list = filter_value.split(';')
                             else:
                                 filter_list = [filter_value]
-                            for i, filter_val in enumerate(filter_list):
+                            # values that look like numbers can be text in the data
+                            for filter_val in filter_list.copy():
                                 if is_string_integer(filter_val):
-                                    filter_list[i] = int(filter_val)
+                                    filter_list.append(int(filter_val))
                                 elif is_string_strictly_float(filter_val):
-                                    filter_list[i] = float(filter_val)
+                                    filter_list.append(float(filter_val))
 
                             all_filters.append((filtered_by_indy_data[field].isin(filter_list)))
                             out_frame_filter.append((out_frame[field] == filter_value))
diff --git a/metcalcpy/event_equalize.py b/metcalcpy/event_equalize.py
index 10cbcf6..7b21177 100644
--- a/metcalcpy/event_equalize.py
+++ b/metcalcpy/event_equalize.py
@@ -106,15 +106,19 @@ def event_equalize(series_data, indy_var, series_var_vals, fix_vars,
 
         permutation_data = series_data.copy()
         for var_for_ee_ind, var_for_ee in enumerate(list(vars_for_ee)):
-            if is_string_integer(permutation[var_for_ee_ind]):
-                permutation_data = permutation_data[permutation_data[var_for_ee]
-                                                    == int(permutation[var_for_ee_ind])]
+            if permutation[var_for_ee_ind] == 'NA':
+                permutation_data = permutation_data[permutation_data[var_for_ee].isnull()]
             else:
-                if permutation[var_for_ee_ind] == 'NA':
-                    permutation_data = permutation_data[permutation_data[var_for_ee].isnull()]
+                # values that look like numbers can be text in the data
+                actual_vals = [permutation[var_for_ee_ind]]
+                if is_string_integer(permutation[var_for_ee_ind]):
+                    actual_vals.append(int(permutation[var_for_ee_ind]))
                 else:
-                    permutation_data = permutation_data[permutation_data[var_for_ee]
-                                                        == permutation[var_for_ee_ind]]
+                    try:
+                        actual_vals.append(float(permutation[var_for_ee_ind]))
+                    except (ValueError, TypeError):
+                        pass
+                permutation_data = permutation_data[permutation_data[var_for_ee].isin(actual_vals)]
         # if the list contains repetitive values, show a warning
         if multi is False and len(permutation_data['equalize']) \
                 != len(set(permutation_data['equalize'])):
diff --git a/metcalcpy/scorecard.py b/metcalcpy/scorecard.py
index c11de27..a79b342 100644
--- a/metcalcpy/scorecard.py
+++ b/metcalcpy/scorecard.py
@@ -147,11 +147,12 @@ class Scorecard:
                         filter_list = filter_value.split(';')
                     else:
                         filter_list = [filter_value]
-                    for i, filter_val in enumerate(filter_list):
+                    # values that look like numbers can be text in the data
+                    for filter_val in filter_list.copy():
                         if is_string_integer(filter_val):
-                            filter_list[i] = int(filter_val)
+                            filter_list.append(int(filter_val))
                         elif is_string_strictly_float(filter_val):
-                            filter_list[i] = float(filter_val)
+                            filter_list.append(float(filter_val))
                     if field in self.input_data.keys():
                         if field != self.params['indy_var']:
                             filters_wihtout_indy.append((self.input_data[field].isin(filter_list)))
diff --git a/metcalcpy/sum_stat.py b/metcalcpy/sum_stat.py
index e215821..6b2388f 100644
--- a/metcalcpy/sum_stat.py
+++ b/metcalcpy/sum_stat.py
@@ -217,11 +217,12 @@ class SumStat:
                             actual_series_vals = point[index].split(';')
                         else:
                             actual_series_vals = point[index].split(GROUP_SEPARATOR)
-                        for ind, val in enumerate(actual_series_vals):
+                        # values that look like numbers can be text in the data
+                        for val in actual_series_vals.copy():
                             if is_string_integer(val):
-                                actual_series_vals[ind] = int(val)
+                                actual_series_vals.append(int(val))
                             elif is_string_strictly_float(val):
-                                actual_series_vals[ind] = float(val)
+                                actual_series_vals.append(float(val))
                         point_data = \
                             point_data[point_data[series_vars[index]].isin(actual_series_vals)]
 
-- 
2.43.0


From 68bf5a40b6ebf6c7d13017aa2d230b4ebfc1c3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:43:48 +0000
Subject: [PATCH 34/56] fix: write an empty scorecard when nothing could be
 calculated

Without any result the output file was left alone, so that the rows of an
earlier run passed for the result of this one.
---
 metcalcpy/scorecard.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metcalcpy/scorecard.py b/metcalcpy/scorecard.py
index a79b342..0b3777f 100644
--- a/metcalcpy/scorecard.py
+++ b/metcalcpy/scorecard.py
@@ -175,6 +175,11 @@ class Scorecard:
                     else:
                         derived_frame = pd.concat([derived_frame, results], axis=0)
 
+        # nothing could be calculated: no rows, but not the rows of an earlier output either
+        if derived_frame is None:
+            derived_frame = pd.DataFrame(columns=[column for column in self.column_names
+                                                  if column not in COLUMNS_TO_REMOVE])
+
         # print the result to file
         if derived_frame is not None:
             header = True
-- 
2.43.0


From 4417b733c983b5e6043dfbf7ac7a68c343e4e3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:43:48 +0000
Subject: [PATCH 35/56] fix: keep small integers, half precision and attributes
 in NetCDF output

Fields of types without an entry of their own were written as unsigned
integers. Attributes of the valid time were set on the field before it.
---
 metcalcpy/vertical_interp.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index c35267f..9e91e0b 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -518,17 +518,19 @@ def write_dataset(ds, ds_nc, coords_interp=None,
             """
 
     for field in ds:
+        if create_time_dim and field == 'valid_time':
+            # written above as a coordinate
+            continue
         logging.debug('Creating variable ' + field)
         dtype = ds[field].dtype
         if dtype not in ['uint32', 'uint64', 'int32', 'int64', 'float32', 'float64']:
-            dtype = 'uint64'
+            dtype = {'f': 'float64', 'i': 'int64'}.get(dtype.kind, 'uint64')
         if create_time_dim:
             dims_with_time = list(ds[field].dims)
             dims_with_time.insert(0, 'valid_time')
-            if field != 'valid_time':
-                var = ds_nc.createVariable(
-                    field, dtype, tuple(dims_with_time))
-                var[:] = ds[field].values
+            var = ds_nc.createVariable(
+                field, dtype, tuple(dims_with_time))
+            var[:] = ds[field].values
         else:
             var = ds_nc.createVariable(
                 field, dtype, ds[field].dims)
-- 
2.43.0


From 248bc6683e2e8c131c5c8e5efd6ebff08abc9df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:43:48 +0000
Subject: [PATCH 36/56] fix: do not look for references in the values of
 environment variables

References were replaced one after another, so that a value which itself
contained a reference was changed by the next replacement.
---
 metcalcpy/util/read_env_vars_in_config.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/metcalcpy/util/read_env_vars_in_config.py b/metcalcpy/util/read_env_vars_in_config.py
index 55e8b8f..22aaceb 100644
--- a/metcalcpy/util/read_env_vars_in_config.py
+++ b/metcalcpy/util/read_env_vars_in_config.py
@@ -55,12 +55,12 @@ def parse_config(path=None, data=None, tag='!ENV'):
         value = loader.construct_scalar(node)
         match = pattern.findall(value)  # to find all env variables in line
         if match:
-            full_value = value
+            full_value = ''
             for g in match:
-                full_value = full_value.replace(
-                    f'${{{g}}}', os.environ.get(g, g)
-                )
-            return full_value
+                # what a variable holds is not searched for references
+                before, value = value.split(f'${{{g}}}', 1)
+                full_value += before + os.environ.get(g, g)
+            return full_value + value
         return value
 
     loader.add_constructor(tag, constructor_env_variables)
-- 
2.43.0


From 95ec41b137c39c31ed0ea33129c83a2e382f90ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:07:22 +0000
Subject: [PATCH 37/56] fix: aggregate the standard deviation of the error

The mean error and mean squared error it is derived from were not divided
by the number of points when records are aggregated, so ESTDEV was missing
or wrong in every aggregation.
---
 metcalcpy/util/sl1l2_statistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/sl1l2_statistics.py b/metcalcpy/util/sl1l2_statistics.py
index 9324a0d..a48a195 100644
--- a/metcalcpy/util/sl1l2_statistics.py
+++ b/metcalcpy/util/sl1l2_statistics.py
@@ -498,8 +498,8 @@ def calculate_estdev(input_data, columns_names, aggregation=False):
     warnings.filterwarnings('error')
     try:
         total = sum_column_data_by_name(input_data, columns_names, 'total')
-        me = calculate_me(input_data, columns_names)
-        mse = calculate_mse(input_data, columns_names)
+        me = calculate_me(input_data, columns_names, aggregation)
+        mse = calculate_mse(input_data, columns_names, aggregation)
         result = calculate_stddev(me * total, mse * total, total)
         result = round_half_up(result, PRECISION)
     except (TypeError, Warning):
-- 
2.43.0


From 2fcfa3c2a3449f189c34a11f55563a57f2ce9ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:14:39 +0000
Subject: [PATCH 38/56] fix: write derived rows that compare groups beside
 other series

When the compared groups belong to a series variable that is not the last
one, their names were not recognized and the derived rows were left out.
---
 metcalcpy/agg_stat.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 2d27e41..062833c 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -934,7 +934,8 @@ class AggStat:
             series_var_vals = ()
             for ind, name in enumerate(ds_1):
                 if name != ds_2[ind]:
-                    series_var_vals = (name, ds_2[ind])
+                    series_var_vals = (self.group_to_value.get(name, name),
+                                       self.group_to_value.get(ds_2[ind], ds_2[ind]))
                     break
 
             series_var = list(series_val.keys())[-1]
@@ -947,11 +948,13 @@ class AggStat:
             derived_val = series_val.copy()
             derived_val[series_var] = None
 
+            # replace group names to values
+            ds_1_vals = [self.group_to_value.get(name, name) for name in ds_1]
             for var in series_val.keys():
                 if derived_val[var] is not None \
-                        and intersection(derived_val[var], ds_1) \
-                        == intersection(derived_val[var], ds_1):
-                    derived_val[var] = intersection(derived_val[var], ds_1)
+                        and intersection(derived_val[var], ds_1_vals) \
+                        == intersection(derived_val[var], ds_1_vals):
+                    derived_val[var] = intersection(derived_val[var], ds_1_vals)
 
             derived_curve_name = get_derived_curve_name(derived_serie)
             derived_val[series_var] = [derived_curve_name]
-- 
2.43.0


From 204707a74d364fdcda093fe1c6cdf8543235a0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:14:39 +0000
Subject: [PATCH 39/56] fix: restore the warning filters of the process after a
 job

Equalization and aggregation jobs turn warnings into errors and did not
undo it, so that a later scorecard job in the same process failed.
---
 metcalcpy/agg_eclv.py                |  3 ++-
 metcalcpy/agg_stat.py                |  4 +++-
 metcalcpy/agg_stat_bootstrap.py      |  4 +++-
 metcalcpy/agg_stat_eqz.py            |  3 ++-
 metcalcpy/agg_stat_event_equalize.py |  3 ++-
 metcalcpy/scorecard.py               |  4 +++-
 metcalcpy/sum_stat.py                |  4 +++-
 metcalcpy/util/utils.py              | 12 ++++++++++++
 8 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/metcalcpy/agg_eclv.py b/metcalcpy/agg_eclv.py
index d84e70a..7248dc3 100644
--- a/metcalcpy/agg_eclv.py
+++ b/metcalcpy/agg_eclv.py
@@ -43,7 +43,7 @@ from metcalcpy.event_equalize import event_equalize
 from metcalcpy.util.utils import PRECISION, is_string_strictly_float
 from metcalcpy.util.eclv_statistics import *
 
-from metcalcpy.util.utils import is_string_integer, parse_bool
+from metcalcpy.util.utils import is_string_integer, parse_bool, keep_warning_filters
 
 __author__ = 'Tatiana Burek'
 
@@ -273,6 +273,7 @@ class AggEclv:
         out_frame.reset_index(inplace=True, drop=True)
         return out_frame
 
+    @keep_warning_filters
     def calculate_stats_and_ci(self):
         """ Calculates aggregated statistics and confidants intervals
             ( if parameter num_iterations > 1) for each series point
diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 062833c..f5ef42e 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -58,7 +58,8 @@ from metcalcpy.util.mcts_statistics import *
 from metcalcpy.util.utils import is_string_integer, get_derived_curve_name, \
     calc_derived_curve_value, intersection, is_derived_point, parse_bool, \
     OPERATION_TO_SIGN, perfect_score_adjustment, perform_event_equalization, \
-    aggregate_field_values, sort_data, DerivedCurveComponent, is_string_strictly_float
+    aggregate_field_values, sort_data, DerivedCurveComponent, is_string_strictly_float, \
+    keep_warning_filters
 
 __author__ = 'Tatiana Burek'
 
@@ -1117,6 +1118,7 @@ class AggStat:
             out_frame = pd.DataFrame()
         return out_frame
 
+    @keep_warning_filters
     def calculate_stats_and_ci(self):
         """ Calculates aggregated statistics and confidants intervals
             ( if parameter num_iterations > 1) for each series point
diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index e0ffb3d..a8b240e 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -49,7 +49,8 @@ from metcalcpy.util.mode_2d_arearat_statistics import *
 from metcalcpy.util.mode_2d_ratio_statistics import *
 from metcalcpy.util.mode_3d_volrat_statistics import *
 from metcalcpy.util.mode_3d_ratio_statistics import *
-from metcalcpy.util.utils import is_string_integer, parse_bool, sort_data, is_string_strictly_float
+from metcalcpy.util.utils import is_string_integer, parse_bool, sort_data, is_string_strictly_float, \
+    keep_warning_filters
 
 
 class AggStatBootstrap:
@@ -283,6 +284,7 @@ class AggStatBootstrap:
             raise KeyError("can't calculate statistic")
         return stat_values
 
+    @keep_warning_filters
     def calculate_values(self):
         """ Performs EE if needed followed by  aggregation statistic logic
             Writes output data to the file
diff --git a/metcalcpy/agg_stat_eqz.py b/metcalcpy/agg_stat_eqz.py
index 3dc07df..cf433e0 100644
--- a/metcalcpy/agg_stat_eqz.py
+++ b/metcalcpy/agg_stat_eqz.py
@@ -39,7 +39,7 @@ import yaml
 import warnings
 
 from metcalcpy.event_equalize_against_values import event_equalize_against_values
-from metcalcpy.util.utils import parse_bool, select_series_data
+from metcalcpy.util.utils import parse_bool, select_series_data, keep_warning_filters
 
 
 class AggStatEventEqz:
@@ -68,6 +68,7 @@ class AggStatEventEqz:
         self.column_names = self.input_data.columns.values
         self.series_data = None
 
+    @keep_warning_filters
     def calculate_values(self):
         """Performs event equalisation if needed and saves equalized data to the file.
             Returns:
diff --git a/metcalcpy/agg_stat_event_equalize.py b/metcalcpy/agg_stat_event_equalize.py
index e46a2e8..509f0d6 100644
--- a/metcalcpy/agg_stat_event_equalize.py
+++ b/metcalcpy/agg_stat_event_equalize.py
@@ -39,7 +39,7 @@ import yaml
 import warnings
 
 from metcalcpy.event_equalize import event_equalize
-from metcalcpy.util.utils import select_series_data
+from metcalcpy.util.utils import select_series_data, keep_warning_filters
 
 class AggStatEventEqualize:
     """A class that performs event equalisation logic on input data
@@ -66,6 +66,7 @@ class AggStatEventEqualize:
         self.column_names = self.input_data.columns.values
         self.series_data = None
 
+    @keep_warning_filters
     def calculate_values(self):
         """Performs event equalisation if needed and saves equalized data to the file.
         """
diff --git a/metcalcpy/scorecard.py b/metcalcpy/scorecard.py
index 0b3777f..dff3700 100644
--- a/metcalcpy/scorecard.py
+++ b/metcalcpy/scorecard.py
@@ -50,7 +50,8 @@ from metcalcpy.util.tost_paired import pt
 
 from metcalcpy.util.utils import intersection, get_derived_curve_name, parse_bool, \
     is_derived_point, is_string_integer, OPERATION_TO_SIGN, calc_derived_curve_value, \
-    perfect_score_adjustment, sort_data, PRECISION, DerivedCurveComponent, is_string_strictly_float
+    perfect_score_adjustment, sort_data, PRECISION, DerivedCurveComponent, is_string_strictly_float, \
+    keep_warning_filters
 
 COLUMNS_TO_REMOVE = ['equalize', 'stat_ncl', 'stat_ncu', 'stat_bcl', 'stat_bcu', 'fcst_valid_beg', 'fcst_init_beg']
 
@@ -103,6 +104,7 @@ class Scorecard:
             raise
         self.group_to_value = {}
 
+    @keep_warning_filters
     def calculate_scorecard_data(self):
         """Calculates requested statistics for the scorecard. Possible statistic values:
               DIFF_SIG - the difference significance
diff --git a/metcalcpy/sum_stat.py b/metcalcpy/sum_stat.py
index 6b2388f..099f69a 100644
--- a/metcalcpy/sum_stat.py
+++ b/metcalcpy/sum_stat.py
@@ -55,7 +55,8 @@ from metcalcpy.util.nbrctc_statistics import *
 from metcalcpy.util.rps_statistics import *
 
 from metcalcpy.util.utils import is_string_integer, parse_bool, \
-    aggregate_field_values, perform_event_equalization, is_string_strictly_float
+    aggregate_field_values, perform_event_equalization, is_string_strictly_float, \
+    keep_warning_filters
 
 
 class SumStat:
@@ -119,6 +120,7 @@ class SumStat:
                            'rps': {"total", "rpss", "rps", "rps_comp"}
                            }
 
+    @keep_warning_filters
     def calculate_stats(self):
         """ Calculates summary statistics for each series point
             Writes output data to the file
diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index abf6fee..870c585 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -14,6 +14,7 @@ Program Name: utils.py
 __author__ = 'Tatiana Burek'
 
 from typing import Union
+import functools
 import math
 import sys
 import re
@@ -789,6 +790,17 @@ def equalize_axis_data(fix_vals_keys, fix_vals_permuted, params, input_data, axi
     return output_ee_data
 
 
+def keep_warning_filters(func):
+    """ Decorator that restores the warning filters of the process after the function call
+        even if the function raises an error
+    """
+    @functools.wraps(func)
+    def wrapper(*args, **kwargs):
+        with warnings.catch_warnings():
+            return func(*args, **kwargs)
+    return wrapper
+
+
 def perform_event_equalization(params, input_data):
     """ Performs event equalisation on input data. If there ara 2 axis:
         perform EE on each and then on both
-- 
2.43.0


From 1ec1e59f81eaa057e20030634742eff1b8939984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:26:55 +0000
Subject: [PATCH 40/56] fix: calculate Brier score, skill score and resolution
 of probability forecasts

The total is a single number, so resetting its index always raised.
---
 metcalcpy/util/pstd_statistics.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/metcalcpy/util/pstd_statistics.py b/metcalcpy/util/pstd_statistics.py
index 8d9f96d..2ee7a01 100644
--- a/metcalcpy/util/pstd_statistics.py
+++ b/metcalcpy/util/pstd_statistics.py
@@ -42,8 +42,6 @@ def calculate_pstd_brier(input_data, columns_names):
         o_bar_table = df_pct_perm['oy_i'].sum() / t_table
         o_bar = input_data[0, get_column_index_by_name(columns_names, 'o_bar')]
 
-        t_table.reset_index(inplace=True, drop=True)
-
         reliability = calc_reliability(t_table, df_pct_perm)
         resolution = calc_resolution(t_table, df_pct_perm, o_bar)
         uncertainty = calc_uncertainty(o_bar_table)
@@ -76,7 +74,6 @@ def calculate_pstd_bss_smpl(input_data, columns_names):
         o_bar_table = df_pct_perm['oy_i'].sum() / t_table
         o_bar = input_data[0, get_column_index_by_name(columns_names, 'o_bar')]
 
-        t_table.reset_index(inplace=True, drop=True)
         reliability = calc_reliability(t_table, df_pct_perm)
         resolution = calc_resolution(t_table, df_pct_perm, o_bar)
         uncertainty = calc_uncertainty(o_bar_table)
@@ -161,7 +158,6 @@ def calculate_pstd_resolution(input_data, columns_names):
         df_pct_perm = _calc_common_stats(columns_names, input_data)
         o_bar = input_data[0, get_column_index_by_name(columns_names, 'o_bar')]
         t_table = df_pct_perm['n_i'].sum()
-        t_table.reset_index(inplace=True, drop=True)
         resolution = calc_resolution(t_table, df_pct_perm, o_bar)
         result = round_half_up(resolution, PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
-- 
2.43.0


From f839ca20fa56f96f190b90fbf8b7c1c68d362083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:28:04 +0000
Subject: [PATCH 41/56] fix: give MODE statistics of resamples an array like
 that of the data

Area ratios over all objects could not be calculated with confidence limits.
---
 metcalcpy/agg_stat_bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index a8b240e..85f0ece 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -278,7 +278,7 @@ class AggStatBootstrap:
                 drawn, counts = np.unique(row.flatten(), return_counts=True)
                 times_drawn = dict(zip(drawn, counts))
                 repeats = [times_drawn.get(case, 0) for case in data_cases]
-                values = self.series_data.iloc[np.repeat(np.arange(len(data_cases)), repeats)]
+                values = self.series_data.iloc[np.repeat(np.arange(len(data_cases)), repeats)].to_numpy()
                 stat_values.append([globals()[func_name](values, self.column_names)])
         else:
             raise KeyError("can't calculate statistic")
-- 
2.43.0


From 728241bb5d22c94bad9b9e08f15f38845dd50fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:30:09 +0000
Subject: [PATCH 42/56] fix: count the objects that the MODE ratios and object
 scores are named after

Several ratios selected unmatched instead of matched objects or the wrong
field, and the object CSI, PODY and area FAR did not follow from hits,
misses and false alarms.
---
 metcalcpy/util/mode_arearat_statistics.py |  8 ++++----
 metcalcpy/util/mode_ratio_statistics.py   | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/metcalcpy/util/mode_arearat_statistics.py b/metcalcpy/util/mode_arearat_statistics.py
index 2ca56f8..347bbd5 100644
--- a/metcalcpy/util/mode_arearat_statistics.py
+++ b/metcalcpy/util/mode_arearat_statistics.py
@@ -266,8 +266,8 @@ def calculate_arearat_fsm_asm(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 0}
-    denominator_filter = {'fcst_flag': 1, 'simple_flag': 1}
+    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 1}
+    denominator_filter = {'simple_flag': 1, 'matched_flag': 1}
 
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
@@ -613,7 +613,7 @@ def calculate_arearat_osa_fsa(input_data, columns_names):
     """
     warnings.filterwarnings('error')
     nominator_filter = {'fcst_flag': 0, 'simple_flag': 1}
-    denominator_filter = {'fcst_flag': 0, 'simple_flag': 1}
+    denominator_filter = {'fcst_flag': 1, 'simple_flag': 1}
 
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
@@ -983,7 +983,7 @@ def calculate_objafar(input_data, columns_names):
         denominator_2_data = \
             column_data_by_name_value(input_data, columns_names, denominator_filter_2)
         denominator_2 = sum_column_data_by_name(denominator_2_data, columns_names, 'area')
-        result = round_half_up(nominator / (denominator_1 + 2 * denominator_2), PRECISION)
+        result = round_half_up(nominator / (denominator_1 + denominator_2 / 2), PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
diff --git a/metcalcpy/util/mode_ratio_statistics.py b/metcalcpy/util/mode_ratio_statistics.py
index 39b7571..37373ea 100644
--- a/metcalcpy/util/mode_ratio_statistics.py
+++ b/metcalcpy/util/mode_ratio_statistics.py
@@ -136,7 +136,7 @@ def calculate_ratio_fsm_fsa(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 1, 'matched_flag': 1}
+    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 1}
     denominator_filter = {'fcst_flag': 1, 'simple_flag': 1}
     try:
         nominator = nrow_column_data_by_name_value(input_data, columns_names, nominator_filter)
@@ -162,7 +162,7 @@ def calculate_ratio_fsu_fsa(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 1}
+    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 0}
     denominator_filter = {'fcst_flag': 1, 'simple_flag': 1}
     try:
         nominator = nrow_column_data_by_name_value(input_data, columns_names, nominator_filter)
@@ -240,7 +240,7 @@ def calculate_ratio_fsm_asm(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 0}
+    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 1}
     denominator_filter = {'matched_flag': 1, 'simple_flag': 1}
     try:
         nominator = nrow_column_data_by_name_value(input_data, columns_names, nominator_filter)
@@ -266,7 +266,7 @@ def calculate_ratio_osm_asm(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 0, 'simple_flag': 1, 'matched_flag': 0}
+    nominator_filter = {'fcst_flag': 0, 'simple_flag': 1, 'matched_flag': 1}
     denominator_filter = {'matched_flag': 1, 'simple_flag': 1}
     try:
         nominator = nrow_column_data_by_name_value(input_data, columns_names, nominator_filter)
@@ -838,7 +838,7 @@ def calculate_objcsi(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 1, 'matched_flag': 0}
+    nominator_filter = {'simple_flag': 1, 'matched_flag': 1}
     denominator_filter_1 = {'simple_flag': 1, 'matched_flag': 1}
     denominator_filter_2 = {'simple_flag': 1, 'matched_flag': 0}
 
@@ -871,7 +871,7 @@ def calculate_objpody(input_data, columns_names):
     warnings.filterwarnings('error')
     nominator_filter = {'simple_flag': 1, 'matched_flag': 1}
     denominator_filter_1 = {'simple_flag': 1, 'matched_flag': 1}
-    denominator_filter_2 = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 0}
+    denominator_filter_2 = {'fcst_flag': 0, 'simple_flag': 1, 'matched_flag': 0}
 
     try:
         nominator = nrow_column_data_by_name_value(input_data, columns_names, nominator_filter)
-- 
2.43.0


From e494373bafed940392290102178be87b168ddb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:31:34 +0000
Subject: [PATCH 43/56] fix: find the volume column for the statistics of
 three-dimensional objects

The renamed columns were a list, in which no column was found, so all volume
statistics were missing.
---
 metcalcpy/util/mode_3d_volrat_statistics.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/util/mode_3d_volrat_statistics.py b/metcalcpy/util/mode_3d_volrat_statistics.py
index 1f66035..83c0e37 100644
--- a/metcalcpy/util/mode_3d_volrat_statistics.py
+++ b/metcalcpy/util/mode_3d_volrat_statistics.py
@@ -11,6 +11,8 @@
 """
 Program Name: mode_3d_volrat_statistics.py
 """
+import numpy as np
+
 from metcalcpy.util.mode_arearat_statistics import *
 from metcalcpy.util.utils import column_data_by_name_value, THREE_D_DATA_FILTER
 
@@ -626,6 +628,7 @@ def calculate_3d_objvfar(input_data, columns_names):
 
 def rename_column(columns_names):
     """Change the column name array element from 'volume' to 'area'
+        and from 'area' to 'volume'
 
         Args:
             columns_names: array of column names
@@ -637,6 +640,8 @@ def rename_column(columns_names):
     for index, name in enumerate(columns_names):
         if name == 'volume':
             columns_names_new.insert(index, 'area')
+        elif name == 'area':
+            columns_names_new.insert(index, 'volume')
         else:
             columns_names_new.insert(index, name)
-    return columns_names_new
+    return np.array(columns_names_new)
-- 
2.43.0


From 7ac8ba25f81a6fecbcbc0022b633366094161297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:33:05 +0000
Subject: [PATCH 44/56] fix: weight the records when the fractional error is
 aggregated

FE was missing in the list of fields, so it used unweighted sums.
---
 metcalcpy/agg_stat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index f5ef42e..35f2e11 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -137,6 +137,7 @@ class AggStat:
         'anom_corr_raw': ['ffabar', 'ooabar', 'foabar'],
         'rmsfa': ['ffabar'],
         'rmsoa': ['ooabar'],
+        'fe': ['fbar', 'obar'],
         'me': ['fbar', 'obar'],
         'me2': ['fbar', 'obar'],
         'mse': ['ffbar', 'oobar', 'fobar'],
-- 
2.43.0


From a7fc0016af3eb59d112538150a2432b0bbbc8c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:33:40 +0000
Subject: [PATCH 45/56] fix: calculate the number of matched pairs of
 spread/skill records

Aggregation failed for statistics that need no weighted fields.
---
 metcalcpy/agg_stat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 35f2e11..384f110 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -534,7 +534,7 @@ class AggStat:
         data_for_prepare.rename(columns={"total": "total_orig", "bin_n": "total"}, inplace=True)
         self.column_names = data_for_prepare.columns.values
 
-        for column in self.STATISTIC_TO_FIELDS[self.statistic]:
+        for column in self.STATISTIC_TO_FIELDS.get(self.statistic, []):
             data_for_prepare[column] \
                 = data_for_prepare[column].values * data_for_prepare['total'].values
 
-- 
2.43.0


From 1853b7efc5900339a13cfb89e8302f601d82b273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:36:33 +0000
Subject: [PATCH 46/56] fix: aggregate the wind anomalies of values joined with
 a semicolon

The anomaly correlation of the vector wind used those of the first value only.
---
 metcalcpy/util/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 870c585..5843a7d 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -614,6 +614,9 @@ def calc_series_sums(input_df, line_type):
     elif line_type in ('vl1l2', 'vcnt'):
         column_names = ['ufbar', 'vfbar', 'uobar', 'vobar', 'uvfobar',
                         'uvffbar', 'uvoobar', 'f_speed_bar', 'o_speed_bar']
+        column_names.extend(column for column in ['uvffabar', 'uvfoabar', 'uvooabar',
+                                                  'fa_speed_bar', 'oa_speed_bar']
+                            if column in input_df.columns)
         for column in column_names:
             sums_data_frame[column] = [np.nansum(input_df[column] * input_df.total.astype(float))
                                        / total]
-- 
2.43.0


From 74de699741a204a700da2a6142f51301a8776531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:39:15 +0000
Subject: [PATCH 47/56] fix: calculate FSS and RPSS of summary jobs from the
 scores' denominators

---
 metcalcpy/sum_stat.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/sum_stat.py b/metcalcpy/sum_stat.py
index 099f69a..510edc5 100644
--- a/metcalcpy/sum_stat.py
+++ b/metcalcpy/sum_stat.py
@@ -117,7 +117,7 @@ class SumStat:
                            'nbrcnt': {'total', 'fbs', 'fss', 'afss', 'ufss', 'f_rate', 'o_rate'},
                            'ecnt': {'total', 'rmse', 'rmse_oerr', 'crps'},
                            'nbrctc': {"total", "fy_oy", "fy_on", "fn_oy", "fn_on"},
-                           'rps': {"total", "rpss", "rps", "rps_comp"}
+                           'rps': {"total", "rpss", "rps", "rps_comp", "rps_climo"}
                            }
 
     @keep_warning_filters
@@ -149,6 +149,14 @@ class SumStat:
                 self.aggregate_special_fields('1')
                 self.aggregate_special_fields('2')
 
+                # skill scores are calculated from their denominators
+                if self.params['line_type'] == 'nbrcnt':
+                    self.input_data['fss'] = self.input_data['fbs'] / (1 - self.input_data['fss'])
+                elif self.params['line_type'] == 'rps':
+                    self.input_data['rps_climo'] = \
+                        self.input_data['rps'] / (1 - self.input_data['rpss'])
+                    self.column_names = self.input_data.columns.values
+
                 start_time = time.time()
                 # calculate statistic for each row
                 self.process_rows()
-- 
2.43.0


From fc3fc53e37158c98b854e9ab5fa0d2db522ae9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:44:58 +0000
Subject: [PATCH 48/56] fix: restore the pandas option that event equalization
 switches off

---
 metcalcpy/util/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 5843a7d..644637d 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -794,12 +794,13 @@ def equalize_axis_data(fix_vals_keys, fix_vals_permuted, params, input_data, axi
 
 
 def keep_warning_filters(func):
-    """ Decorator that restores the warning filters of the process after the function call
-        even if the function raises an error
+    """ Decorator that restores the warning filters and the pandas option of event equalization
+        after the function call even if the function raises an error
     """
     @functools.wraps(func)
     def wrapper(*args, **kwargs):
-        with warnings.catch_warnings():
+        with warnings.catch_warnings(), \
+                pd.option_context('mode.chained_assignment', pd.options.mode.chained_assignment):
             return func(*args, **kwargs)
     return wrapper
 
-- 
2.43.0


From 69702d0ad835bdc5e58fa7a31baddfeea0464344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:45:02 +0000
Subject: [PATCH 49/56] fix: read missing points of a NetCDF field as missing

---
 .../blocking_weather_regime/Blocking_WeatherRegime_util.py     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/contributed/blocking_weather_regime/Blocking_WeatherRegime_util.py b/metcalcpy/contributed/blocking_weather_regime/Blocking_WeatherRegime_util.py
index 1c306c6..2ced10e 100644
--- a/metcalcpy/contributed/blocking_weather_regime/Blocking_WeatherRegime_util.py
+++ b/metcalcpy/contributed/blocking_weather_regime/Blocking_WeatherRegime_util.py
@@ -118,7 +118,8 @@ def read_nc_met(infiles,invar,nseasons,dseasons):
         init_list.append(init_time_str)
         valid_list.append(valid_time_str)
         lead_list.append(lead_str)
-        var_3d[i,:,:] = new_invar
+        # missing points are missing and not the fill value
+        var_3d[i,:,:] = np.ma.filled(np.ma.asarray(new_invar, dtype=np.float64), np.nan)
 
     var_4d = np.reshape(var_3d,[nseasons,dseasons,len(var_3d[0,:,0]),len(var_3d[0,0,:])])
 
-- 
2.43.0


From e907adccc22df4ba4ead6923be05ec0faa4e905e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:10:25 +0000
Subject: [PATCH 50/56] fix: write the log file of the interpolation and
 cyclone programs

---
 metcalcpy/process_tcrmw.py   | 5 ++++-
 metcalcpy/vertical_interp.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/process_tcrmw.py b/metcalcpy/process_tcrmw.py
index 6fe8191..b2ef5a4 100644
--- a/metcalcpy/process_tcrmw.py
+++ b/metcalcpy/process_tcrmw.py
@@ -147,7 +147,10 @@ if __name__ == '__main__':
     Setup logging
     """
     logging_level = logging.DEBUG if args.debug else logging.INFO
-    logging.basicConfig(stream=args.logfile, level=logging_level)
+    if args.logfile is sys.stdout:
+        logging.basicConfig(stream=args.logfile, level=logging_level)
+    else:
+        logging.basicConfig(filename=args.logfile, level=logging_level)
 
     """
     Construct input and output filenames
diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index 9e91e0b..c9e1fa2 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -595,7 +595,10 @@ if __name__ == '__main__':
     Setup logging
     """
     logging_level = logging.DEBUG if args.debug else logging.INFO
-    logging.basicConfig(stream=args.logfile, level=logging_level)
+    if args.logfile is sys.stdout:
+        logging.basicConfig(stream=args.logfile, level=logging_level)
+    else:
+        logging.basicConfig(filename=args.logfile, level=logging_level)
 
     if os.path.isdir(args.datadir):
         logging.info(args.datadir)
-- 
2.43.0


From b01c47c20601cec70d300884a76421ede5b37767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:10:25 +0000
Subject: [PATCH 51/56] fix: take the reference time from the file name and not
 from the directory

---
 metcalcpy/vertical_interp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index c9e1fa2..9872ef8 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -695,7 +695,7 @@ if __name__ == '__main__':
         logging.info('Creating with NetCDF4 ' + filename_out)
         ds_nc = nc.Dataset(filename_out, 'w')
         if args.ref_time_from_filename: 
-            ref_time = filename_out.split('.')[1]
+            ref_time = os.path.basename(filename_out).split('.')[1]
             write_dataset(ds_out, ds_nc, coords_interp=coords_interp,
                 forecast_reference_time=ref_time, create_time_dim=args.create_time_dim)
         else:
-- 
2.43.0


From 455c467027d330b995aed2c441934e74e07f71da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:10:25 +0000
Subject: [PATCH 52/56] fix: create the directory of the debug files of
 vertical interpolation

---
 metcalcpy/vertical_interp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index 9872ef8..bd8e549 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -241,6 +241,7 @@ def vertical_interp(fieldname, config,
                 {'distances': distances,
                  'weights': weights,
                  fieldname: field_slice})
+            os.makedirs(os.path.join(args.datadir, 'Debug'), exist_ok=True)
             debugfile = os.path.join(args.datadir, 'Debug', 'vertical_interp_debug_'
                                      + fieldname + '_' + str(int(eta)) + '.nc')
             try:
-- 
2.43.0


From 5268692099389b3344328a27932b53094e00bd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:10:25 +0000
Subject: [PATCH 53/56] fix: convert the heights of the input to the unit of
 the levels

---
 metcalcpy/vertical_interp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index bd8e549..40f8363 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -146,8 +146,8 @@ def vertical_interp(fieldname, config,
     try:
         logging.debug(coordinate_surfaces.attrs['units'])
         logging.debug(config['vertical_level_units'])
-        length_convert = float((ureg.Quantity(1, config['vertical_level_units'])
-                       / ureg.Quantity(1, coordinate_surfaces.attrs['units'])).to_base_units())
+        length_convert = float((ureg.Quantity(1, coordinate_surfaces.attrs['units'])
+                       / ureg.Quantity(1, config['vertical_level_units'])).to_base_units())
     except pint.errors.UndefinedUnitError:
         logging.warning('Unknown unit:' + coordinate_surfaces.attrs['units'])
         length_convert = 1
-- 
2.43.0


From 0ef0bf2d4b8ced03fd7564eeaae80adbc54d5027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:10:25 +0000
Subject: [PATCH 54/56] fix: keep the weight of the uppermost layer in vertical
 interpolation

---
 metcalcpy/vertical_interp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index 40f8363..e40e20f 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -201,7 +201,8 @@ def vertical_interp(fieldname, config,
         # where top most layer is below eta
         layer_below = below.loc[{lev_dim: vertical_coord[nlev - 1]}]
         weights.loc[{lev_dim: vertical_coord[nlev - 1]}] \
-            = xr.where(layer_below, 1, 0)
+            = xr.where(layer_below, 1,
+                       weights.loc[{lev_dim: vertical_coord[nlev - 1]}])
 
         """
         Compute weighted sum
-- 
2.43.0


From fad6deaa50257a7304571b31fcdbdd8f50e08807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:10:25 +0000
Subject: [PATCH 55/56] fix: interpolate to levels that are levels of the input

---
 metcalcpy/vertical_interp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index e40e20f..058a517 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -166,7 +166,7 @@ def vertical_interp(fieldname, config,
             coords=field.coords)
 
         distances = eta - length_convert * coordinate_surfaces
-        above = distances < 0
+        above = distances <= 0
         below = distances > 0
 
         """
-- 
2.43.0


From aa4c16bc171f47fb2ab869ada934e96c6662663b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:20:07 +0000
Subject: [PATCH 56/56] fix: decide by the file name alone whether the input is
 a GRIB file

---
 metcalcpy/vertical_interp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index 058a517..46650fd 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -628,7 +628,7 @@ if __name__ == '__main__':
     Read dataset
     """
     try:
-        if filename_in.split('.')[-1] == 'grb2' or 'pgrb2' in filename_in:
+        if filename_in.split('.')[-1] == 'grb2' or 'pgrb2' in os.path.basename(filename_in):
             logging.info('Opening GRIB2 ' + filename_in)
             ds = xr.open_dataset(filename_in, engine='cfgrib',
                 backend_kwargs={'filter_by_keys': {'typeOfLevel': 'isobaricInhPa'}})
-- 
2.43.0

