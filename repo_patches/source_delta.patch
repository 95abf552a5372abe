From 23ea92e6fa6654efa63f200d0e7d0d79703cd27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:43 +0000
Subject: [PATCH 01/25] fix: clip negative inputs to zero even when the series
 has missing values

np.amin() of an array containing NaN is NaN, so the comparison was false and
negatives were left unclipped whenever a single value was missing.
---
 src/climate_indices/compute.py | 2 +-
 src/climate_indices/indices.py | 4 ++--
 src/climate_indices/palmer.py  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/climate_indices/compute.py b/src/climate_indices/compute.py
index df766f9..4c6e1ca 100644
--- a/src/climate_indices/compute.py
+++ b/src/climate_indices/compute.py
@@ -735,7 +735,7 @@ def scale_values(
         return values
 
     # clip any negative values to zero
-    if np.amin(values) < 0.0:
+    if np.any(values < 0.0):
         _logger.warn("Input contains negative values -- all negatives clipped to zero")
         values = np.clip(values, a_min=0.0, a_max=None)
 
diff --git a/src/climate_indices/indices.py b/src/climate_indices/indices.py
index fc7118a..59dbe15 100644
--- a/src/climate_indices/indices.py
+++ b/src/climate_indices/indices.py
@@ -125,7 +125,7 @@ def spi(
         return values
 
     # clip any negative values to zero
-    if np.amin(values) < 0.0:
+    if np.any(values < 0.0):
         _logger.warning("Input contains negative values -- all negatives clipped to zero")
         values = np.clip(values, a_min=0.0, a_max=None)
 
@@ -270,7 +270,7 @@ def spei(
         raise ValueError(message)
 
     # clip any negative values to zero
-    if np.amin(precips_mm) < 0.0:
+    if np.any(precips_mm < 0.0):
         _logger.warning("Input contains negative values -- all negatives clipped to zero")
         precips_mm = np.clip(precips_mm, a_min=0.0, a_max=None)
 
diff --git a/src/climate_indices/palmer.py b/src/climate_indices/palmer.py
index 39d8a26..28b052b 100644
--- a/src/climate_indices/palmer.py
+++ b/src/climate_indices/palmer.py
@@ -867,7 +867,7 @@ def pdsi(
         raise ValueError(message)
 
     # clip any negative values to zero
-    if np.amin(precips) < 0.0:
+    if np.any(precips < 0.0):
         _logger.warning(
             "Input contains negative values -- all negatives clipped to zero"
         )
-- 
2.43.0


From a8e0b6bf64e78778cb7067a703eabdac40e8127c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:43 +0000
Subject: [PATCH 02/25] fix: sliding sums of a window longer than the series
 are all missing

np.convolve() swaps its arguments when the second is longer, giving sums of
shorter windows and a result longer than the input.
---
 src/climate_indices/compute.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/climate_indices/compute.py b/src/climate_indices/compute.py
index 4c6e1ca..b89c62d 100644
--- a/src/climate_indices/compute.py
+++ b/src/climate_indices/compute.py
@@ -150,6 +150,10 @@ def sum_to_scale(
     if scale == 1:
         return values
 
+    # no window is complete if it is longer than the series (np.convolve would swap its arguments)
+    if scale > len(values):
+        return np.full(len(values), np.nan)
+
     # get the valid sliding summations with 1D convolution
     sliding_sums = np.convolve(values, np.ones(scale), mode="valid")
 
-- 
2.43.0


From a3d76fce8056ad2f0db9678ecf7caf5d9354a622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:21 +0000
Subject: [PATCH 03/25] fix: computing an index no longer modifies the caller's
 arrays

---
 src/climate_indices/compute.py | 6 ++++--
 src/climate_indices/eto.py     | 2 ++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/climate_indices/compute.py b/src/climate_indices/compute.py
index b89c62d..cb94387 100644
--- a/src/climate_indices/compute.py
+++ b/src/climate_indices/compute.py
@@ -685,7 +685,8 @@ def gamma_parameters(
     # validate (and possibly reshape) the input array
     values = _validate_array(values, periodicity)
 
-    # replace zeros with NaNs
+    # replace zeros with NaNs (in a copy, the argument may be the caller's array or a view of it)
+    values = values.copy()
     values[values == 0] = np.nan
 
     # determine the end year of the values array
@@ -808,7 +809,8 @@ def transform_fitted_gamma(
     zeros = (values == 0).sum(axis=0)
     probabilities_of_zero = zeros / values.shape[0]
 
-    # replace zeros with NaNs
+    # replace zeros with NaNs (in a copy, the argument may be the caller's array or a view of it)
+    values = values.copy()
     values[values == 0] = np.nan
 
     # compute fitting parameters if none were provided
diff --git a/src/climate_indices/eto.py b/src/climate_indices/eto.py
index d723780..cc4ba6a 100644
--- a/src/climate_indices/eto.py
+++ b/src/climate_indices/eto.py
@@ -249,6 +249,8 @@ def eto_thornthwaite(
     # TODO this sometimes throws a RuntimeWarning for invalid value,
     #  perhaps as a result of a NaN, somehow use masking and/or NaN
     #  pre-check to eliminate the cause of this warning
+    # (in a copy, the argument may be the caller's array or a view of it)
+    monthly_temps_celsius = monthly_temps_celsius.copy()
     monthly_temps_celsius[monthly_temps_celsius < 0] = 0.0
 
     # mean the monthly temperature values over the month axis,
-- 
2.43.0


From 3c052b30b864f88c93f134c15ca4654ecdaad239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:21 +0000
Subject: [PATCH 04/25] fix: eto_hargreaves compares the array sizes and
 accepts 1-D input

---
 src/climate_indices/eto.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/climate_indices/eto.py b/src/climate_indices/eto.py
index cc4ba6a..754ad1a 100644
--- a/src/climate_indices/eto.py
+++ b/src/climate_indices/eto.py
@@ -315,7 +315,7 @@ def eto_hargreaves(
     """
 
     # validate the input data arrays
-    if daily_tmin_celsius.size != daily_tmax_celsius != daily_tmean_celsius:
+    if not (daily_tmin_celsius.size == daily_tmax_celsius.size == daily_tmean_celsius.size):
         message = "Incompatible array sizes"
         _logger.error(message)
         raise ValueError(message)
@@ -324,6 +324,8 @@ def eto_hargreaves(
     original_length = daily_tmean_celsius.size
 
     # reshape to 2-D with 366 days per year, if not already in this shape
+    daily_tmin_celsius = utils.reshape_to_2d(daily_tmin_celsius, 366)
+    daily_tmax_celsius = utils.reshape_to_2d(daily_tmax_celsius, 366)
     daily_tmean_celsius = utils.reshape_to_2d(daily_tmean_celsius, 366)
 
     # at this point we assume that our dataset array has shape (years, 366)
-- 
2.43.0


From a38e2ddf425c8b1162ee5fdac0ddcbd9e021da09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:21 +0000
Subject: [PATCH 05/25] fix: pet accepts the poles, latitude range is inclusive

---
 src/climate_indices/indices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/climate_indices/indices.py b/src/climate_indices/indices.py
index 59dbe15..9b5f04e 100644
--- a/src/climate_indices/indices.py
+++ b/src/climate_indices/indices.py
@@ -494,7 +494,7 @@ def pet(
         latitude_degrees = latitude_degrees.flat[0]
 
     # make sure we're not dealing with a NaN or out-of-range latitude value
-    if (latitude_degrees is not None) and not np.isnan(latitude_degrees) and (-90.0 < latitude_degrees < 90.0):
+    if (latitude_degrees is not None) and not np.isnan(latitude_degrees) and (-90.0 <= latitude_degrees <= 90.0):
         # compute and return the PET values using Thornthwaite's equation
         return eto.eto_thornthwaite(
             temperature_celsius,
-- 
2.43.0


From 3acbc436ffb060fcc06b75384438dea2d919593b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:21 +0000
Subject: [PATCH 06/25] fix: pci month boundaries, February ends at day 59 or
 60

---
 src/climate_indices/indices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/climate_indices/indices.py b/src/climate_indices/indices.py
index 9b5f04e..725a1a2 100644
--- a/src/climate_indices/indices.py
+++ b/src/climate_indices/indices.py
@@ -535,7 +535,7 @@ def pci(
 
     # make sure we're not dealing with a NaN or out-of-range or less than the expected rainfall value
     if len(rainfall_mm) == 366 and not sum(np.isnan(rainfall_mm)):
-        m = [31, 29, 91, 121, 152, 182, 213, 244, 274, 305, 335, 366]
+        m = [31, 60, 91, 121, 152, 182, 213, 244, 274, 305, 335, 366]
         start = 0
         numerator = 0
         denominator = 0
@@ -549,7 +549,7 @@ def pci(
         return np.array([(numerator / (denominator**2)) * 100])
 
     if len(rainfall_mm) == 365 and not sum(np.isnan(rainfall_mm)):
-        m = [31, 28, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365]
+        m = [31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365]
         start = 0
         numerator = 0
         denominator = 0
-- 
2.43.0


From 670132508ed8c14768342ff4e0689642d27b313e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:21 +0000
Subject: [PATCH 07/25] fix: the final data year is the last year with values,
 not the one after

---
 src/climate_indices/compute.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/climate_indices/compute.py b/src/climate_indices/compute.py
index cb94387..6002181 100644
--- a/src/climate_indices/compute.py
+++ b/src/climate_indices/compute.py
@@ -294,7 +294,7 @@ def pearson_parameters(
     """
     values = reshape_values(values, periodicity)
     time_steps_per_year = validate_values_shape(values)
-    data_end_year = data_start_year + values.shape[0]
+    data_end_year = data_start_year + values.shape[0] - 1
     calibration_start_year, calibration_end_year = adjust_calibration_years(
         data_start_year, data_end_year, calibration_start_year, calibration_end_year
     )
@@ -616,7 +616,7 @@ def transform_fitted_pearson(
     # compute the Pearson Type III fitting values if none were provided
     if any(param_arg is None for param_arg in pearson_param_args):
         # determine the end year of the values array
-        data_end_year = data_start_year + values.shape[0]
+        data_end_year = data_start_year + values.shape[0] - 1
 
         # make sure that we have data within the full calibration period,
         # otherwise use the full period of record
@@ -690,7 +690,7 @@ def gamma_parameters(
     values[values == 0] = np.nan
 
     # determine the end year of the values array
-    data_end_year = data_start_year + values.shape[0]
+    data_end_year = data_start_year + values.shape[0] - 1
 
     # make sure that we have data within the full calibration period,
     # otherwise use the full period of record
-- 
2.43.0


From 6e1542e7f9daff98bc66f5afbdf44dad5520786c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:21 +0000
Subject: [PATCH 08/25] fix: calibration length check of percentage_of_normal
 for daily data

---
 src/climate_indices/indices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/climate_indices/indices.py b/src/climate_indices/indices.py
index 725a1a2..38aae17 100644
--- a/src/climate_indices/indices.py
+++ b/src/climate_indices/indices.py
@@ -416,7 +416,7 @@ def percentage_of_normal(
             "Invalid start year arguments (data and/or calibration): "
             "calibration start year is before the data start year",
         )
-    if ((calibration_end_year - calibration_start_year + 1) * 12) > values.size:
+    if ((calibration_end_year - calibration_start_year + 1) * periodicity) > values.size:
         raise ValueError(
             "Invalid calibration period specified: total calibration years "
             "exceeds the actual number of years of data",
-- 
2.43.0


From 27e3b8eac93f26b29a007373355a8bfbe3ad45d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:10 +0000
Subject: [PATCH 09/25] fix: get_tolerance of a dimension with a single value

---
 src/climate_indices/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/climate_indices/utils.py b/src/climate_indices/utils.py
index 74dac1a..b5d0d08 100644
--- a/src/climate_indices/utils.py
+++ b/src/climate_indices/utils.py
@@ -115,8 +115,9 @@ def get_tolerance(dim: np.ndarray) -> float:
     derived from (smallest) absolute grid size along dimension dim.
     Always greater than zero.
     """
-    tol = np.abs(np.diff(dim)).min() / 10
-    return max(tol, np.finfo(tol.dtype).resolution)
+    spacings = np.abs(np.diff(dim)) / 10
+    resolution = np.finfo(spacings.dtype).resolution
+    return max(spacings.min(), resolution) if spacings.size else resolution
 
 
 def sign_change(
-- 
2.43.0


From 81a7c5c7b79311eda1d00c6f937264b76735ed10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:10 +0000
Subject: [PATCH 10/25] fix: Thornthwaite PET is zero, not missing, if no month
 is above freezing

---
 src/climate_indices/eto.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/climate_indices/eto.py b/src/climate_indices/eto.py
index 754ad1a..8a31263 100644
--- a/src/climate_indices/eto.py
+++ b/src/climate_indices/eto.py
@@ -260,6 +260,10 @@ def eto_thornthwaite(
     # calculate the heat index (I)
     heat_index = np.sum(np.power(mean_monthly_temps / 5.0, 1.514))
 
+    # without any month above freezing there is no evaporation (and the heat index is a zero divisor)
+    if heat_index == 0:
+        return np.where(np.isnan(monthly_temps_celsius), np.nan, 0.0).reshape(-1)[0:original_length]
+
     # calculate the coefficient
     a = (6.75e-07 * heat_index**3) - (7.71e-05 * heat_index**2) + (1.792e-02 * heat_index) + 0.49239
 
-- 
2.43.0


From 7a7135a1e5eeb10b718e6716a57955378b1199fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:10 +0000
Subject: [PATCH 11/25] fix: reshape_to_divs_years_months accepts more than one
 year

---
 src/climate_indices/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/climate_indices/utils.py b/src/climate_indices/utils.py
index b5d0d08..351e1fe 100644
--- a/src/climate_indices/utils.py
+++ b/src/climate_indices/utils.py
@@ -268,9 +268,9 @@ def reshape_to_divs_years_months(
         raise ValueError(message)
 
     # otherwise make sure that we've been passed in a 2-D array
-    # of values with the final dimension size == 12
-    elif shape[1] != 12:
-        message = "Values array has an invalid shape (second dimension " + "should be 12, but is not): " + str(shape)
+    # of values with the final dimension size a multiple of 12
+    elif shape[1] % 12 != 0:
+        message = "Values array has an invalid shape (second dimension " + "should be a multiple of 12, but is not): " + str(shape)
         _logger.error(message)
         raise ValueError(message)
 
-- 
2.43.0


From 7c6eeff7b29b34d56931be372f6ce11d44b4f218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:19 +0000
Subject: [PATCH 12/25] fix: room for a Palmer spell that stays undetermined
 for 40 months or more

---
 src/climate_indices/palmer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/climate_indices/palmer.py b/src/climate_indices/palmer.py
index 28b052b..4fbaddb 100644
--- a/src/climate_indices/palmer.py
+++ b/src/climate_indices/palmer.py
@@ -535,7 +535,7 @@ def _statement_200(data: dict) -> None:
     # At that time, the assign method backtracs through choosing
     # the appropriate x1 or x2 to be that month's x.
     #_logger.debug(f"no value assigned; will backtrack later k8:{data['k8']},y:{year},m:{month}")
-    if data["k8"] >= data["sx"].shape[0]+1:
+    if data["k8"] >= data["sx"].shape[0] - 1:
         vals = [0] * (data["k8"] - data["sx"].shape[0] + 2)
         data["sx"] = np.append(data["sx"], vals)
         data["sx1"] = np.append(data["sx1"], vals)
-- 
2.43.0


From f68902f3adc1130242873b16bafa2e7c95ca9f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:46 +0000
Subject: [PATCH 13/25] fix: keep the Palmer indices of an incomplete final
 year to the months of the record

The months padded onto an incomplete final year went through the spell
accounting with missing Z values: they joined the run of undetermined
months, shifted the months that _finish_up reports and left PMDI missing
for a run at the end of the record. Stop at the last month of the record
and use this month, not December of the final year, in _finish_up.
---
 src/climate_indices/palmer.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/climate_indices/palmer.py b/src/climate_indices/palmer.py
index 4fbaddb..76193ce 100644
--- a/src/climate_indices/palmer.py
+++ b/src/climate_indices/palmer.py
@@ -635,6 +635,9 @@ def _calc_zindex(data: dict) -> None:
     """
     for year in range(data["n_years"]):
         for month in range(12):
+            # months of an incomplete final year that are not in the record
+            if (year * 12 + month) >= data["n_months"]:
+                return
             data["year"] = year
             data["month"] = month
             k8 = int(data["k8"])
@@ -705,7 +708,8 @@ def _finish_up(data: dict) -> None:
     for k8 in range(data["k8max"]):
         i = int(data["indexj"][k8])
         j = int(data["indexm"][k8])
-        i_end = data["precips"].shape[0] - 1
+        # final month of the record
+        i_end, j_end = divmod(data["n_months"] - 1, 12)
         data["pdsi"][i, j] = data["x"][i, j]
         data["phdi"][i, j] = data["px3"][i, j]
 
@@ -713,10 +717,10 @@ def _finish_up(data: dict) -> None:
             data["phdi"][i, j] = data["x"][i, j]
 
         data["wplm"][i, j] = _case(
-            data["ppr"][i_end, 11],
-            data["px1"][i_end, 11],
-            data["px2"][i_end, 11],
-            data["px3"][i_end, 11],
+            data["ppr"][i_end, j_end],
+            data["px1"][i_end, j_end],
+            data["px2"][i_end, j_end],
+            data["px3"][i_end, j_end],
         )
 
 
@@ -774,6 +778,7 @@ def _initialize_data(
     data["awc"] = awc
     data["awc_bot"] = _get_awc_bot(awc)
     data["n_years"] = n_years
+    data["n_months"] = precips.size
     data["n_calb_years"] = calibration_year_final - calibration_year_initial + 1
     data["calibration_year_initial_idx"] = calibration_year_initial - data_start_year
     data["calibration_year_final_idx"] = calibration_year_final - data_start_year
-- 
2.43.0


From 9c5bdcd6c33e5563d7d495f2e945488afd80f9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:51 +0000
Subject: [PATCH 14/25] fix: don't split a time series input over the worker
 processes

The first dimension of a time series is time, so that each worker computed
the index from its own part of the record.
---
 src/climate_indices/__main__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index 4e0eceb..9a03c5b 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -1171,7 +1171,12 @@ def _parallel_process(
     shape = arrays_dict[output_var_name][_KEY_SHAPE]
     # if there are fewer chunks than the available number of processes
     # then only create the necessary number of tasks
-    required_processes = min(shape[0], _NUMBER_OF_WORKER_PROCESSES)
+    if input_type == InputType.timeseries:
+        # a single time series can't be split, since every
+        # value of the index depends upon the entire series
+        required_processes = 1
+    else:
+        required_processes = min(shape[0], _NUMBER_OF_WORKER_PROCESSES)
     d, m = divmod(shape[0], required_processes)
     split_indices = list(range(0, ((d + 1) * (m + 1)), (d + 1)))
     if d != 0:
-- 
2.43.0


From 2928a1cd7c8a3bf30c826c39d54f365471943b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:51 +0000
Subject: [PATCH 15/25] fix: handle inputs with time as the first dimension

The (time, lat, lon) and (time, division) orders are accepted by the argument
validation, but the former failed and the latter computed the indices along
the divisions instead of along time.
---
 src/climate_indices/__main__.py | 4 ++++
 src/climate_indices/__spi__.py  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index 9a03c5b..61fd486 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -738,6 +738,10 @@ def _compute_write_index(keyword_arguments):
         if var not in input_var_names:
             dataset = dataset.drop_vars(names=[var])
 
+    # the computations below expect time to be the final dimension
+    if any("time" in da.dims[:-1] for da in dataset.data_vars.values()):
+        dataset = dataset.load().transpose(..., "time")
+
     # get the initial year of the data
     data_start_year = int(str(dataset["time"].values[0])[0:4])
     keyword_arguments["data_start_year"] = data_start_year
diff --git a/src/climate_indices/__spi__.py b/src/climate_indices/__spi__.py
index 0f4bfc9..15fbab7 100644
--- a/src/climate_indices/__spi__.py
+++ b/src/climate_indices/__spi__.py
@@ -532,6 +532,10 @@ def _compute_write_index(keyword_arguments):
         if var not in input_var_names:
             ds_precip = ds_precip.drop_vars(var)
 
+    # the computations below expect time to be the final dimension
+    if any("time" in da.dims[:-1] for da in ds_precip.data_vars.values()):
+        ds_precip = ds_precip.load().transpose(..., "time")
+
     # if we're not loading fitting parameters
     # then we'll build a Dataset to contain them
     if keyword_arguments["load_params"] is not None:
-- 
2.43.0


From 9379aba91597c88174fa976c9b5320257b325090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:51 +0000
Subject: [PATCH 16/25] fix: use at least one worker process on single CPU
 machines

---
 src/climate_indices/__main__.py | 4 ++--
 src/climate_indices/__spi__.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index 61fd486..887833b 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -16,7 +16,7 @@ import xarray as xr
 from climate_indices import compute, indices, utils
 
 # the number of worker processes we'll use for process pools
-_NUMBER_OF_WORKER_PROCESSES = multiprocessing.cpu_count() - 1
+_NUMBER_OF_WORKER_PROCESSES = max(1, multiprocessing.cpu_count() - 1)
 # shared memory array dictionary keys
 _KEY_ARRAY = "array"
 _KEY_SHAPE = "shape"
@@ -1640,7 +1640,7 @@ def process_climate_indices(
         elif arguments.multiprocessing == "all":
             _NUMBER_OF_WORKER_PROCESSES = multiprocessing.cpu_count()
         else:  # default ("all_but_one")
-            _NUMBER_OF_WORKER_PROCESSES = multiprocessing.cpu_count() - 1
+            _NUMBER_OF_WORKER_PROCESSES = max(1, multiprocessing.cpu_count() - 1)
 
         # compute SPI if specified
         if arguments.index in ["spi", "scaled", "all"]:
diff --git a/src/climate_indices/__spi__.py b/src/climate_indices/__spi__.py
index 15fbab7..a4d0dbd 100644
--- a/src/climate_indices/__spi__.py
+++ b/src/climate_indices/__spi__.py
@@ -1412,7 +1412,7 @@ def main():  # type: () -> None
         elif arguments.multiprocessing == "all":
             number_of_workers = multiprocessing.cpu_count()
         else:  # default ("all_but_one")
-            number_of_workers = multiprocessing.cpu_count() - 1
+            number_of_workers = max(1, multiprocessing.cpu_count() - 1)
 
         # prepare precipitation NetCDF in case dimensions not (lat, lon, time) or if any coordinates are descending
         netcdf_precip = _prepare_file(arguments.netcdf_precip, arguments.var_name_precip)
-- 
2.43.0


From 45f9bd8b956c697033ea0b14218f61845e85a8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:18 +0000
Subject: [PATCH 17/25] fix: don't reuse the results array of an earlier
 computation

Its shape is that of the earlier dataset, computing the indices of a second
dataset within the same process failed or wrote results of the wrong shape.
---
 src/climate_indices/__main__.py | 9 ++++-----
 src/climate_indices/__spi__.py  | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index 887833b..79eded8 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -997,11 +997,10 @@ def _compute_write_index(keyword_arguments):
 
     else:
         # add an array to hold results to the dictionary of arrays
-        if _KEY_RESULT not in _global_shared_arrays:
-            _global_shared_arrays[_KEY_RESULT] = {
-                _KEY_ARRAY: multiprocessing.Array("d", int(np.prod(output_shape))),
-                _KEY_SHAPE: output_shape,
-            }
+        _global_shared_arrays[_KEY_RESULT] = {
+            _KEY_ARRAY: multiprocessing.Array("d", int(np.prod(output_shape))),
+            _KEY_SHAPE: output_shape,
+        }
 
         if keyword_arguments["index"] in ["spi", "pnp"]:
             # apply the SPI function along the time axis (axis=2)
diff --git a/src/climate_indices/__spi__.py b/src/climate_indices/__spi__.py
index a4d0dbd..f936973 100644
--- a/src/climate_indices/__spi__.py
+++ b/src/climate_indices/__spi__.py
@@ -637,11 +637,10 @@ def _compute_write_index(keyword_arguments):
 
     # add an array to hold index computation results
     # to our dictionary of shared memory arrays
-    if _KEY_RESULT not in _global_shared_arrays:
-        _global_shared_arrays[_KEY_RESULT] = {
-            _KEY_ARRAY: multiprocessing.Array("d", int(np.prod(output_shape))),
-            _KEY_SHAPE: output_shape,
-        }
+    _global_shared_arrays[_KEY_RESULT] = {
+        _KEY_ARRAY: multiprocessing.Array("d", int(np.prod(output_shape))),
+        _KEY_SHAPE: output_shape,
+    }
 
     for scale in keyword_arguments["scales"]:
         for distribution in [indices.Distribution.gamma, indices.Distribution.pearson]:
-- 
2.43.0


From 58f939ee4fc1030f4c1f86b01dafd53199b0b6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:18 +0000
Subject: [PATCH 18/25] fix: compute SPEI for a time series input

Accepted by the argument validation but then rejected by the worker processes.
---
 src/climate_indices/__main__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index 79eded8..a7a5067 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -1358,6 +1358,10 @@ def _apply_along_axis_double(
     output_array = _global_shared_arrays[params["output_var_name"]][_KEY_ARRAY]
     computed_array = np.frombuffer(output_array.get_obj()).reshape(shape)[start_index:end_index]
 
+    if params["input_type"] == InputType.timeseries:
+        computed_array[:] = func1d(sub_array_1, sub_array_2, parameters=params["args"])
+        return
+
     for i, (x, y) in enumerate(zip(sub_array_1, sub_array_2)):
         if params["input_type"] == InputType.grid:
             for j in range(x.shape[0]):
-- 
2.43.0


From f9f6ad49dff0caf283312d8f1be6ea9ee3342d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:18 +0000
Subject: [PATCH 19/25] fix: validate the arguments needed for --index all

Missing temperature, PET or AWC files and missing scales were only noticed
after some of the indices had been computed.
---
 src/climate_indices/__main__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index a7a5067..f5bf460 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -185,7 +185,7 @@ def _validate_args(args):
                 raise ValueError(msg)
 
     # SPEI and Palmers require either a PET file or a temperature file in order to compute PET
-    if args.index in ["spei", "scaled", "palmers"]:
+    if args.index in ["spei", "scaled", "palmers", "all"]:
         if args.netcdf_temp is None:
             if args.netcdf_pet is None:
                 msg = "Missing the required temperature or PET files, neither were provided"
@@ -359,7 +359,7 @@ def _validate_args(args):
                     raise ValueError(msg)
 
         # Palmers requires an available water capacity file
-        if args.index in ["palmers"]:
+        if args.index in ["palmers", "all"]:
             if args.netcdf_awc is None:
                 msg = "Missing the required available water capacity file"
                 _logger.error(msg)
@@ -430,7 +430,7 @@ def _validate_args(args):
                     _logger.error(msg)
                     raise ValueError(msg)
 
-    if args.index in ["spi", "spei", "scaled", "pnp"]:
+    if args.index in ["spi", "spei", "scaled", "pnp", "all"]:
         if args.scales is None:
             msg = (
                 "Scaled indices (SPI, SPEI, and/or PNP) specified without "
-- 
2.43.0


From 6ccfd8742dbf2627b2248318c58f83912fddd5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:18 +0000
Subject: [PATCH 20/25] fix: check the scales before they are used for the
 fitting variable names

With --load_params and without --scales the validation failed with TypeError.
---
 src/climate_indices/__spi__.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/climate_indices/__spi__.py b/src/climate_indices/__spi__.py
index f936973..bfa108a 100644
--- a/src/climate_indices/__spi__.py
+++ b/src/climate_indices/__spi__.py
@@ -115,6 +115,16 @@ def _validate_args(args):
     expected_dimensions_grid = [("lat", "lon", "time"), ("time", "lat", "lon")]
     expected_dimensions_timeseries = [("time",)]
 
+    if args.scales is None:
+        msg = "Missing one or more time scales (missing --scales argument)"
+        _logger.error(msg)
+        raise ValueError(msg)
+
+    if any(n < 0 for n in args.scales):
+        msg = "One or more negative scale specified within --scales argument"
+        _logger.error(msg)
+        raise ValueError(msg)
+
     # for fitting parameters we can either compute and save or load from file, but not both
     if args.save_params:
         if args.load_params:
@@ -186,16 +196,6 @@ def _validate_args(args):
             "precipitation",
         )
 
-    if args.scales is None:
-        msg = "Missing one or more time scales (missing --scales argument)"
-        _logger.error(msg)
-        raise ValueError(msg)
-
-    if any(n < 0 for n in args.scales):
-        msg = "One or more negative scale specified within --scales argument"
-        _logger.error(msg)
-        raise ValueError(msg)
-
     return input_type
 
 
-- 
2.43.0


From e858679d04fda47d4db0831c8f4afcb8ec7e5cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:12 +0000
Subject: [PATCH 21/25] fix: reject PET computations for a time series input

Accepted by the argument validation, but then failed with KeyError: 'lat'.
---
 src/climate_indices/__main__.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index f5bf460..c51cf64 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -430,6 +430,16 @@ def _validate_args(args):
                     _logger.error(msg)
                     raise ValueError(msg)
 
+    # computing PET from temperature requires latitudes, which a time series doesn't have
+    if (
+        (input_type == InputType.timeseries)
+        and (args.netcdf_pet is None)
+        and (args.index in ["pet", "spei", "scaled", "palmers", "all"])
+    ):
+        msg = "PET can't be computed from the temperatures of a time series (no latitude), provide a PET file instead"
+        _logger.error(msg)
+        raise ValueError(msg)
+
     if args.index in ["spi", "spei", "scaled", "pnp", "all"]:
         if args.scales is None:
             msg = (
-- 
2.43.0


From 09b1c8c4a33bcc635e912eb594abb3c5a2bb5024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:25 +0000
Subject: [PATCH 22/25] fix: write daily indices for inputs with an incomplete
 final year

The final year is filled up to 366 days for the computation, but the days that
aren't part of the input were not removed from the results.
---
 src/climate_indices/__main__.py |  2 ++
 src/climate_indices/__spi__.py  | 21 +++++++--------------
 2 files changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index c51cf64..7f04fae 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -1083,6 +1083,8 @@ def _compute_write_index(keyword_arguments):
                 index_values,
                 keyword_arguments["data_start_year"],
             )
+            # cut off the days of an incomplete final year that aren't in the input
+            index_values = index_values[..., : dataset["time"].size]
 
         # create a new variable to contain the index values, assign into the dataset
         variable = xr.Variable(
diff --git a/src/climate_indices/__spi__.py b/src/climate_indices/__spi__.py
index bfa108a..29208ed 100644
--- a/src/climate_indices/__spi__.py
+++ b/src/climate_indices/__spi__.py
@@ -620,20 +620,9 @@ def _compute_write_index(keyword_arguments):
             keyword_arguments["periodicity"],
         )
 
-    # use the precipitation shape as the output shape for the index values
-    if keyword_arguments["periodicity"] == compute.Periodicity.monthly:
-        output_shape = ds_precip[keyword_arguments["var_name_precip"]].shape
-    elif keyword_arguments["periodicity"] == compute.Periodicity.daily:
-        # TODO convert the data to 366 days in order to
-        #  get the correct intermediate output shape
-        time_length_366day = utils.gregorian_length_as_366day(len(ds_precip["time"]), data_start_year)
-        output_shape = (
-            len(ds_precip["lat"]),
-            len(ds_precip["lon"]),
-            time_length_366day,
-        )
-    else:
-        raise ValueError(f'Unsupported periodicity argument value: {keyword_arguments["periodicity"]}')
+    # use the shape of the shared memory precipitation array as the output shape for
+    # the index values (in case of daily values this is the one with 366-day years)
+    output_shape = _global_shared_arrays[keyword_arguments["var_name_precip"]][_KEY_SHAPE]
 
     # add an array to hold index computation results
     # to our dictionary of shared memory arrays
@@ -762,6 +751,8 @@ def build_dataset_spi_grid(
             index_values,
             data_start_year,
         )
+        # cut off the days of an incomplete final year that aren't in the input
+        index_values = index_values[..., : ds_example["time"].size]
 
     # create a new variable to contain the SPI values, assign into the dataset
     var_attrs = _get_variable_attributes(distribution, scale, periodicity)
@@ -813,6 +804,8 @@ def build_dataset_spi_divisions(
             index_values,
             data_start_year,
         )
+        # cut off the days of an incomplete final year that aren't in the input
+        index_values = index_values[..., : ds_example["time"].size]
 
     # create a new variable to contain the SPI values, assign into the dataset
     var_attrs = _get_variable_attributes(distribution, scale, periodicity)
-- 
2.43.0


From 5dd002d979bc6262cac48970d685b746f78cb59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:25 +0000
Subject: [PATCH 23/25] fix: convert daily values of climate divisions into
 366-day years

As is already done for grids and time series, without it the conversion of
the results back into normal years failed.
---
 src/climate_indices/__main__.py | 38 +++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index 7f04fae..3381e92 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -638,12 +638,16 @@ def _drop_data_into_shared_arrays_grid(
 def _drop_data_into_shared_arrays_divisions(
     dataset: xr.Dataset,
     var_names: List[str],
+    periodicity: compute.Periodicity,
+    data_start_year: int,
 ) -> Tuple[int, ...]:
     """
     Drop data into shared arrays for use in the index computations.
 
     :param dataset:
     :param var_names:
+    :param periodicity:
+    :param data_start_year:
     :return:
     """
     output_shape = None
@@ -665,21 +669,36 @@ def _drop_data_into_shared_arrays_divisions(
             _logger.error(message)
             raise ValueError(message)
 
+        var_values = dataset[var_name].values
+
+        # convert daily values into 366-day years
+        if (periodicity == compute.Periodicity.daily) and (len(dims) == 2):
+            initial_year = int(str(dataset["time"][0].data)[0:4])
+            final_year = int(str(dataset["time"][-1].data)[0:4])
+            total_years = final_year - initial_year + 1
+            var_values = np.apply_along_axis(
+                utils.transform_to_366day,
+                len(dims) - 1,
+                var_values,
+                data_start_year,
+                total_years,
+            )
+
         # create a shared memory array, wrap it as a numpy array and
         # copy the data (values) from this variable's DataArray
-        shared_array = multiprocessing.Array("d", int(np.prod(dataset[var_name].shape)))
-        shared_array_np = np.frombuffer(shared_array.get_obj()).reshape(dataset[var_name].shape)
-        np.copyto(shared_array_np, dataset[var_name].values)
+        shared_array = multiprocessing.Array("d", int(np.prod(var_values.shape)))
+        shared_array_np = np.frombuffer(shared_array.get_obj()).reshape(var_values.shape)
+        np.copyto(shared_array_np, var_values)
 
         # add to the dictionary of arrays
         _global_shared_arrays[var_name] = {
             _KEY_ARRAY: shared_array,
-            _KEY_SHAPE: dataset[var_name].shape,
+            _KEY_SHAPE: var_values.shape,
         }
 
         # we know we'll want the output for divisions to be 2-D
-        if len(dataset[var_name].shape) == 2:
-            output_shape = dataset[var_name].shape
+        if len(var_values.shape) == 2:
+            output_shape = var_values.shape
 
         # drop the variable from the dataset (we're assuming this frees the memory)
         dataset = dataset.drop_vars(names=[var_name])
@@ -812,7 +831,12 @@ def _compute_write_index(keyword_arguments):
                 raise ValueError(f"Unsupported PET units: {dataset[pet_var_name].units}")
 
     if input_type == InputType.divisions:
-        output_shape = _drop_data_into_shared_arrays_divisions(dataset, input_var_names)
+        output_shape = _drop_data_into_shared_arrays_divisions(
+            dataset,
+            input_var_names,
+            keyword_arguments["periodicity"],
+            keyword_arguments["data_start_year"],
+        )
     else:
         output_shape = _drop_data_into_shared_arrays_grid(
             dataset,
-- 
2.43.0


From a785c142a4258ebbd4429de305b84c08806b059f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 24/25] fix: don't align files on their slightly different
 coordinates

Coordinates are accepted if they match within a tolerance, but the files were then
combined by an outer join, with each of the two coordinate values as a location.
---
 src/climate_indices/__main__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index 3381e92..4e342e4 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -739,7 +739,9 @@ def _compute_write_index(keyword_arguments):
         else:
             raise ValueError(f"Invalid 'input_type' keyword argument: {input_type}")
     # Since multiple variables can be in the same file, de-duplicate the filelist.
-    dataset = xr.open_mfdataset(list(set(files)), chunks=chunks)
+    # The coordinates of the files have been found to match (within a tolerance),
+    # so use those of one of the files rather than aligning on slightly different values.
+    dataset = xr.open_mfdataset(list(set(files)), chunks=chunks, join="override")
     output_chunksizes = {}
     if keyword_arguments["chunksizes"] == "input":
         # Find the first variable with chunksizes set and use that
-- 
2.43.0


From 78bcd1b9fc127dc37f579e937dd1b8b33f119ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 25/25] fix: divisions files without latitudes can be used
 where no latitude is needed

---
 src/climate_indices/__main__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/climate_indices/__main__.py b/src/climate_indices/__main__.py
index 4e342e4..38ce908 100644
--- a/src/climate_indices/__main__.py
+++ b/src/climate_indices/__main__.py
@@ -762,8 +762,8 @@ def _compute_write_index(keyword_arguments):
         input_var_names.append(keyword_arguments["var_name_temp"])
     if "var_name_pet" in keyword_arguments:
         input_var_names.append(keyword_arguments["var_name_pet"])
-    # keep the latitude variable if we're dealing with divisions
-    if input_type == InputType.divisions:
+    # keep the latitude variable if we're dealing with divisions (only PET requires it)
+    if (input_type == InputType.divisions) and ("lat" in dataset.variables):
         input_var_names.append("lat")
     for var in dataset.data_vars:
         if var not in input_var_names:
-- 
2.43.0

