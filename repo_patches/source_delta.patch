From b370a38cfdec1c43e2f36201eaaf1d8042e05c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:39 +0000
Subject: [PATCH 01/97] fix: absolute percentage errors are not negative for
 negative actual values

---
 kats/metrics/metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kats/metrics/metrics.py b/kats/metrics/metrics.py
index 940e87e..a1b97f8 100644
--- a/kats/metrics/metrics.py
+++ b/kats/metrics/metrics.py
@@ -275,10 +275,10 @@ def _abs_pct_err(
 ) -> npt.NDArray:
     err = np.abs(y_true - y_pred)
     if sample_weight is None:
-        return _safe_divide(err, y_true)
+        return _safe_divide(err, np.abs(y_true))
 
     err = np.multiply(err, sample_weight)
-    return _safe_divide(err, y_true * np.nansum(sample_weight))
+    return _safe_divide(err, np.abs(y_true) * np.nansum(sample_weight))
 
 
 def absolute_percentage_error(
-- 
2.43.0


From 070d40f1fe4fd13b9d869d286b1e9f05a430bd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:51 +0000
Subject: [PATCH 02/97] fix: percentage errors of missing values are missing,
 not zero

---
 kats/metrics/metrics.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/kats/metrics/metrics.py b/kats/metrics/metrics.py
index a1b97f8..d76eb1a 100644
--- a/kats/metrics/metrics.py
+++ b/kats/metrics/metrics.py
@@ -155,9 +155,7 @@ def _safe_divide(
     Returns:
         The numerator divided by the denominator.
     """
-    nans = np.isnan(num)
-    if ~np.isscalar(denom):
-        nans &= np.isnan(denom)
+    nans = np.isnan(num) | np.isnan(denom)
     with np.errstate(divide="ignore", invalid="ignore"):
         result = np.divide(num, denom)
 
-- 
2.43.0


From 2299b6861478877bf0cfafd66e4b6aad9db1cc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:06 +0000
Subject: [PATCH 03/97] fix: data partitions accept max_core at or above the
 number of cores

---
 kats/utils/datapartition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kats/utils/datapartition.py b/kats/utils/datapartition.py
index 2515fce..4d43acb 100644
--- a/kats/utils/datapartition.py
+++ b/kats/utils/datapartition.py
@@ -65,12 +65,13 @@ class DataPartitionBase(ABC):
             total_cores = cpu_count()
             if max_core is None:
                 self.max_core: int = max((total_cores - 1) // 2, 1)
-            elif isinstance(max_core, int) and max_core > 0 and max_core < total_cores:
+            elif isinstance(max_core, int) and max_core > 0 and max_core <= total_cores:
                 self.max_core = max_core
             elif isinstance(max_core, int) and max_core > total_cores:
                 logging.warning(
                     f"`max_core` is larger than maximum available cores ({total_cores}) and sets `max_core = {total_cores}`."
                 )
+                self.max_core = total_cores
             else:
                 msg = f"max_core should be a positive integer in [1, {total_cores}] but receives {max_core}."
                 logging.error(msg)
-- 
2.43.0


From cba00a45363dced66074839d1a3378ed005285ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:06 +0000
Subject: [PATCH 04/97] fix: data partitions refuse invalid fractions, sizes
 and numbers of steps

---
 kats/utils/datapartition.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kats/utils/datapartition.py b/kats/utils/datapartition.py
index 4d43acb..739323b 100644
--- a/kats/utils/datapartition.py
+++ b/kats/utils/datapartition.py
@@ -211,8 +211,10 @@ class SimpleDataPartition(DataPartitionBase):
             _raise_error(info)
         if (frac is not None) and (frac <= 0 or frac >= 1):
             info = f"`{frac_name}` should be a float in (0, 1), but receives {frac}."
+            _raise_error(info)
         if (size is not None) and (size <= 0):
             info = f"`{size_name}` should be a positive integer, but receives {size}."
+            _raise_error(info)
         return
 
     def _single_train_test_split(
@@ -404,6 +406,7 @@ class RollingOriginDataParition(DataPartitionBase):
             _raise_error(msg)
         if expanding_steps < 1:
             msg = f"`expanding_steps` should be a positive integer but receives {expanding_steps}."
+            _raise_error(msg)
         return start_train_frac, test_frac, window_frac, expanding_steps
 
     def _single_train_test_split(
-- 
2.43.0


From a17e9ada9ffaea028eb918c503fbd41bb1189877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:08 +0000
Subject: [PATCH 05/97] fix: backtesters raise the errors they log

---
 kats/utils/backtesters.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/kats/utils/backtesters.py b/kats/utils/backtesters.py
index 470c165..15ba604 100644
--- a/kats/utils/backtesters.py
+++ b/kats/utils/backtesters.py
@@ -124,7 +124,7 @@ def _get_scorer(
                 methods.append((error, core_metric(error)))
             except Exception as e:
                 msg = f"Unsupported error function {error} with error message {e}."
-                _log_error(msg)
+                raise _log_error(msg)
 
         # define scorer function
         # pyre-fixme Incompatible return type [7]: Expected `Optional[typing.Callable[[DataFrame], Dict[str, float]]]` but got `Union[Metric, MultiOutputMetric, WeightedMetric]`.
@@ -141,7 +141,7 @@ def _get_scorer(
         return scorer
 
     msg = "Input `scorer` is invalid."
-    _log_error(msg)
+    raise _log_error(msg)
 
 
 def kats_units_forecaster(
@@ -258,7 +258,7 @@ class GenericBacktester(ABC):
         # get error metric names
         if not valid_fold_errors:
             msg = "No valid evaluation available, i.e., every evaluation failed."
-            _log_error(msg)
+            raise _log_error(msg)
 
         error_metrics = list(valid_fold_errors[0].keys())
         base_error_score = {em: self.error_score for em in error_metrics}
@@ -274,7 +274,7 @@ class GenericBacktester(ABC):
         self, results: List[Tuple[pd.DataFrame, Dict[str, float]]]
     ) -> BacktesterResult:
         if not results:
-            _log_error("Fail to get evaluation results!")
+            raise _log_error("Fail to get evaluation results!")
 
         raw_errors = [res[0] for res in results]
         raw_fold_errors = [res[1] for res in results]
@@ -307,7 +307,7 @@ class GenericBacktester(ABC):
         if self.backtest_result is not None:
             return self.backtest_result
         msg = "Please execute function `run_backtester()` first."
-        _log_error(msg)
+        raise _log_error(msg)
 
 
 class KatsSimpleBacktester(GenericBacktester):
-- 
2.43.0


From 48ac5c7de057e1a7eafb10b00f3c7a73453d2495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:08 +0000
Subject: [PATCH 06/97] fix: a second run of a backtest does not add to the
 errors of the first

---
 kats/utils/backtesters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kats/utils/backtesters.py b/kats/utils/backtesters.py
index 15ba604..29f6c7c 100644
--- a/kats/utils/backtesters.py
+++ b/kats/utils/backtesters.py
@@ -636,6 +636,9 @@ class BackTesterParent(ABC):
     def run_backtest(self) -> None:
         """Executes backtest."""
 
+        self.results = []
+        self.raw_errors = []
+        self.errors = {name: 0.0 for name in self.errors}
         self._build_and_train_models(self._create_train_test_splits())
         self.calc_error()
 
-- 
2.43.0


From 0953f01e76f0653268346af4315046977db64475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:01 +0000
Subject: [PATCH 07/97] fix: linear and quadratic models forecast a single step

---
 kats/models/linear_model.py    | 2 +-
 kats/models/quadratic_model.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kats/models/linear_model.py b/kats/models/linear_model.py
index 93b3123..5646e9a 100644
--- a/kats/models/linear_model.py
+++ b/kats/models/linear_model.py
@@ -124,7 +124,7 @@ class LinearModel(Model[LinearModelParams]):
         else:
             self._X_future = list(range(self.past_length, self.past_length + steps))
 
-        X_fcst = sm.add_constant(self._X_future)
+        X_fcst = sm.add_constant(self._X_future, has_constant="add")
         if self.model is None:
             raise ValueError("Call fit() before predict()")
         else:
diff --git a/kats/models/quadratic_model.py b/kats/models/quadratic_model.py
index c7227ad..fe49193 100644
--- a/kats/models/quadratic_model.py
+++ b/kats/models/quadratic_model.py
@@ -134,7 +134,7 @@ class QuadraticModel(Model[QuadraticModelParams]):
             _X_future = list(range(past_length, past_length + steps))
         self._X_future = _X_future
         _X_fcst = np.column_stack([_X_future, np.power(_X_future, 2)])
-        X_fcst = sm.add_constant(_X_fcst)
+        X_fcst = sm.add_constant(_X_fcst, has_constant="add")
         y_fcst = model.predict(X_fcst)
         sdev, y_fcst_lower, y_fcst_upper = wls_prediction_std(
             self.model, exog=X_fcst, alpha=self.params.alpha
-- 
2.43.0


From 295d36c4240fed563200d009ade6e077d8ea635c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:51 +0000
Subject: [PATCH 08/97] fix: ARIMA forecasts honour the significance level

---
 kats/models/arima.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kats/models/arima.py b/kats/models/arima.py
index 8353cbd..94ede1a 100644
--- a/kats/models/arima.py
+++ b/kats/models/arima.py
@@ -264,7 +264,7 @@ class ARIMAModel(Model[ARIMAParams]):
             steps,
             exog=self.fcst_exog,
             signal_only=False,
-        ).summary_frame()
+        ).summary_frame(alpha=self.alpha)
         logging.info("Generated forecast data from arima model.")
 
         self.y_fcst = fcst["mean"].ravel()
-- 
2.43.0


From a0f7c1f09a4752edfd7a86f47db6bc80508d3335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:51 +0000
Subject: [PATCH 09/97] fix: SARIMA fitted values honour the significance level

---
 kats/models/sarima.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kats/models/sarima.py b/kats/models/sarima.py
index 53ba538..aa81d15 100644
--- a/kats/models/sarima.py
+++ b/kats/models/sarima.py
@@ -366,7 +366,7 @@ class SARIMAModel(Model[SARIMAParams]):
         if include_history:
             # generate historical fit
             history_fcst = model.get_prediction(0)
-            history_ci = history_fcst.conf_int()
+            history_ci = history_fcst.conf_int(alpha=self.alpha)
             if ("lower" in history_ci.columns[0]) and (
                 "upper" in history_ci.columns[1]
             ):
-- 
2.43.0


From d32a34e0151da949e50da331dc5db8d59156ba5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:51 +0000
Subject: [PATCH 10/97] fix: Bayesian VAR extrapolates its time trend and can
 predict history twice

---
 kats/models/bayesian_var.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/kats/models/bayesian_var.py b/kats/models/bayesian_var.py
index 145eadf..9259c57 100644
--- a/kats/models/bayesian_var.py
+++ b/kats/models/bayesian_var.py
@@ -411,8 +411,8 @@ class BayesianVAR(m.Model[BayesianVARParams]):
 
         if include_history:
             times = self.data.time.iloc[self.p : T].tolist()
-            forecast_vals = self.forecast_vals
-            assert forecast_vals is not None
+            assert self.forecast_vals is not None
+            forecast_vals = list(self.forecast_vals)
         else:
             times = []
             forecast_vals = []
@@ -428,9 +428,8 @@ class BayesianVAR(m.Model[BayesianVARParams]):
             )
             assert len(ahead_times) == steps
 
-            ahead_time = X_ahead[np.newaxis, :, -1]
             for step, time in zip(range(T, T + steps), ahead_times):
-                X_ahead = np.concatenate([X_ahead, ahead_time + step], axis=1)
+                X_ahead = np.concatenate([X_ahead, np.array([[step]])], axis=1)
                 look_ahead_pred = self._look_ahead_step(X_ahead, Y_curr)
 
                 if verbose:
-- 
2.43.0


From 96767bd4fa3c28b37000738b16d4691ee42d2f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:33 +0000
Subject: [PATCH 11/97] fix: STLF puts the fitted seasonality back on
 historical forecasts

---
 kats/models/stlf.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/kats/models/stlf.py b/kats/models/stlf.py
index 7ff9580..aba9f48 100644
--- a/kats/models/stlf.py
+++ b/kats/models/stlf.py
@@ -344,9 +344,11 @@ class STLFModel(Model[STLFParams]):
 
         # re-seasonalize
         m = self.params.m
-        rep = math.trunc(1 + fcst.shape[0] / m)
+        rep = math.trunc(1 + steps / m)
 
-        seasonality = decomp["seasonal"].value[-m:]
+        seasonality = np.tile(decomp["seasonal"].value[-m:], rep)[:steps]
+        if include_history:
+            seasonality = np.concatenate([decomp["seasonal"].value, seasonality])
 
         self.y_fcst = self.reseasonal_operator(
             # pyre-fixme[6]: For 2nd argument expected `Union[DataFrame, Series]`
@@ -354,7 +356,7 @@ class STLFModel(Model[STLFParams]):
             fcst.fcst,
             # pyre-fixme[6]: For 2nd argument expected `Union[DataFrame, Series]`
             #  but got `ndarray[Any, dtype[Any]]`.
-            np.tile(seasonality, rep)[: fcst.shape[0]],
+            seasonality,
         )
         if ("fcst_lower" in fcst.columns) and ("fcst_upper" in fcst.columns):
             self.fcst_lower = self.reseasonal_operator(
@@ -363,7 +365,7 @@ class STLFModel(Model[STLFParams]):
                 fcst.fcst_lower,
                 # pyre-fixme[6]: For 2nd argument expected `Union[DataFrame,
                 #  Series]` but got `ndarray[Any, dtype[Any]]`.
-                np.tile(seasonality, rep)[: fcst.shape[0]],
+                seasonality,
             )
             self.fcst_upper = self.reseasonal_operator(
                 # pyre-fixme[6]: For 2nd argument expected `Union[DataFrame,
@@ -371,7 +373,7 @@ class STLFModel(Model[STLFParams]):
                 fcst.fcst_upper,
                 # pyre-fixme[6]: For 2nd argument expected `Union[DataFrame,
                 #  Series]` but got `ndarray[Any, dtype[Any]]`.
-                np.tile(seasonality, rep)[: fcst.shape[0]],
+                seasonality,
             )
         logging.info("Generated forecast data from STLF model.")
         logging.debug("Forecast data: {fcst}".format(fcst=self.y_fcst))
-- 
2.43.0


From 0ca0e3bfa2585c57ea01b89f525e25be7a5d9a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:33 +0000
Subject: [PATCH 12/97] fix: theta model without usable seasonality is not
 reseasonalized

---
 kats/models/theta.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kats/models/theta.py b/kats/models/theta.py
index e09d435..ee04b8c 100644
--- a/kats/models/theta.py
+++ b/kats/models/theta.py
@@ -124,6 +124,7 @@ class ThetaModel(Model[ThetaParams]):
                 logging.info(
                     "Seasonal indexes equal to zero. Using non-seasonal Theta method"
                 )
+                self.seasonal = False
             else:
                 deseas_data.value = deseas_data.value / decomp["seasonal"].value
         self.decomp = decomp
-- 
2.43.0


From 3dcb9e373b56db92328a6b4318a86a3ee6630538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:56 +0000
Subject: [PATCH 13/97] fix: Kats ensemble weights seasonal fits by the error
 metric asked for

---
 kats/models/ensemble/kats_ensemble.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kats/models/ensemble/kats_ensemble.py b/kats/models/ensemble/kats_ensemble.py
index 7ccfb0b..2c5fda8 100644
--- a/kats/models/ensemble/kats_ensemble.py
+++ b/kats/models/ensemble/kats_ensemble.py
@@ -381,6 +381,7 @@ class KatsEnsemble(Model):
                 data=desea_data,
                 models=model_params,
                 should_auto_backtest=auto_backtesting,
+                err_method=err_method,
             )
         else:
             # fit models on the original data
-- 
2.43.0


From 0d0eca4679b7963d2899301c7811d535c8d3277e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:03 +0000
Subject: [PATCH 14/97] fix: Kats ensemble decomposes with the seasonality
 length it was given

---
 kats/models/ensemble/kats_ensemble.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/kats/models/ensemble/kats_ensemble.py b/kats/models/ensemble/kats_ensemble.py
index 2c5fda8..d75b2f9 100644
--- a/kats/models/ensemble/kats_ensemble.py
+++ b/kats/models/ensemble/kats_ensemble.py
@@ -163,7 +163,9 @@ class KatsEnsemble(Model):
 
     @staticmethod
     def deseasonalize(
-        data: TimeSeriesData, decomposition_method: str
+        data: TimeSeriesData,
+        decomposition_method: str,
+        seasonality_length: Optional[int] = None,
     ) -> Tuple[TimeSeriesData, TimeSeriesData]:
         """STL decomposition to given TimeSeriesData
 
@@ -172,12 +174,15 @@ class KatsEnsemble(Model):
         Args:
             data: :class:`kats.consts.TimeSeriesData`, input time series data
             decomposition_method: the specific method for decomposition
+            seasonality_length: the length of seasonality, inferred if None
 
         Returns:
             Tuple of seasonal data and de-seasonalized data
         """
         # create decomposer for time series decomposition
-        decomposer = TimeSeriesDecomposition(data, decomposition_method)
+        decomposer = TimeSeriesDecomposition(
+            data, decomposition_method, period=seasonality_length
+        )
         decomp = decomposer.decomposer()
 
         sea_data = copy(decomp["seasonal"])
@@ -364,6 +369,7 @@ class KatsEnsemble(Model):
                 # pyrefly: ignore [bad-argument-type]
                 self.data,
                 self.decomposition_method,
+                self.params["seasonality_length"],
             )
             self.sea_data = sea_data
             self.desea_data = desea_data
@@ -494,6 +500,7 @@ class KatsEnsemble(Model):
                 # pyrefly: ignore [bad-argument-type]
                 self.data,
                 self.decomposition_method,
+                self.params["seasonality_length"],
             )
             self.sea_data = sea_data
             self.desea_data = desea_data
-- 
2.43.0


From 4f4f71b3a3bef917667c0ce1122a079e6e175416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:03 +0000
Subject: [PATCH 15/97] fix: Kats ensemble fits its seasonal models on the
 original data

---
 kats/models/ensemble/kats_ensemble.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/kats/models/ensemble/kats_ensemble.py b/kats/models/ensemble/kats_ensemble.py
index d75b2f9..035f9fb 100644
--- a/kats/models/ensemble/kats_ensemble.py
+++ b/kats/models/ensemble/kats_ensemble.py
@@ -375,20 +375,31 @@ class KatsEnsemble(Model):
             self.desea_data = desea_data
 
             # we created extra models
-            given_models = copy(self.params["models"].models)
+            extra_models = []
             for m in self.params["models"].models:
                 if m.model_name.lower() in SMODELS.keys():
                     tmp = copy(m)
                     tmp.model_name = m.model_name + "_smodel"
-                    given_models.append(tmp)
+                    extra_models.append(tmp)
 
-            self.model_params = model_params = EnsembleParams(given_models)
+            self.model_params = model_params = EnsembleParams(
+                self.params["models"].models + extra_models
+            )
             self.fitted, self.weights = fitExecutor(
                 data=desea_data,
                 models=model_params,
                 should_auto_backtest=auto_backtesting,
                 err_method=err_method,
             )
+            if extra_models:
+                # the extra models forecast the original data
+                extra_fitted, _ = fitExecutor(
+                    data=self.data,
+                    models=EnsembleParams(extra_models),
+                    should_auto_backtest=False,
+                    err_method=err_method,
+                )
+                self.fitted.update(extra_fitted)
         else:
             # fit models on the original data
             self.model_params = model_params = EnsembleParams(
-- 
2.43.0


From 3d7f1b00ce876a7d63f3f941e1e0ea7b9c8124dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:58 +0000
Subject: [PATCH 16/97] fix: VAR chooses its lags for each series and leaves
 its parameters alone

---
 kats/models/var.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kats/models/var.py b/kats/models/var.py
index 4586bea..0061f9d 100644
--- a/kats/models/var.py
+++ b/kats/models/var.py
@@ -104,9 +104,10 @@ class VARModel(Model[VARParams]):
         """Fit VAR model"""
 
         logging.debug("Call fit()")
-        if self.params.maxlags is None:
+        maxlags = self.params.maxlags
+        if maxlags is None:
             # pyre-fixme[16]: `Optional` has no attribute `time`.
-            self.params.maxlags = int(12 * (len(self.data.time) / 100.0) ** (1.0 / 4))
+            maxlags = int(12 * (len(self.data.time) / 100.0) ** (1.0 / 4))
 
         # create VAR model
         # pyre-fixme[16]: `Optional` has no attribute `value`.
@@ -115,7 +116,7 @@ class VARModel(Model[VARParams]):
 
         # fit VAR model
         self.model = model = var.fit(
-            maxlags=self.params.maxlags,
+            maxlags=maxlags,
             method=self.params.method,
             ic=self.params.ic,
             verbose=self.params.verbose,
-- 
2.43.0


From d97c347160a9937ed9772342aee7568032c49633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:49 +0000
Subject: [PATCH 17/97] fix: parallel chains of the ensemble prediction
 interval draw different noise

---
 kats/utils/ensemble_predict_interval.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/kats/utils/ensemble_predict_interval.py b/kats/utils/ensemble_predict_interval.py
index 970be60..42c752f 100644
--- a/kats/utils/ensemble_predict_interval.py
+++ b/kats/utils/ensemble_predict_interval.py
@@ -224,11 +224,19 @@ class ensemble_predict_interval:
         self.error_matrix_flag = True
 
     def _projection_single(
-        self, idx: int, step: int = 30, rolling_based: bool = False
+        self,
+        idx: int,
+        step: int = 30,
+        rolling_based: bool = False,
+        seed: Optional[int] = None,
     ) -> Tuple[int, npt.NDArray]:
         """
         Get forecasting for future steps for one chain.
         """
+        if seed is not None:
+            # forked workers share the random state of their parent
+            np.random.seed(seed)
+
         future_block = step // self.block_size + int(step % self.block_size > 0)
 
         onechain_fcst = np.zeros(future_block * self.block_size)
@@ -289,7 +297,11 @@ class ensemble_predict_interval:
         ensemble_fcst = np.zeros([self.ensemble_size, step])
         if self.multiprocessing:
             num_process = max(min(self.ensemble_size, (cpu_count() - 1) // 2), 1)
-            ipt_list = [[i, step, rolling_based] for i in range(self.ensemble_size)]
+            seeds = np.random.randint(2**31 - 1, size=self.ensemble_size)
+            ipt_list = [
+                [i, step, rolling_based, int(seeds[i])]
+                for i in range(self.ensemble_size)
+            ]
             with Pool(processes=num_process) as pool:
                 records = pool.starmap(self._projection_single, ipt_list)
                 pool.close()
-- 
2.43.0


From 4fa5f152b3ca9b5bc9df8d15d7163d1240133e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:29 +0000
Subject: [PATCH 18/97] fix: multivariate CUSUM adds the likelihood gains of
 both sides of a change

The gain after the change was subtracted from the gain before it, so changes
in the first half of a series had a negative ratio and were never detected.
---
 kats/detectors/cusum_detection.py | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/kats/detectors/cusum_detection.py b/kats/detectors/cusum_detection.py
index 8949bf0..e7dd2ed 100644
--- a/kats/detectors/cusum_detection.py
+++ b/kats/detectors/cusum_detection.py
@@ -821,24 +821,19 @@ class MultiCUSUMDetector(CUSUMDetector):
     ) -> float:
         mu_tilde = np.mean(ts, axis=0)
         sigma_pooled = np.cov(ts, rowvar=False)
-        llr = (
-            -2
-            * (
-                self._log_llr_multi(
-                    ts[: (changepoint + 1)],
-                    mu_tilde,
-                    sigma_pooled,
-                    mu0,
-                    sigma0,  # pyre-fixme
-                )
-                - self._log_llr_multi(
-                    ts[(changepoint + 1) :],
-                    mu_tilde,
-                    sigma_pooled,
-                    mu1,
-                    sigma1,  # pyre-fixme
-                )
-            )
+        # _log_llr_multi gives twice the log likelihood gain of each part
+        llr = self._log_llr_multi(
+            ts[: (changepoint + 1)],
+            mu_tilde,
+            sigma_pooled,
+            mu0,
+            sigma0,  # pyre-fixme
+        ) + self._log_llr_multi(
+            ts[(changepoint + 1) :],
+            mu_tilde,
+            sigma_pooled,
+            mu1,
+            sigma1,  # pyre-fixme
         )
         return llr
 
-- 
2.43.0


From 703b5c22b2986caab1f59eed520fed09d55d444d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:46 +0000
Subject: [PATCH 19/97] fix: CUSUM magnitude comparison works for windows that
 end with the data

The end of the interest window was looked up as a time although it may be
one past the data, as it always is in CUSUMDetectorModel, and every earlier
day had to hold a whole window.
---
 kats/detectors/cusum_detection.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/kats/detectors/cusum_detection.py b/kats/detectors/cusum_detection.py
index e7dd2ed..d181179 100644
--- a/kats/detectors/cusum_detection.py
+++ b/kats/detectors/cusum_detection.py
@@ -494,18 +494,26 @@ class CUSUMDetector(Detector):
         )
 
         comparable_mag = 0
+        compared_days = 0
 
         for i in range(days):
+            # the interest window excludes its end, which may be past the data
             start_time = time[interest_window[0]] - pd.Timedelta(f"{i}D")
-            end_time = time[interest_window[1]] - pd.Timedelta(f"{i}D")
-            start_idx = time[time == start_time].index[0]
-            end_idx = time[time == end_time].index[0]
-
-            hist_int = self._get_time_series_magnitude(ts[start_idx:end_idx])
+            last_time = time[interest_window[1] - 1] - pd.Timedelta(f"{i}D")
+            start = time[time == start_time]
+            last = time[time == last_time]
+            if len(start) == 0 or len(last) == 0:
+                # no such window on that day
+                continue
+
+            compared_days += 1
+            hist_int = self._get_time_series_magnitude(
+                ts[start.index[0] : last.index[0] + 1]
+            )
             if mag_int / hist_int >= magnitude_ratio:
                 comparable_mag += 1
 
-        return comparable_mag / days
+        return comparable_mag / compared_days if compared_days else 0.0
 
     def _get_time_series_magnitude(self, ts: npt.NDArray) -> float:
         """
-- 
2.43.0


From d8f177a20b2d5316d24fa747cbb180def832b707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:46 +0000
Subject: [PATCH 20/97] fix: CUSUM model scans remaining data without an
 earlier point

---
 kats/detectors/cusum_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kats/detectors/cusum_model.py b/kats/detectors/cusum_model.py
index a9941ff..6ad0b7b 100644
--- a/kats/detectors/cusum_model.py
+++ b/kats/detectors/cusum_model.py
@@ -1048,7 +1048,8 @@ class CUSUMDetectorModel(DetectorModel):
         if direction == "right":
             return np.argwhere((tsd.time >= time).values).min()
         elif direction == "left":
-            return np.argwhere((tsd.time < time).values).max()
+            # 0 if the whole window lies after the start of the data
+            return np.argwhere((tsd.time < time).values).max(initial=0)
         else:
             raise InternalError("direction can only be right or left")
 
-- 
2.43.0


From d886e9ea0c6170b85b88adcb606d49e1cb785c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:55 +0000
Subject: [PATCH 21/97] fix: CUSUM alerts clear when the baseline did not vary

---
 kats/detectors/cusum_model.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/kats/detectors/cusum_model.py b/kats/detectors/cusum_model.py
index 6ad0b7b..e286987 100644
--- a/kats/detectors/cusum_model.py
+++ b/kats/detectors/cusum_model.py
@@ -349,13 +349,12 @@ class CUSUMDetectorModel(DetectorModel):
             check_increase = delta_std_ratio if increase else np.inf
             check_decrease = 0 if decrease else np.inf
 
-        return (
-            # pyre-fixme[61]: `check_decrease` is undefined, or not always defined.
-            self.pre_mean - check_decrease * self.pre_std
-            <= cur_mean
-            # pyre-fixme[61]: `check_increase` is undefined, or not always defined.
-            <= self.pre_mean + check_increase * self.pre_std
-        )
+        # a direction that is not monitored has no limit, also when pre_std is 0
+        # pyre-fixme[61]: `check_decrease` is undefined, or not always defined.
+        down = np.inf if np.isinf(check_decrease) else check_decrease * self.pre_std
+        # pyre-fixme[61]: `check_increase` is undefined, or not always defined.
+        up = np.inf if np.isinf(check_increase) else check_increase * self.pre_std
+        return self.pre_mean - down <= cur_mean <= self.pre_mean + up
 
     def _fit_vec_row(
         self,
@@ -1248,9 +1247,12 @@ class VectorizedCUSUMDetectorModel(CUSUMDetectorModel):
                 cur_decrease = 0 if decrease else np.inf
             check_increase = np.append(check_increase, cur_increase)
             check_decrease = np.append(check_decrease, cur_decrease)
-        return (self.pre_mean - check_decrease * self.pre_std <= cur_mean) * (
-            cur_mean <= self.pre_mean + check_increase * self.pre_std
-        )
+        # a direction that is not monitored has no limit, also when pre_std is 0
+        down = np.where(np.isinf(check_decrease), 0, check_decrease) * self.pre_std
+        up = np.where(np.isinf(check_increase), 0, check_increase) * self.pre_std
+        down = down.mask(np.isinf(check_decrease), np.inf)
+        up = up.mask(np.isinf(check_increase), np.inf)
+        return (self.pre_mean - down <= cur_mean) * (cur_mean <= self.pre_mean + up)
 
     def _fit(
         self,
-- 
2.43.0


From f664b70702ef427b59186930c270c62fd6e6a561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:14 +0000
Subject: [PATCH 22/97] fix: spikes of columns whose name is not an identifier

---
 kats/detectors/detector_consts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kats/detectors/detector_consts.py b/kats/detectors/detector_consts.py
index da24b7d..7efed7c 100644
--- a/kats/detectors/detector_consts.py
+++ b/kats/detectors/detector_consts.py
@@ -83,7 +83,7 @@ class ChangePointInterval:
         if self.num_series == 1:
             df["z_score"] = (df.value - self.mean_val) / np.sqrt(self.variance_val)
 
-            spike_df = df.query(f"z_score >={self.spike_std_threshold}")
+            spike_df = df[df["z_score"] >= self.spike_std_threshold]
             return [
                 SingleSpike(
                     time=row["time"], value=row["value"], n_sigma=row["z_score"]
@@ -100,7 +100,7 @@ class ChangePointInterval:
                     )
                 df[f"z_score_{c}"] = (df[c] - mean_val[i]) / np.sqrt(variance_val[i])
 
-                spike_df = df.query(f"z_score_{c} >={self.spike_std_threshold}")
+                spike_df = df[df[f"z_score_{c}"] >= self.spike_std_threshold]
 
                 if spike_df.shape[0] == 0:
                     continue
-- 
2.43.0


From 4ca7c2a30d595627c94793e8faaa93b633d23dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:14 +0000
Subject: [PATCH 23/97] fix: spikes of an interval are recomputed when its data
 change

---
 kats/detectors/detector_consts.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kats/detectors/detector_consts.py b/kats/detectors/detector_consts.py
index 7efed7c..cfbca8e 100644
--- a/kats/detectors/detector_consts.py
+++ b/kats/detectors/detector_consts.py
@@ -74,6 +74,7 @@ class ChangePointInterval:
             (all_data_df.time >= self.start_time) & (all_data_df.time < self.end_time)
         ]
         self.data_df = all_data_df
+        self._all_spikes = None
 
     def _detect_spikes(self) -> Union[List[SingleSpike], List[List[SingleSpike]]]:
         df = self.data_df
@@ -129,6 +130,7 @@ class ChangePointInterval:
         self.data_df = new_data_df.loc[
             (new_data_df.time >= self.start_time) & (new_data_df.time < self.end_time)
         ]
+        self._all_spikes = None
 
     @property
     def start_time_str(self) -> str:
-- 
2.43.0


From 96ac816c4c815c3d4a0e69667a2929595932d72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:14 +0000
Subject: [PATCH 24/97] fix: updating a univariate response keeps its value
 name

---
 kats/detectors/detector_consts.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kats/detectors/detector_consts.py b/kats/detectors/detector_consts.py
index cfbca8e..b6bfdf1 100644
--- a/kats/detectors/detector_consts.py
+++ b/kats/detectors/detector_consts.py
@@ -624,7 +624,12 @@ class AnomalyResponse:
         time_df = pd.concat([ts.time.iloc[1:], pd.Series(time, copy=False)])
         time_df.reset_index(drop=True, inplace=True)
         if self.num_series == 1:
-            value_df = pd.concat([ts.value.iloc[1:], pd.Series(value, copy=False)])
+            value_df = pd.concat(
+                [
+                    ts.value.iloc[1:],
+                    pd.Series(value, name=ts.value.name, copy=False),
+                ]
+            )
             value_df.reset_index(drop=True, inplace=True)
             # pyre-fixme[6]: For 1st argument expected `Union[None, DatetimeIndex,
             #  Series]` but got `DataFrame`.
-- 
2.43.0


From 7d98cde9892f873ae334d22e841dc8f22f1a7e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:45 +0000
Subject: [PATCH 25/97] fix: StatSigDetectorModel lost all scores when the
 split leaves no remainder

---
 kats/detectors/stat_sig_detector.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/kats/detectors/stat_sig_detector.py b/kats/detectors/stat_sig_detector.py
index 342d4ff..78bdbd9 100644
--- a/kats/detectors/stat_sig_detector.py
+++ b/kats/detectors/stat_sig_detector.py
@@ -518,45 +518,46 @@ class StatSigDetectorModel(DetectorModel):
         assert response_predicted_ts is not None
 
         start_point = len(data_history)
+        end = -remaining if remaining else None
         res_score_val = pd.Series(
             pd.DataFrame(anom.scores.value, copy=False)
             .iloc[start_point:, :]
-            .values.T.flatten()[:-remaining],
+            .values.T.flatten()[:end],
             copy=False,
         )
 
         res_predicted_ts_val = pd.Series(
             pd.DataFrame(anom_predicted_ts.value, copy=False)
             .iloc[start_point:, :]
-            .values.T.flatten()[:-remaining],
+            .values.T.flatten()[:end],
             copy=False,
         )
 
         res_anomaly_magnitude_ts_val = pd.Series(
             pd.DataFrame(anom.anomaly_magnitude_ts.value, copy=False)
             .iloc[start_point:, :]
-            .values.T.flatten()[:-remaining],
+            .values.T.flatten()[:end],
             copy=False,
         )
 
         res_stat_sig_ts_val = pd.Series(
             pd.DataFrame(anom_stat_sig_ts.value, copy=False)
             .iloc[start_point:, :]
-            .values.T.flatten()[:-remaining],
+            .values.T.flatten()[:end],
             copy=False,
         )
 
         res_confidence_band_lower_val = pd.Series(
             pd.DataFrame(anom_confidence_band.lower.value, copy=False)
             .iloc[start_point:, :]
-            .values.T.flatten()[:-remaining],
+            .values.T.flatten()[:end],
             copy=False,
         )
 
         res_confidence_band_upper_val = pd.Series(
             pd.DataFrame(anom_confidence_band.upper.value, copy=False)
             .iloc[start_point:, :]
-            .values.T.flatten()[:-remaining],
+            .values.T.flatten()[:end],
             copy=False,
         )
 
-- 
2.43.0


From b4278ac5ead5b9a4ca6ddf1c2fb2e9ebae373975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:45 +0000
Subject: [PATCH 26/97] fix: StatSigDetectorModel lost all scores of split data
 without seasonality

---
 kats/detectors/stat_sig_detector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kats/detectors/stat_sig_detector.py b/kats/detectors/stat_sig_detector.py
index 78bdbd9..855d686 100644
--- a/kats/detectors/stat_sig_detector.py
+++ b/kats/detectors/stat_sig_detector.py
@@ -297,6 +297,8 @@ class StatSigDetectorModel(DetectorModel):
             )
             anom = ss_detect.fit_predict(data=new_data_ts)
             self._reorganize_back(anom)
+            response = self.response
+            assert response is not None
 
         else:
             self._init_control_test(
-- 
2.43.0


From 7e853b886dc267288ccca3e191d523c14a0bd81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:45 +0000
Subject: [PATCH 27/97] fix: StatSigDetectorModel ignored min_perc_change on
 split data

---
 kats/detectors/stat_sig_detector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kats/detectors/stat_sig_detector.py b/kats/detectors/stat_sig_detector.py
index 855d686..0b866db 100644
--- a/kats/detectors/stat_sig_detector.py
+++ b/kats/detectors/stat_sig_detector.py
@@ -294,6 +294,7 @@ class StatSigDetectorModel(DetectorModel):
                 seasonal_period=self.seasonal_period,
                 skip_rescaling=True,
                 use_corrected_scores=self.use_corrected_scores,
+                min_perc_change=self.min_perc_change,
             )
             anom = ss_detect.fit_predict(data=new_data_ts)
             self._reorganize_back(anom)
-- 
2.43.0


From 7fb2a8d15a4dda198f95e8afdc477cdc62e27b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:45 +0000
Subject: [PATCH 28/97] fix: StatSigDetectorModel splits long data only if they
 have no gaps

---
 kats/detectors/stat_sig_detector.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/kats/detectors/stat_sig_detector.py b/kats/detectors/stat_sig_detector.py
index 0b866db..a2ccaa5 100644
--- a/kats/detectors/stat_sig_detector.py
+++ b/kats/detectors/stat_sig_detector.py
@@ -196,6 +196,11 @@ class StatSigDetectorModel(DetectorModel):
 
         return json.dumps(model_dict).encode("utf-8")
 
+    def _has_no_gaps(self, time: pd.Series) -> bool:
+        # the parts of split data share one time axis
+        steps = time.diff()
+        return steps[steps > pd.Timedelta(0)].nunique() == 1
+
     def fit_predict(
         self,
         data: TimeSeriesData,
@@ -274,8 +279,8 @@ class StatSigDetectorModel(DetectorModel):
         if self.use_corrected_scores:
             if (
                 len(data) > self.max_split_ts_length
-                # pyre-ignore[16]: `Optional` has no attribute `infer_freq_robust`.
-                and historical_data.infer_freq_robust() == data.infer_freq_robust()
+                # pyre-ignore[16]: `Optional` has no attribute `time`.
+                and self._has_no_gaps(pd.concat([historical_data.time, data.time]))
             ):
                 self.bigdata_trans_flag = True
             else:
-- 
2.43.0


From 64448dcf7e7c74278c4906dc472eff95008e687a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:45 +0000
Subject: [PATCH 29/97] fix: StatSig detectors extended the caller's historical
 data

---
 kats/detectors/stat_sig_detector.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/kats/detectors/stat_sig_detector.py b/kats/detectors/stat_sig_detector.py
index a2ccaa5..dac4da4 100644
--- a/kats/detectors/stat_sig_detector.py
+++ b/kats/detectors/stat_sig_detector.py
@@ -5,6 +5,7 @@
 
 # pyre-strict
 
+import copy
 import json
 import logging
 from datetime import datetime
@@ -410,8 +411,8 @@ class StatSigDetectorModel(DetectorModel):
         if historical_data is None:
             total_data = data
         else:
-            historical_data.extend(data, validate=False)
-            total_data = historical_data
+            total_data = copy.deepcopy(historical_data)
+            total_data.extend(data, validate=False)
 
         total_data_df = total_data.to_dataframe()
         total_data_df.columns = ["time", "value"]
@@ -765,8 +766,8 @@ class StatSigDetectorModel(DetectorModel):
         if historical_data is None:
             total_data = data
         else:
-            historical_data.extend(data, validate=False)
-            total_data = historical_data
+            total_data = copy.deepcopy(historical_data)
+            total_data.extend(data, validate=False)
 
         first_dt = total_data.time.iloc[0]  # first date of the data
 
-- 
2.43.0


From c7c8335923b4c8ec6ab9f24212e2c0f89a4c8902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:45 +0000
Subject: [PATCH 30/97] fix: restored StatSig detectors lost some of their
 parameters

---
 kats/detectors/stat_sig_detector.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/kats/detectors/stat_sig_detector.py b/kats/detectors/stat_sig_detector.py
index dac4da4..41fb32e 100644
--- a/kats/detectors/stat_sig_detector.py
+++ b/kats/detectors/stat_sig_detector.py
@@ -126,6 +126,9 @@ class StatSigDetectorModel(DetectorModel):
             self.min_perc_change: float = model_dict.get(
                 "min_perc_change", min_perc_change
             )
+            anomaly_scores_only = model_dict.get(
+                "anomaly_scores_only", anomaly_scores_only
+            )
 
         else:
             # pyrefly: ignore [bad-assignment]
@@ -194,6 +197,8 @@ class StatSigDetectorModel(DetectorModel):
             "max_split_ts_length": self.max_split_ts_length,
             "min_perc_change": self.min_perc_change,
         }
+        if self.anomaly_scores_only:
+            model_dict["anomaly_scores_only"] = True
 
         return json.dumps(model_dict).encode("utf-8")
 
@@ -1029,10 +1034,27 @@ class MultiStatSigDetectorModel(StatSigDetectorModel):
             seasonal_period=seasonal_period,
             min_perc_change=min_perc_change,
         )
+        if serialized_model:
+            model_dict = json.loads(serialized_model)
+            method = model_dict.get("method", method)
+            skip_rescaling = model_dict.get("skip_rescaling", skip_rescaling)
+            use_corrected_scores = model_dict.get(
+                "use_corrected_scores", use_corrected_scores
+            )
         self.method = method
         self.skip_rescaling = skip_rescaling
         self.use_corrected_scores = use_corrected_scores
 
+    def serialize(self) -> bytes:
+        """
+        Serializes by putting model parameters in a json
+        """
+        model_dict = json.loads(super().serialize())
+        model_dict["method"] = self.method
+        model_dict["skip_rescaling"] = self.skip_rescaling
+
+        return json.dumps(model_dict).encode("utf-8")
+
     def fit_predict(
         self,
         data: TimeSeriesData,
-- 
2.43.0


From e726a620e5ff64bac1815dd91aac1199e50f753c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:45 +0000
Subject: [PATCH 31/97] fix: MultiStatSigDetectorModel keeps column names
 without seasonality

---
 kats/detectors/stat_sig_detector.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/kats/detectors/stat_sig_detector.py b/kats/detectors/stat_sig_detector.py
index 41fb32e..d2b60ef 100644
--- a/kats/detectors/stat_sig_detector.py
+++ b/kats/detectors/stat_sig_detector.py
@@ -1151,6 +1151,7 @@ class MultiStatSigDetectorModel(StatSigDetectorModel):
 
             start_idx = len(response.scores) - len(data_season)
             datatime = response.scores.time
+            columns = response.scores.value.columns
 
             self.response = AnomalyResponse(
                 scores=response.scores,
@@ -1161,6 +1162,7 @@ class MultiStatSigDetectorModel(StatSigDetectorModel):
                             [
                                 pd.DataFrame(
                                     confidence_band.upper.value.values[:start_idx, :],
+                                    columns=columns,
                                     copy=False,
                                 ),
                                 pd.DataFrame(
@@ -1170,6 +1172,7 @@ class MultiStatSigDetectorModel(StatSigDetectorModel):
                                         ]
                                     )
                                     + np.asarray(data_season.value.values),
+                                    columns=columns,
                                     copy=False,
                                 ),
                             ],
@@ -1182,6 +1185,7 @@ class MultiStatSigDetectorModel(StatSigDetectorModel):
                             [
                                 pd.DataFrame(
                                     confidence_band.lower.value.values[:start_idx, :],
+                                    columns=columns,
                                     copy=False,
                                 ),
                                 pd.DataFrame(
@@ -1191,6 +1195,7 @@ class MultiStatSigDetectorModel(StatSigDetectorModel):
                                         ]
                                     )
                                     + np.asarray(data_season.value.values),
+                                    columns=columns,
                                     copy=False,
                                 ),
                             ],
@@ -1203,11 +1208,14 @@ class MultiStatSigDetectorModel(StatSigDetectorModel):
                     value=pd.concat(
                         [
                             pd.DataFrame(
-                                predicted_ts.value.values[:start_idx, :], copy=False
+                                predicted_ts.value.values[:start_idx, :],
+                                columns=columns,
+                                copy=False,
                             ),
                             pd.DataFrame(
                                 np.asarray(predicted_ts.value.values[start_idx:, :])
                                 + np.asarray(data_season.value.values),
+                                columns=columns,
                                 copy=False,
                             ),
                         ],
-- 
2.43.0


From 78d5e815cb0ea62bdecdfcd3a876aef56a087cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:19 +0000
Subject: [PATCH 32/97] fix: RollingStatsModel extended the caller's historical
 data

---
 kats/detectors/rolling_stats_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kats/detectors/rolling_stats_model.py b/kats/detectors/rolling_stats_model.py
index 11a35e3..3524288 100644
--- a/kats/detectors/rolling_stats_model.py
+++ b/kats/detectors/rolling_stats_model.py
@@ -398,6 +398,7 @@ class RollingStatsModel(DetectorModel):
         # pull all the data in historical data
         if historical_data is not None:
             n_points_hist_data = len(historical_data)
+            historical_data = historical_data[:]
             historical_data.extend(data, validate=False)
         else:
             # When historical_data is not provided, will use part of data as
-- 
2.43.0


From d45896708d9a4864a7d2655697eb3928ce9de831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:19 +0000
Subject: [PATCH 33/97] fix: RollingStatsModel ignored iqr_base for windows in
 seconds with gaps

---
 kats/detectors/rolling_stats_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kats/detectors/rolling_stats_model.py b/kats/detectors/rolling_stats_model.py
index 3524288..8868769 100644
--- a/kats/detectors/rolling_stats_model.py
+++ b/kats/detectors/rolling_stats_model.py
@@ -455,7 +455,9 @@ class RollingStatsModel(DetectorModel):
                 ].value.values
                 if len(window_data_array) >= 2:
                     score = (
-                        SCORE_FUNC_DICT[self.statistics.value](window_data_array)
+                        SCORE_FUNC_DICT[self.statistics.value](
+                            window_data_array, iqr_base=self.iqr_base
+                        )
                         * self.score_base
                     )
                 else:
-- 
2.43.0


From 7754c4a4c5184cbb94add64e31374bc93a5e591c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:19 +0000
Subject: [PATCH 34/97] fix: a serialized RollingStatsModel could not be
 restored

---
 kats/detectors/rolling_stats_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kats/detectors/rolling_stats_model.py b/kats/detectors/rolling_stats_model.py
index 8868769..4830480 100644
--- a/kats/detectors/rolling_stats_model.py
+++ b/kats/detectors/rolling_stats_model.py
@@ -230,7 +230,9 @@ class RollingStatsModel(DetectorModel):
         if serialized_model:
             previous_model = json.loads(serialized_model)
             self.rolling_window: int = previous_model["rolling_window"]
-            self.statistics: RollStatsFunction = previous_model["statistics"]
+            self.statistics: RollStatsFunction = RollStatsFunction(
+                previous_model["statistics"]
+            )
             self.remove_seasonality: bool = previous_model["remove_seasonality"]
             self.point_based: bool = previous_model["point_based"]
             self.seasonality_period: str = previous_model["seasonality_period"]
-- 
2.43.0


From 1fa2b36938036b66bae7a79febd53fb972c9a470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:19 +0000
Subject: [PATCH 35/97] fix: RollingStatsModel forgot its window in seconds
 after the first run

---
 kats/detectors/rolling_stats_model.py | 30 ++++++++++++++++-----------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/kats/detectors/rolling_stats_model.py b/kats/detectors/rolling_stats_model.py
index 4830480..2fa85cc 100644
--- a/kats/detectors/rolling_stats_model.py
+++ b/kats/detectors/rolling_stats_model.py
@@ -289,24 +289,26 @@ class RollingStatsModel(DetectorModel):
         """
         return str.encode(json.dumps(self.__dict__))
 
-    def _point_based_vectorized_data(self, data: npt.NDArray) -> npt.NDArray:
+    def _point_based_vectorized_data(
+        self, data: npt.NDArray, rolling_window: int
+    ) -> npt.NDArray:
         """
         For Z-scores and its variants,
-        reshape the input data to shape (-1, self.rolling_window + 1)
+        reshape the input data to shape (-1, rolling_window + 1)
         Each row consists of [history window | one datapoint to evaluate]
 
         For IQR and MAD,
-        reshape the input data to shape (-1, self.rolling_window)
+        reshape the input data to shape (-1, rolling_window)
         """
         if self.extend_rolling_window:
             shape = data.shape[:-1] + (
-                data.shape[-1] - self.rolling_window,
-                self.rolling_window + 1,
+                data.shape[-1] - rolling_window,
+                rolling_window + 1,
             )
         else:
             shape = data.shape[:-1] + (
-                data.shape[-1] - self.rolling_window + 1,
-                self.rolling_window,
+                data.shape[-1] - rolling_window + 1,
+                rolling_window,
             )
         strides = data.strides + (data.strides[-1],)
         # pyre-fixme[16]: Module `numpy.lib.stride_tricks` has no attribute `as_strided`.
@@ -318,6 +320,7 @@ class RollingStatsModel(DetectorModel):
         self,
         data_interp: TimeSeriesData,
         n_points_hist_data: int,
+        window_size: int,
     ) -> AnomalyResponse:
         """
         Params:
@@ -325,11 +328,12 @@ class RollingStatsModel(DetectorModel):
             n_point_hist_data: How many points from the original data were historical
                 data. Used to keep track of how many points need to be scored since
                 historical_data and data are merged in fit_predict().
+            window_size: The size of the rolling window in points.
         """
         if self.extend_rolling_window:
-            rolling_window = self.rolling_window
+            rolling_window = window_size
         else:
-            rolling_window = self.rolling_window - 1
+            rolling_window = window_size - 1
 
         if n_points_hist_data < rolling_window:
             if not self.allow_expanding_window:
@@ -346,13 +350,14 @@ class RollingStatsModel(DetectorModel):
                         data_value,
                     ],
                     axis=0,
-                )
+                ),
+                window_size,
             )
         else:
             data_value = data_interp.value.values[
                 (n_points_hist_data - rolling_window) :
             ]
-            reorg_data = self._point_based_vectorized_data(data_value)
+            reorg_data = self._point_based_vectorized_data(data_value, window_size)
 
         scores_array = (
             SCORE_FUNC_DICT[self.statistics.value](reorg_data, iqr_base=self.iqr_base)
@@ -418,6 +423,7 @@ class RollingStatsModel(DetectorModel):
             return self._fit_predict_point_based(
                 data_interp=historical_data,
                 n_points_hist_data=n_points_hist_data,
+                window_size=self.rolling_window,
             )
 
         # pd.timedelta
@@ -429,10 +435,10 @@ class RollingStatsModel(DetectorModel):
             self.rolling_window % frequency_sec == 0
             and not historical_data.is_data_missing()
         ):
-            self.rolling_window = self.rolling_window // frequency_sec
             return self._fit_predict_point_based(
                 data_interp=historical_data,
                 n_points_hist_data=n_points_hist_data,
+                window_size=self.rolling_window // frequency_sec,
             )
 
         else:
-- 
2.43.0


From e86755947cbb29c159ed5fd82c1132d9ddbe567e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:04 +0000
Subject: [PATCH 36/97] fix: DistributionDistanceModel scored equal
 distributions as NaN

---
 kats/detectors/distribution_distance_model.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/kats/detectors/distribution_distance_model.py b/kats/detectors/distribution_distance_model.py
index 2fd2937..ed40852 100644
--- a/kats/detectors/distribution_distance_model.py
+++ b/kats/detectors/distribution_distance_model.py
@@ -252,7 +252,16 @@ class DistributionDistanceModel(DetectorModel):
     def _js_div_func(self, x: pd.Series) -> float:
         n = len(x) // 2
         prob_a, prob_b = _percentile_to_prob(x[:n], x[n:])
-        return distance.jensenshannon(prob_a, prob_b, base=self.jsd_base)
+        js_dist = distance.jensenshannon(prob_a, prob_b, base=self.jsd_base)
+        # rounding errors can make the divergence of equal distributions negative
+        sum_a, sum_b = np.sum(prob_a), np.sum(prob_b)
+        if (
+            np.isnan(js_dist)
+            and sum_a * sum_b > 0
+            and np.allclose(prob_a * sum_b, prob_b * sum_a)
+        ):
+            return 0.0
+        return js_dist
 
     def fit_predict(
         self,
-- 
2.43.0


From 45aa44689906be678d93b4c38b2e221a5029c918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:32 +0000
Subject: [PATCH 37/97] fix: OutlierDetectorModel extended the caller's
 historical data

---
 kats/detectors/outlier_detector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kats/detectors/outlier_detector.py b/kats/detectors/outlier_detector.py
index a06deb2..8419fe0 100644
--- a/kats/detectors/outlier_detector.py
+++ b/kats/detectors/outlier_detector.py
@@ -84,8 +84,8 @@ class OutlierDetectorModel(DetectorModel):
         if historical_data is None:
             total_data = data
         else:
-            historical_data.extend(data, validate=False)
-            total_data = historical_data
+            total_data = historical_data[:]
+            total_data.extend(data, validate=False)
 
         self.model = OutlierDetector(
             data=total_data, decomp=self.decomp, iqr_mult=self.iqr_mult
-- 
2.43.0


From a61761af1a473516172f3ca435480666ba86f73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:32 +0000
Subject: [PATCH 38/97] fix: OutlierDetectorModel.fit_predict reused the fit of
 an earlier run

---
 kats/detectors/outlier_detector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kats/detectors/outlier_detector.py b/kats/detectors/outlier_detector.py
index 8419fe0..4014f70 100644
--- a/kats/detectors/outlier_detector.py
+++ b/kats/detectors/outlier_detector.py
@@ -168,4 +168,5 @@ class OutlierDetectorModel(DetectorModel):
             AnomalyResponse object. The length of this object is same as data. The score property
             gives the score for anomaly.
         """
+        self.fit(data=data, historical_data=historical_data)
         return self.predict(data=data, historical_data=historical_data, **kwargs)
-- 
2.43.0


From 07601e5da59b43de832292f9f631603b2fbfa59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:32 +0000
Subject: [PATCH 39/97] fix: MultivariateAnomalyDetectorModel extended the
 caller's historical data

---
 kats/detectors/multivariate_detector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kats/detectors/multivariate_detector.py b/kats/detectors/multivariate_detector.py
index c1eb5ba..da0b472 100644
--- a/kats/detectors/multivariate_detector.py
+++ b/kats/detectors/multivariate_detector.py
@@ -97,8 +97,8 @@ class MultivariateAnomalyDetectorModel(DetectorModel):
         if historical_data is None:
             total_data = data
         else:
-            historical_data.extend(data)
-            total_data = historical_data
+            total_data = historical_data[:]
+            total_data.extend(data)
 
         self.model = MultivariateAnomalyDetector(
             data=total_data,
-- 
2.43.0


From 02a8e8e61d46210d33f7edb1b167d5dd71eb4cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:32 +0000
Subject: [PATCH 40/97] fix: MultivariateAnomalyDetectorModel could not be
 serialized

---
 kats/detectors/multivariate_detector.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kats/detectors/multivariate_detector.py b/kats/detectors/multivariate_detector.py
index da0b472..88d5ead 100644
--- a/kats/detectors/multivariate_detector.py
+++ b/kats/detectors/multivariate_detector.py
@@ -52,8 +52,9 @@ class MultivariateAnomalyDetectorModel(DetectorModel):
     ) -> None:
         if serialized_model:
             model_dict = json.loads(serialized_model)
-            self.params = model_dict["params"]
+            self.params = VARParams(**model_dict["params"])
             self.training_days = model_dict["training_days"]
+            self.model_type = MultivariateAnomalyDetectorType(model_dict["model_type"])
         else:
             if params:
                 self.params = params
@@ -68,9 +69,9 @@ class MultivariateAnomalyDetectorModel(DetectorModel):
             json containing information of the model.
         """
         model_dict = {
-            "params": self.params,
+            "params": vars(self.params),
             "training_days": self.training_days,
-            "model_type": self.model_type,
+            "model_type": self.model_type.value,
         }
 
         # model_dict = {"training_days": self.training_days, "model_type": self.model_type}
-- 
2.43.0


From 405ae872dfaca3a1ccb01996450fceae207f9749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:32 +0000
Subject: [PATCH 41/97] fix: get_anomalous_metrics listed the p-value as a
 metric

---
 kats/detectors/outlier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kats/detectors/outlier.py b/kats/detectors/outlier.py
index ff9c255..1c4fd8b 100644
--- a/kats/detectors/outlier.py
+++ b/kats/detectors/outlier.py
@@ -399,7 +399,9 @@ class MultivariateAnomalyDetector(Detector):
         if anomaly_score_df is None:
             raise ValueError("detector() must be called before get_anomalous_metrics()")
 
-        residual_scores = anomaly_score_df.drop(columns="overall_anomaly_score")
+        residual_scores = anomaly_score_df.drop(
+            columns=["overall_anomaly_score", "p_value"]
+        )
         residual_scores_t = (
             residual_scores.loc[t, :].sort_values(ascending=False).reset_index()
         )
-- 
2.43.0


From 3d1d2314410694fd37426347125d5741aef52462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:32 +0000
Subject: [PATCH 42/97] fix: MultivariateAnomalyDetector takes any name of the
 time column

---
 kats/detectors/outlier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kats/detectors/outlier.py b/kats/detectors/outlier.py
index 1c4fd8b..eb374ce 100644
--- a/kats/detectors/outlier.py
+++ b/kats/detectors/outlier.py
@@ -189,7 +189,8 @@ class MultivariateAnomalyDetector(Detector):
         model_type: MultivariateAnomalyDetectorType = MultivariateAnomalyDetectorType.VAR,
     ) -> None:
         super().__init__(data)
-        df = data.to_dataframe().set_index("time")
+        df = data.to_dataframe().set_index(data.time_col_name)
+        df.index.name = "time"
         self.df: pd.DataFrame = df
 
         params.validate_params()
-- 
2.43.0


From 04fad00fa34cbdac4078c0b6bdbb9179293f3ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:32 +0000
Subject: [PATCH 43/97] fix: HourlyRatioDetector takes any names of the columns

---
 kats/detectors/hourly_ratio_detection.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kats/detectors/hourly_ratio_detection.py b/kats/detectors/hourly_ratio_detection.py
index 2b40f2e..55aea75 100644
--- a/kats/detectors/hourly_ratio_detection.py
+++ b/kats/detectors/hourly_ratio_detection.py
@@ -124,6 +124,7 @@ class HourlyRatioDetector(Detector):
 
         if self._ratiodf is None:
             df = self.data.to_dataframe()
+            df.columns = ["time", "value"]
             df.dropna(inplace=True)
             df.sort_values("time", inplace=True)
             df["date"] = df["time"].dt.date
-- 
2.43.0


From 50375cac6ae36152e151552197cc0c8efcd26098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:03 +0000
Subject: [PATCH 44/97] fix: MKDetector takes any name of the time column

---
 kats/detectors/trend_mk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kats/detectors/trend_mk.py b/kats/detectors/trend_mk.py
index 7c47fea..e9b2dcc 100644
--- a/kats/detectors/trend_mk.py
+++ b/kats/detectors/trend_mk.py
@@ -400,7 +400,7 @@ class MKDetector(Detector):
         self.direction = direction
         self.freq = freq
 
-        ts = self.data.to_dataframe().set_index("time")
+        ts = self.data.to_dataframe().set_index(self.data.time_col_name)
         ts = ts.dropna(axis=1)
         # pyre-fixme[16]: `Index` has no attribute `inferred_freq`.
         ts.index = pd.DatetimeIndex(ts.index.values, freq=ts.index.inferred_freq)
-- 
2.43.0


From 6d8fb90be6e79b4466b995cde177d3dd44836f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:03 +0000
Subject: [PATCH 45/97] fix: MKDetector ignored its significance level

---
 kats/detectors/trend_mk.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kats/detectors/trend_mk.py b/kats/detectors/trend_mk.py
index e9b2dcc..46333b3 100644
--- a/kats/detectors/trend_mk.py
+++ b/kats/detectors/trend_mk.py
@@ -287,7 +287,7 @@ class MKDetector(Detector):
 
         anchor_date = ts.index[-1]
 
-        mk_result = mk.original_test(x)
+        mk_result = mk.original_test(x, alpha=self.alpha)
         trend, p, Tau = mk_result.trend, mk_result.p, mk_result.Tau
         trend = self._apply_threshold(trend, Tau)
 
@@ -324,7 +324,7 @@ class MKDetector(Detector):
 
         x, c = self._preprocessing(ts)
 
-        multi_mk_result = mk.multivariate_test(x)
+        multi_mk_result = mk.multivariate_test(x, alpha=self.alpha)
         trend, p, Tau = multi_mk_result.trend, multi_mk_result.p, multi_mk_result.Tau
         trend = self._apply_threshold(trend, Tau)
 
@@ -335,7 +335,7 @@ class MKDetector(Detector):
             x_i, n = self._drop_missing_values(x[:, i])
             # individual Tau score and trend
             try:
-                mk_result = mk.original_test(x_i)
+                mk_result = mk.original_test(x_i, alpha=self.alpha)
                 trend_i, Tau_i = mk_result.trend, mk_result.Tau
                 trend_i = self._apply_threshold(trend_i, Tau_i)
                 Tau_dict[ts.columns[i]] = Tau_i
-- 
2.43.0


From d86729bec8c8d9df09ba748e7cf2228ed131ce67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:03 +0000
Subject: [PATCH 46/97] fix: MKDetector uses the univariate test on univariate
 data

---
 kats/detectors/trend_mk.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kats/detectors/trend_mk.py b/kats/detectors/trend_mk.py
index 46333b3..bfe10b9 100644
--- a/kats/detectors/trend_mk.py
+++ b/kats/detectors/trend_mk.py
@@ -183,6 +183,7 @@ class MKDetector(Detector):
             # Assume multivariate but univariate data is detected
             elif self.data.is_univariate() and self.multivariate:
                 logging.warning("Using univariate MK test on multivariate data.")
+                self.multivariate = False
 
     def _remove_seasonality(
         self, ts: pd.DataFrame, freq: Optional[str] = None
-- 
2.43.0


From 36575a745f85ee17d0083dbc07436213f06a43de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:03 +0000
Subject: [PATCH 47/97] fix: repeated DTW detection repeated its change points

---
 kats/detectors/dtwcpd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kats/detectors/dtwcpd.py b/kats/detectors/dtwcpd.py
index 88b5136..91dc888 100644
--- a/kats/detectors/dtwcpd.py
+++ b/kats/detectors/dtwcpd.py
@@ -151,6 +151,7 @@ class DTWCPDDetector(Detector):
         """
 
         logging.info("Starting detection...")
+        self.outliers = []
         # We first downsample the time series and only consider non-zero
         # sub-sequences to reduce the computational complexity of the problem.
         all_non_flats_ts = self._get_all_nonzero_subsequences()
-- 
2.43.0


From 5013e28e4bcf9ebd0ff8597f66ef460c78fbcbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:48 +0000
Subject: [PATCH 48/97] fix: BOCPD run length posterior lost its diagonal when
 aggregated

---
 kats/detectors/bocpd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kats/detectors/bocpd.py b/kats/detectors/bocpd.py
index 5a81c34..3e0c31f 100644
--- a/kats/detectors/bocpd.py
+++ b/kats/detectors/bocpd.py
@@ -1085,7 +1085,7 @@ class _BayesOnlineChangePoint(Detector):
     def _calc_agg_cppprob(self, t: int) -> npt.NDArray:
         rt_posterior = self.rt_posterior
         assert rt_posterior is not None
-        run_length_pos = rt_posterior[:, :, t]
+        run_length_pos = rt_posterior[:, :, t].copy()
         np.fill_diagonal(run_length_pos, 0.0)
         change_prob = np.zeros(self.T)
         for i in range(self.T):
-- 
2.43.0


From 8cc3fe71ca7c17ac3410e362af91fdd1e77e68f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:48 +0000
Subject: [PATCH 49/97] fix: BocpdDetectorModel extended the caller's
 historical data

---
 kats/detectors/bocpd_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kats/detectors/bocpd_model.py b/kats/detectors/bocpd_model.py
index 88e3e3b..25e9387 100644
--- a/kats/detectors/bocpd_model.py
+++ b/kats/detectors/bocpd_model.py
@@ -104,6 +104,7 @@ class BocpdDetectorModel(DetectorModel):
         # we prepend it to data, and run
         # the detector as if we only saw data
         if historical_data is not None:
+            historical_data = historical_data[:]
             historical_data.extend(data, validate=False)
             data = TimeSeriesData(
                 pd.DataFrame(
-- 
2.43.0


From d6f1497df097b701f11e9460c036ebc1dead0d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:48 +0000
Subject: [PATCH 50/97] fix: serialized BocpdDetectorModel lost its threshold

---
 kats/detectors/bocpd_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kats/detectors/bocpd_model.py b/kats/detectors/bocpd_model.py
index 25e9387..2da5a76 100644
--- a/kats/detectors/bocpd_model.py
+++ b/kats/detectors/bocpd_model.py
@@ -72,7 +72,7 @@ class BocpdDetectorModel(DetectorModel):
             json containing information about serialized model.
         """
 
-        model_dict = {"slow_drift": self.slow_drift}
+        model_dict = {"slow_drift": self.slow_drift, "threshold": self.threshold}
         return json.dumps(model_dict).encode("utf-8")
 
     def fit_predict(
-- 
2.43.0


From f559c365dc61c27a52dd8fbea7449813cdb04179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:48 +0000
Subject: [PATCH 51/97] fix: BocpdDetectorModel used the level model for slow
 drifts with a threshold

---
 kats/detectors/bocpd_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kats/detectors/bocpd_model.py b/kats/detectors/bocpd_model.py
index 2da5a76..cae6fe9 100644
--- a/kats/detectors/bocpd_model.py
+++ b/kats/detectors/bocpd_model.py
@@ -134,8 +134,8 @@ class BocpdDetectorModel(DetectorModel):
         else:
             if self.threshold is not None:
                 _ = bocpd_model.detector(
-                    model=BOCPDModelType.NORMAL_KNOWN_MODEL,
-                    choose_priors=True,
+                    model=BOCPDModelType.TREND_CHANGE_MODEL,
+                    choose_priors=False,
                     agg_cp=True,
                     threshold=self.threshold,
                 )
-- 
2.43.0


From 4f891a2d92fccda1bb1e3d5c9370622c2dc45651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:00 +0000
Subject: [PATCH 52/97] fix: BOCPD trend model gave NaN when every sampled
 likelihood is zero

---
 kats/detectors/bocpd.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/kats/detectors/bocpd.py b/kats/detectors/bocpd.py
index 3e0c31f..2cc0f24 100644
--- a/kats/detectors/bocpd.py
+++ b/kats/detectors/bocpd.py
@@ -12,7 +12,6 @@ the Bayesian Online Changepoint Detection algorithm.
 """
 
 import logging
-import math
 from abc import ABC, abstractmethod
 from dataclasses import dataclass, field
 from enum import Enum
@@ -1495,9 +1494,8 @@ class _BayesianLinReg(_PredictiveModel):
         self.lambda_prior: npt.NDArray = np.multiply(2e-7, np.identity(2))
 
         self.num_likelihood_samples: int = num_likelihood_samples
-        self.min_sum_samples: int = int(
-            math.sqrt(self.num_likelihood_samples) / 10000
-        )  # TODO: Hack for getting around probabilities of 0 -- cap it at some minimum
+        # Hack for getting around probabilities of 0 -- cap it at some minimum
+        self.min_sum_samples: float = float(np.finfo(float).tiny)
 
         self._mean_arr: Dict[int, List[float]] = {}
         self._std_arr: Dict[int, List[float]] = {}
-- 
2.43.0


From 14fb407234044e73d4c07a7b7c38c7eec7775969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 53/97] fix: BOCPD debug output failed for several columns

---
 kats/detectors/bocpd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kats/detectors/bocpd.py b/kats/detectors/bocpd.py
index 2cc0f24..519538e 100644
--- a/kats/detectors/bocpd.py
+++ b/kats/detectors/bocpd.py
@@ -887,8 +887,8 @@ class _BayesOnlineChangePoint(Detector):
                 # pyre-fixme[6]: For 2nd argument expected `float` but got
                 #  `ndarray[Any, dtype[Any]]`.
                 pred_std = model.pred_std(t=i, x=this_pt)
-                pred_mean_arr[i, 0:i, self._ts_slice] = pred_mean.reshape(-1)
-                pred_std_arr[i, 0:i, self._ts_slice] = pred_std.reshape(-1)
+                pred_mean_arr[i, 0:i, self._ts_slice] = pred_mean.reshape(pred_arr.shape)
+                pred_std_arr[i, 0:i, self._ts_slice] = pred_std.reshape(pred_arr.shape)
                 next_pred_prob[i, 0:i, self._ts_slice] = pred_arr
 
             # calculate prob that this is a changepoint, i.e. r_t = 0
-- 
2.43.0


From 499c629480d4d6c62a86be03e409f6c9c1d730bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:18 +0000
Subject: [PATCH 54/97] fix: interval detectors changed the caller's data and
 history

The variances cached for plotting were written into the caller's data, so a
second test of the same data divided them by the sample counts again.
---
 kats/detectors/interval_detector.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kats/detectors/interval_detector.py b/kats/detectors/interval_detector.py
index ad048b9..6e5bef3 100644
--- a/kats/detectors/interval_detector.py
+++ b/kats/detectors/interval_detector.py
@@ -38,6 +38,7 @@ Typical usage example:
 
 from __future__ import annotations
 
+import copy
 import itertools
 import json
 import logging
@@ -608,10 +609,10 @@ class IntervalDetectorModel(DetectorModel, ABC):
         self.data = None
         self.schema._validate_data(pd.DataFrame(data.value))
         if historical_data is None:
-            self.data = data
+            self.data = copy.deepcopy(data)
         else:
-            historical_data.extend(data, validate=False)
-            self.data = historical_data
+            self.data = copy.deepcopy(historical_data)
+            self.data.extend(data, validate=False)
         assert self.data is not None
         _data: TimeSeriesData = self.data
         n = len(_data)
-- 
2.43.0


From 1daebc82007503ad1bf5ee7628595d6201eb2aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:18 +0000
Subject: [PATCH 55/97] fix: interval detectors kept the intervals of earlier
 data

A run without consolidation predicted the intervals of the previous run, or
failed with an IndexError when its data were shorter.
---
 kats/detectors/interval_detector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kats/detectors/interval_detector.py b/kats/detectors/interval_detector.py
index 6e5bef3..72704e0 100644
--- a/kats/detectors/interval_detector.py
+++ b/kats/detectors/interval_detector.py
@@ -607,6 +607,8 @@ class IntervalDetectorModel(DetectorModel, ABC):
                 - lower: Lower limit in the (1 - alpha) confidence interval.
         """
         self.data = None
+        self.reject_intervals = None
+        self.fail_to_reject_intervals = None
         self.schema._validate_data(pd.DataFrame(data.value))
         if historical_data is None:
             self.data = copy.deepcopy(data)
-- 
2.43.0


From f5a83273b7817515db4d4ed1d779d34577394a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:44 +0000
Subject: [PATCH 56/97] fix: confidence limits of one-sided interval tests
 contradicted the tests

With a corrected alpha above 0.5 (long durations on short data) the critical
value of the single tests lies on the other side of zero; the limits used its
absolute value and included effects that the test rejected.
---
 kats/detectors/interval_detector.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kats/detectors/interval_detector.py b/kats/detectors/interval_detector.py
index 72704e0..3121657 100644
--- a/kats/detectors/interval_detector.py
+++ b/kats/detectors/interval_detector.py
@@ -273,12 +273,12 @@ class CriticalValue:
 
     @property
     def absolute_critical_value(self) -> pd.Series:
+        # The distance from zero in the direction of the test. It is negative
+        # for the one sided tests if their corrected_alpha is above 0.5.
         if self.lower is not None:
-            # pyre-fixme[7]: Expected `Series` but got `ndarray[Any, dtype[Any]]`.
-            return np.absolute(self.lower)
+            return -self.lower
         elif self.upper is not None:
-            # pyre-fixme[7]: Expected `Series` but got `ndarray[Any, dtype[Any]]`.
-            return np.absolute(self.upper)
+            return self.upper
         else:
             raise ValueError(
                 "Expecting either lower or upper to be specified. Found None."
-- 
2.43.0


From 197e1957ceae79986e89496ea8325ca3c537535f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:21 +0000
Subject: [PATCH 57/97] fix: ProphetDetectorModel extended the caller's history

---
 kats/detectors/prophet_detector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kats/detectors/prophet_detector.py b/kats/detectors/prophet_detector.py
index 51b1c7b..3b2c7e6 100644
--- a/kats/detectors/prophet_detector.py
+++ b/kats/detectors/prophet_detector.py
@@ -520,8 +520,8 @@ class ProphetDetectorModel(DetectorModel):
         if historical_data is None:
             total_data = data
         else:
-            historical_data.extend(data)
-            total_data = historical_data
+            total_data = copy.deepcopy(historical_data)
+            total_data.extend(data)
 
         # Exclude training ranges if specified
         if self.exclude_training_ranges is not None:
-- 
2.43.0


From d7a66642db0314b2aafb2609174a2757d639ed2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:21 +0000
Subject: [PATCH 58/97] fix: KDEResidualTranslator dropped rows from the
 caller's residuals

---
 kats/detectors/residual_translation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kats/detectors/residual_translation.py b/kats/detectors/residual_translation.py
index 4fa521d..3f59c1e 100644
--- a/kats/detectors/residual_translation.py
+++ b/kats/detectors/residual_translation.py
@@ -17,6 +17,7 @@ density estimation), and outputs a false-alarm probability based on it.
 
 from __future__ import annotations
 
+import copy
 from typing import Optional
 
 import numpy as np
@@ -222,6 +223,8 @@ class KDEResidualTranslator:
             raise ValueError("Must supply y and yhat or residual")
 
         nulls = residual.value.isnull()
+        # copy, as the residuals may be the caller's
+        residual = copy.copy(residual)
         residual.value = residual.value[~nulls]
         residual.time = residual.time[~nulls]
         return residual
-- 
2.43.0


From 889c9fe2c2b687e861d916348598936548970226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:29 +0000
Subject: [PATCH 59/97] fix: ProphetDetectorModel failed on a holiday
 multiplier without holidays

---
 kats/detectors/prophet_detector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kats/detectors/prophet_detector.py b/kats/detectors/prophet_detector.py
index 3b2c7e6..703c55e 100644
--- a/kats/detectors/prophet_detector.py
+++ b/kats/detectors/prophet_detector.py
@@ -307,6 +307,8 @@ def get_holiday_dates(
             year_list=year_list, country=country_holidays
         )
         all_holidays = pd.concat((all_holidays, country_holidays_df), sort=False)
+    if all_holidays.empty:
+        return pd.Series(dtype="datetime64[ns]")
     all_holidays = pd.to_datetime(
         # pyre-fixme[16]: `Timestamp` has no attribute `__iter__`.
         pd.Series(list({x.date() for x in pd.to_datetime(all_holidays.ds)}))
-- 
2.43.0


From a2970150dadab31cf2e80e6eee7f10abdb63ebb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:24 +0000
Subject: [PATCH 60/97] fix: a TsFeatures used the feature switches of the
 instance created last

---
 kats/tsfeatures/tsfeatures.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kats/tsfeatures/tsfeatures.py b/kats/tsfeatures/tsfeatures.py
index 82789b1..73bd44a 100644
--- a/kats/tsfeatures/tsfeatures.py
+++ b/kats/tsfeatures/tsfeatures.py
@@ -308,8 +308,8 @@ class TsFeatures:
     """
 
     _total_feature_len_: int = 0
-    _ts_methods: Dict[str, TSMethod] = {}
-    _x_methods: Dict[str, ArrayMethod] = {}
+    _ts_methods: Dict[str, TSMethod]
+    _x_methods: Dict[str, ArrayMethod]
 
     def __init__(
         self,
@@ -466,6 +466,8 @@ class TsFeatures:
 
     def _compile_methods(self) -> None:
         """Map method names to method instances for _transform_1d."""
+        self._ts_methods = {}
+        self._x_methods = {}
         for method, _ in _ALL_TS_FEATURES:
             method_name = f"get_{method}"
             func = vars(TsFeatures).get(method_name, None)
-- 
2.43.0


From fe094646744264ba32d4f260c76b3562c78f5b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:24 +0000
Subject: [PATCH 61/97] fix: TsFeatures counted equal days of different months
 once

---
 kats/tsfeatures/tsfeatures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kats/tsfeatures/tsfeatures.py b/kats/tsfeatures/tsfeatures.py
index 73bd44a..1b0888f 100644
--- a/kats/tsfeatures/tsfeatures.py
+++ b/kats/tsfeatures/tsfeatures.py
@@ -2062,7 +2062,7 @@ class TsFeatures:
                 time_features["time_weeksofyear"] = index.isocalendar().week.nunique()
 
             if extra_args is not None and extra_args.get("time_days", default_status):
-                time_features["time_days"] = index.strftime("%Y-%d").nunique()
+                time_features["time_days"] = index.strftime("%Y-%m-%d").nunique()
 
             if extra_args is not None and extra_args.get(
                 "time_daysofyear", default_status
-- 
2.43.0


From 97262b602da012792b57ebab26aaf8cb0b744b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:24 +0000
Subject: [PATCH 62/97] fix: Fourier features of times given as text failed

---
 kats/tsfeatures/tsfeatures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kats/tsfeatures/tsfeatures.py b/kats/tsfeatures/tsfeatures.py
index 1b0888f..fd9c15f 100644
--- a/kats/tsfeatures/tsfeatures.py
+++ b/kats/tsfeatures/tsfeatures.py
@@ -2241,7 +2241,7 @@ class TsFourierFeatures:
                 data = np.array(data.astype("int") // 10**9)
             except Exception:
                 # pyrefly: ignore [bad-assignment]
-                data = np.array(pd.to_datetime(data).dt // 10**9)
+                data = np.array(pd.to_datetime(data).astype("int") // 10**9)
         data = data / self.offset
         raw_data = self._compute_fourier_order(
             data, np.array(self.fourier_period), np.array(self.fourier_order)
-- 
2.43.0


From cb68fabb7c6688c47c3034f6410b5e91c27173de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:24 +0000
Subject: [PATCH 63/97] fix: Fourier features accepted an offset of zero and
 were all NaN

---
 kats/tsfeatures/tsfeatures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kats/tsfeatures/tsfeatures.py b/kats/tsfeatures/tsfeatures.py
index fd9c15f..41fac98 100644
--- a/kats/tsfeatures/tsfeatures.py
+++ b/kats/tsfeatures/tsfeatures.py
@@ -2213,7 +2213,7 @@ class TsFourierFeatures:
             msg = f"`fourier_period` and `fourier_order` should be the same length. Got {self.fourier_period} and {self.fourier_order}."
             raise AssertionError(msg)
         self.offset = float(offset)
-        if not isinstance(self.offset, float) or self.offset < 0:
+        if not isinstance(self.offset, float) or not self.offset > 0:
             msg = f"`offset` should be a positive number. Got {self.offset}."
             raise AssertionError(msg)
 
-- 
2.43.0


From be473e0fe0f43c6d7edb38e842c34a15cce43c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 64/97] fix: TsFeatures failed on series shorter than twice the
 lags of the partial correlations

---
 kats/tsfeatures/tsfeatures.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/kats/tsfeatures/tsfeatures.py b/kats/tsfeatures/tsfeatures.py
index 41fac98..cd674df 100644
--- a/kats/tsfeatures/tsfeatures.py
+++ b/kats/tsfeatures/tsfeatures.py
@@ -1110,7 +1110,8 @@ class TsFeatures:
         diff1y_acf_list = acf(diff1x, fft=True, nlags=nlag)[1:]
         diff2y_acf_list = acf(diff2x, fft=True, nlags=nlag)[1:]
 
-        y_pacf_list = pacf(x, nlags=period)[1:]
+        # partial correlations exist only for lags below half of the sample size
+        y_pacf_list = pacf(x, nlags=min(period, len(x) // 2 - 1))[1:]
 
         if (
             TsFeatures._yule_walker_determinant(diff1x) == 0
@@ -1121,8 +1122,8 @@ class TsFeatures:
             )
             return acfpacf_features
 
-        diff1y_pacf_list = pacf(diff1x, nlags=nlag)[1:]
-        diff2y_pacf_list = pacf(diff2x, nlags=nlag)[1:]
+        diff1y_pacf_list = pacf(diff1x, nlags=min(nlag, len(diff1x) // 2 - 1))[1:]
+        diff2y_pacf_list = pacf(diff2x, nlags=min(nlag, len(diff2x) // 2 - 1))[1:]
 
         (
             acfpacf_features["y_acf1"],
@@ -1153,6 +1154,8 @@ class TsFeatures:
             diff1y_pacf_list,
             diff2y_pacf_list,
         )
+        if len(y_pacf_list) < period:
+            acfpacf_features["seas_pacf1"] = np.nan
 
         return acfpacf_features
 
-- 
2.43.0


From 13130d49d2030d96831653149f561d6eacc5aac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:15 +0000
Subject: [PATCH 65/97] fix: TsFeatures looked for a seasonality in shuffled
 data

---
 kats/tsfeatures/tsfeatures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kats/tsfeatures/tsfeatures.py b/kats/tsfeatures/tsfeatures.py
index cd674df..993f836 100644
--- a/kats/tsfeatures/tsfeatures.py
+++ b/kats/tsfeatures/tsfeatures.py
@@ -1949,7 +1949,7 @@ class TsFeatures:
             detrended = TimeSeriesData(
                 pd.DataFrame(
                     {
-                        "time": len(ts.value.values) - 1,
+                        "time": np.arange(len(ts.value.values) - 1),
                         "value": ts.value.values[1:] - ts.value.values[:-1],
                     },
                     copy=False,
-- 
2.43.0


From 01f8a00cda310461d374190deaa7b2eac7f2c027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:34 +0000
Subject: [PATCH 66/97] fix: GetAggregateTS takes any time column name

---
 kats/models/reconciliation/base_models.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kats/models/reconciliation/base_models.py b/kats/models/reconciliation/base_models.py
index 9e0405b..578695c 100644
--- a/kats/models/reconciliation/base_models.py
+++ b/kats/models/reconciliation/base_models.py
@@ -106,7 +106,9 @@ class GetAggregateTS:
             logging.error(msg)
             raise ValueError(msg)
 
-        self.data = TimeSeriesData(data.to_dataframe().copy())
+        self.data = TimeSeriesData(
+            data.to_dataframe().copy(), time_col_name=data.time_col_name
+        )
 
     # pyre-fixme[3]: Return type must be annotated.
     # pyre-fixme[2]: Parameter must be annotated.
-- 
2.43.0


From 8a1ba167bbe92b0782495ab74ea6eec000140816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:34 +0000
Subject: [PATCH 67/97] fix: GetAggregateTS lost the time zone of aggregated
 series

---
 kats/models/reconciliation/base_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kats/models/reconciliation/base_models.py b/kats/models/reconciliation/base_models.py
index 578695c..1fe68be 100644
--- a/kats/models/reconciliation/base_models.py
+++ b/kats/models/reconciliation/base_models.py
@@ -123,7 +123,7 @@ class GetAggregateTS:
         m = (n // k) * k
 
         value = pd.Series(ts.value.values[-m:].reshape(-1, k).sum(axis=1), copy=False)
-        time = pd.Series(ts.time.values[(n - m + k - 1) : n : k], copy=False)
+        time = ts.time.iloc[(n - m + k - 1) : n : k].reset_index(drop=True)
         return TimeSeriesData(time=time, value=value)
 
     def aggregate(self, levels: List[int]) -> Dict[int, TimeSeriesData]:
-- 
2.43.0


From 9f82800e6e0d65df59d00a696632b0a9d5419074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:34 +0000
Subject: [PATCH 68/97] fix: residuals of hierarchical models work with any
 column names

---
 kats/models/reconciliation/thm.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/kats/models/reconciliation/thm.py b/kats/models/reconciliation/thm.py
index cdead82..b6b75bb 100644
--- a/kats/models/reconciliation/thm.py
+++ b/kats/models/reconciliation/thm.py
@@ -190,12 +190,12 @@ class TemporalHierarchicalModel:
         except Exception:
             fcst = model.predict(steps=1, freq="D", include_history=True)
             # pyre-fixme[16]: `None` has no attribute `merge`.
-            # pyre-fixme[16]: `Optional` has no attribute `to_dataframe`.
-            merge = fcst.merge(model.data.to_dataframe(), on="time")
-            for col in merge.columns:
-                if col != "time" and ("fcst" not in col):
-                    return merge[col].values - merge["fcst"].values
-            raise ValueError("Couldn't find residual or forecast values in model")
+            data = model.data
+            history = pd.DataFrame(
+                {"time": data.time.values, "y": data.value.values}, copy=False
+            )
+            merge = fcst.merge(history, on="time")
+            return merge["y"].values - merge["fcst"].values
 
     def _get_all_residuals(self) -> Dict[int, npt.NDArray]:
         """
-- 
2.43.0


From 6c2a48d8c2edd7ce1d82b8ae1ac341bdca3fdbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:59 +0000
Subject: [PATCH 69/97] fix: hierarchical forecasts failed when a frequency is
 given

---
 kats/models/reconciliation/thm.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/kats/models/reconciliation/thm.py b/kats/models/reconciliation/thm.py
index b6b75bb..8e4bbe0 100644
--- a/kats/models/reconciliation/thm.py
+++ b/kats/models/reconciliation/thm.py
@@ -465,9 +465,11 @@ class TemporalHierarchicalModel:
             corresponding value is a np.array storing the forecasts.
         """
 
-        if freq is None:
-            # pyrefly: ignore [bad-assignment]
-            freq = self.data.infer_freq_robust()
+        step = (
+            self.data.infer_freq_robust()
+            if freq is None
+            else pd.tseries.frequencies.to_offset(freq)
+        )
         last_timestamp = self.data.time.max()
         fcsts = self._predict(
             steps, method=method, origin_fcst=origin_fcst, fcst_levels=fcst_levels
@@ -478,10 +480,8 @@ class TemporalHierarchicalModel:
             for k in fcsts[elm]:
                 fcst_num = len(fcsts[elm][k])
                 time = pd.date_range(
-                    # pyrefly: ignore [unsupported-operation]
-                    last_timestamp + freq * k,
-                    # pyrefly: ignore [unsupported-operation]
-                    last_timestamp + freq * k * fcst_num,
+                    last_timestamp + step * k,
+                    freq=step * k,
                     periods=fcst_num,
                 )
                 tmp[k] = pd.DataFrame({"time": time, "fcst": fcsts[elm][k]}, copy=False)
-- 
2.43.0


From c8f090910a828be5104d50cf7ffed47f982d291a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:59 +0000
Subject: [PATCH 70/97] fix: hierarchical forecasts ignored last_timestamp

---
 kats/models/reconciliation/thm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kats/models/reconciliation/thm.py b/kats/models/reconciliation/thm.py
index 8e4bbe0..4464b08 100644
--- a/kats/models/reconciliation/thm.py
+++ b/kats/models/reconciliation/thm.py
@@ -470,7 +470,8 @@ class TemporalHierarchicalModel:
             if freq is None
             else pd.tseries.frequencies.to_offset(freq)
         )
-        last_timestamp = self.data.time.max()
+        if last_timestamp is None:
+            last_timestamp = self.data.time.max()
         fcsts = self._predict(
             steps, method=method, origin_fcst=origin_fcst, fcst_levels=fcst_levels
         )
-- 
2.43.0


From ee7d04f665f445d93fbb743da7214254e49e0529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:04 +0000
Subject: [PATCH 71/97] fix: is_quarter_end was set for the wrong months

---
 kats/utils/feature_engineering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kats/utils/feature_engineering.py b/kats/utils/feature_engineering.py
index 4e53214..f4b9e5a 100644
--- a/kats/utils/feature_engineering.py
+++ b/kats/utils/feature_engineering.py
@@ -135,7 +135,7 @@ def date_features(s: pd.Series, result: Optional[pd.DataFrame] = None) -> pd.Dat
     # pyre-fixme[16]: `DatetimeIndex` has no attribute `is_month_end`.
     result["is_month_end"] = index.is_month_end
     # pyrefly: ignore [missing-attribute]
-    result["is_quarter_end"] = index.is_month_end & (index.month % 4 == 3)
+    result["is_quarter_end"] = index.is_month_end & (index.month % 3 == 0)
 
     return result
 
-- 
2.43.0


From bc35d56d5f6354a2118cedb8e1445d3201b905db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:04 +0000
Subject: [PATCH 72/97] fix: weekofmonth of times with a time zone used the
 month in UTC

---
 kats/utils/feature_engineering.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/kats/utils/feature_engineering.py b/kats/utils/feature_engineering.py
index f4b9e5a..e5961e6 100644
--- a/kats/utils/feature_engineering.py
+++ b/kats/utils/feature_engineering.py
@@ -113,13 +113,9 @@ def date_features(s: pd.Series, result: Optional[pd.DataFrame] = None) -> pd.Dat
     result["season"] = _map(index.month, _SEASON_MAP)
 
     result["weekofyear"] = index.isocalendar().week
-    try:
-        # Work around numpy Deprecation Warning about parsing timezones
-        # by converting to UTC and removing the tz info.
-        dates = index.tz_convert(None).to_numpy()
-    except TypeError:
-        # No timezone.
-        dates = index.to_numpy()
+    # Work around numpy Deprecation Warning about parsing timezones by removing
+    # the tz info. Keep the local time: it decides which month it is.
+    dates = index.tz_localize(None).to_numpy()
     first_of_month = pd.to_datetime(dates.astype("datetime64[M]"))
     # pyrefly: ignore [missing-attribute]
     week_of_month = np.ceil((first_of_month.dayofweek + index.day) / 7.0)
-- 
2.43.0


From f208a21f512e14c1c65ee6003a3298476feb02a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 73/97] fix: simulated anomalies at the first point of a
 segment got the level of another one

---
 kats/utils/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kats/utils/simulator.py b/kats/utils/simulator.py
index 94e516d..0a0df49 100644
--- a/kats/utils/simulator.py
+++ b/kats/utils/simulator.py
@@ -402,7 +402,7 @@ class Simulator:
                 raise ValueError(f"Anamaly point {y_idx} is out of range")
             # find out the mean value of this segment
             seg_idx = 0
-            while y_idx > cp_arr[seg_idx]:
+            while y_idx >= cp_arr[seg_idx]:
                 seg_idx += 1
             y_val[y_idx] = level_arr[seg_idx - 1] + z_score_arr[arr_idx] * noise
 
-- 
2.43.0


From 0273e4fd214bfbd9894652d573611aa21322d2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 74/97] fix: multivariate level shift simulation failed without
 change points

---
 kats/utils/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kats/utils/simulator.py b/kats/utils/simulator.py
index 0a0df49..facc6c5 100644
--- a/kats/utils/simulator.py
+++ b/kats/utils/simulator.py
@@ -536,7 +536,7 @@ class Simulator:
             z_score_arr = []
 
         # we need atleast points till second cp
-        if self.n < np.max(cp_arr):
+        if len(cp_arr) > 0 and self.n < np.max(cp_arr):
             self._adjust_length(np.max(cp_arr))
 
         df_dict = {"time": self.time}
-- 
2.43.0


From 8c9c016431cb703a5078ca8f54e4db2fd1ebc4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 75/97] fix: trend_shift_sim ignored its random seed

---
 kats/utils/simulator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kats/utils/simulator.py b/kats/utils/simulator.py
index facc6c5..9656aa7 100644
--- a/kats/utils/simulator.py
+++ b/kats/utils/simulator.py
@@ -619,6 +619,9 @@ class Simulator:
         if z_score_arr is None:
             z_score_arr = []
 
+        # pyrefly: ignore [bad-argument-type]
+        np.random.seed(seed=random_seed)
+
         # if cp_arr is not sorted, sort it
         cp_arr = sorted(cp_arr)
 
-- 
2.43.0


From d7140c840e9d5e5095214823c486dec6700ce251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 76/97] fix: trend_shift_sim started at the wrong value with a
 change point at zero

---
 kats/utils/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kats/utils/simulator.py b/kats/utils/simulator.py
index 9656aa7..3b84d22 100644
--- a/kats/utils/simulator.py
+++ b/kats/utils/simulator.py
@@ -653,7 +653,7 @@ class Simulator:
                 cp_begin, cp_end
             )
 
-            if i > 0:
+            if cp_begin > 0:
                 delta_val = y_val[cp_begin] - y_val[cp_begin - 1]
                 y_val[cp_begin:cp_end] -= delta_val
 
-- 
2.43.0


From b41b197b5aa04dda942d7d88116a5547e441c274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 77/97] fix: shifts and spikes injected into integer series
 failed or were lost

---
 kats/utils/simulator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kats/utils/simulator.py b/kats/utils/simulator.py
index 3b84d22..c696df4 100644
--- a/kats/utils/simulator.py
+++ b/kats/utils/simulator.py
@@ -756,7 +756,7 @@ class Simulator:
         for i in range(len(cp_arr) - 1):
             start = cp_arr[i]
             end = cp_arr[i + 1]
-            ts.value.values[start:end] += level_arr[i]
+            ts.value.iloc[start:end] += level_arr[i]
 
         return ts
 
@@ -789,10 +789,10 @@ class Simulator:
             start = cp_arr[i]
             end = cp_arr[i + 1]
             add_arr = trend_arr[i] * np.arange(end - start)
-            ts.value.values[start:end] += add_arr
+            ts.value.iloc[start:end] += add_arr
 
             # pyre-ignore Undefined attribute [16]: `float` has no attribute `__getitem__
-            ts.value.values[end:] += add_arr[-1]
+            ts.value.iloc[end:] += add_arr[-1]
 
         return ts
 
@@ -832,6 +832,6 @@ class Simulator:
         std_dev = np.std(ts_val[2:] - mov_avg)
 
         for a_index, z_score in zip(anomaly_arr, z_score_arr):
-            ts.value.values[a_index] += z_score * (std_dev + epsilon_std_dev)
+            ts.value.iloc[a_index] += z_score * (std_dev + epsilon_std_dev)
 
         return ts
-- 
2.43.0


From c6926154f3dcff2dd4fab4b852efec9bdd9839f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 78/97] fix: series with injected shifts or spikes kept the old
 minimum and maximum

---
 kats/utils/simulator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kats/utils/simulator.py b/kats/utils/simulator.py
index c696df4..98c2701 100644
--- a/kats/utils/simulator.py
+++ b/kats/utils/simulator.py
@@ -757,6 +757,7 @@ class Simulator:
             start = cp_arr[i]
             end = cp_arr[i + 1]
             ts.value.iloc[start:end] += level_arr[i]
+        ts._calc_min_max_values()
 
         return ts
 
@@ -793,6 +794,7 @@ class Simulator:
 
             # pyre-ignore Undefined attribute [16]: `float` has no attribute `__getitem__
             ts.value.iloc[end:] += add_arr[-1]
+        ts._calc_min_max_values()
 
         return ts
 
@@ -833,5 +835,6 @@ class Simulator:
 
         for a_index, z_score in zip(anomaly_arr, z_score_arr):
             ts.value.iloc[a_index] += z_score * (std_dev + epsilon_std_dev)
+        ts._calc_min_max_values()
 
         return ts
-- 
2.43.0


From e5347eb374852997b052c3a15286219f556d437b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:13 +0000
Subject: [PATCH 79/97] fix: pipelines over several series returned one model,
 fitted on the last of them

---
 kats/utils/cupik.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kats/utils/cupik.py b/kats/utils/cupik.py
index fd2dc8f..9dc7e21 100644
--- a/kats/utils/cupik.py
+++ b/kats/utils/cupik.py
@@ -5,6 +5,7 @@
 
 # pyre-strict
 
+import copy
 import logging
 import sys
 from typing import Any, Callable, Dict, List, Optional, Tuple, Union
@@ -256,7 +257,8 @@ class Pipeline:
         ):  # if current step is a scikit-learn model
             return self._fit_sklearn_(s, data, y)
 
-        _steps_ = [s for _ in range(len(data))]
+        # every series gets a step of its own: the results must not share state
+        _steps_ = [s] if len(data) == 1 else [copy.deepcopy(s) for _ in data]
         method = s.__type__
 
         extra_params = (self.extra_fitting_params or {}).get(n, {})
-- 
2.43.0


From 7d788ef912ab2f2bdf03459bcd18cc2f9a7813d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:13 +0000
Subject: [PATCH 80/97] fix: pipelines failed for detectors without a subtype
 and changed the caller's parameters

---
 kats/utils/cupik.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kats/utils/cupik.py b/kats/utils/cupik.py
index 9dc7e21..957a410 100644
--- a/kats/utils/cupik.py
+++ b/kats/utils/cupik.py
@@ -120,12 +120,13 @@ class Pipeline:
                 raise ValueError(msg)
             s.data.time = pd.to_datetime(s.data.time)
             # pyre-fixme[16]: `Step` has no attribute `__subtype__`.
-            if s.__subtype__ == "outlier":
-                extra_params["pipe"] = True
+            subtype = getattr(s, "__subtype__", None)
+            if subtype == "outlier":
+                extra_params = {**extra_params, "pipe": True}
             # pyre-fixme[16]: `Step` has no attribute `detector`.
             metadata.append(s.detector(**extra_params))
             if (
-                self.remove and s.__subtype__ == "outlier"
+                self.remove and subtype == "outlier"
             ):  # outlier removal when the step is outlier detector,
                 # and user required us to remove outlier
                 data[i] = s.remover(interpolate=True)
-- 
2.43.0


From 29af66bfe835b268a2add3625d367c15196b7ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:13 +0000
Subject: [PATCH 81/97] fix: pipelines that remove outliers replaced the series
 in the caller's list

---
 kats/utils/cupik.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kats/utils/cupik.py b/kats/utils/cupik.py
index 957a410..568b9d7 100644
--- a/kats/utils/cupik.py
+++ b/kats/utils/cupik.py
@@ -316,7 +316,8 @@ class Pipeline:
         self.extra_fitting_params = params
 
         if isinstance(data, list):
-            univariate = False
+            univariate = self.univariate = False
+            data = list(data)  # outliers are replaced in it
         else:
             # Put univariate data into a list
             univariate = self.univariate = True
-- 
2.43.0


From 1a84738f6b22abdbe13e51cc3e59e4cca9f5b5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 82/97] fix: TsFeatures could not be a step of a pipeline

---
 kats/tsfeatures/tsfeatures.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kats/tsfeatures/tsfeatures.py b/kats/tsfeatures/tsfeatures.py
index 993f836..5d59520 100644
--- a/kats/tsfeatures/tsfeatures.py
+++ b/kats/tsfeatures/tsfeatures.py
@@ -307,6 +307,9 @@ class TsFeatures:
         default: The default status of the switch for opt-in/out feature calculations.
     """
 
+    # what it is in a pipeline, see kats.utils.cupik
+    __type__: str = "transformer"
+
     _total_feature_len_: int = 0
     _ts_methods: Dict[str, TSMethod]
     _x_methods: Dict[str, ArrayMethod]
-- 
2.43.0


From b423418877bd36239f382bb80109b9baea69444c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 83/97] fix: meta-learner mixed up features listed in another
 order and failed for features given as text

---
 kats/models/metalearner/metalearner_modelselect.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/kats/models/metalearner/metalearner_modelselect.py b/kats/models/metalearner/metalearner_modelselect.py
index edc8deb..f5847a6 100644
--- a/kats/models/metalearner/metalearner_modelselect.py
+++ b/kats/models/metalearner/metalearner_modelselect.py
@@ -116,15 +116,13 @@ class MetaLearnModelSelect:
                 hpt_list.append(self.metadata[i]["hpt_res"])
 
             if isinstance(self.metadata[i]["features"], str):
-                metadataX_list.append(
-                    list(ast.literal_eval(self.metadata[i]["features"]).values())
-                )
+                metadataX_list.append(ast.literal_eval(self.metadata[i]["features"]))
             else:
-                metadataX_list.append(list(self.metadata[i]["features"].values()))
+                metadataX_list.append(self.metadata[i]["features"])
 
             metadataY_list.append(self.metadata[i]["best_model"])
 
-        self.col_namesX = list(self.metadata[0]["features"].keys())
+        self.col_namesX = list(metadataX_list[0].keys())
         self.hpt = pd.Series(hpt_list, name="hpt", copy=False)
         self.metadataX = pd.DataFrame(
             metadataX_list, columns=self.col_namesX, copy=False
-- 
2.43.0


From e2337b6064c0aa9f582447d7a8467cd0e83c75af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 84/97] fix: missing metadata raised TypeError instead of the
 error meant for it

---
 kats/models/metalearner/metalearner_modelselect.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/kats/models/metalearner/metalearner_modelselect.py b/kats/models/metalearner/metalearner_modelselect.py
index f5847a6..d83ec0c 100644
--- a/kats/models/metalearner/metalearner_modelselect.py
+++ b/kats/models/metalearner/metalearner_modelselect.py
@@ -63,15 +63,13 @@ class MetaLearnModelSelect:
         self, metadata: Optional[List[Dict[str, Any]]] = None, load_model: bool = False
     ) -> None:
         if not load_model:
-            # pyre-fixme[6]: Expected `Sized` for 1st param but got
-            #  `Optional[List[typing.Any]]`.
-            if len(metadata) <= 30:
-                msg = "Dataset is too small to train a meta learner!"
+            if metadata is None:
+                msg = "Missing metadata!"
                 logging.error(msg)
                 raise ValueError(msg)
 
-            if metadata is None:
-                msg = "Missing metadata!"
+            if len(metadata) <= 30:
+                msg = "Dataset is too small to train a meta learner!"
                 logging.error(msg)
                 raise ValueError(msg)
 
-- 
2.43.0


From 67a55c9a468503e299996d3d477d4257b882d548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:59 +0000
Subject: [PATCH 85/97] fix: meta-learner filled missing features after scaling
 and refused frames of features

---
 kats/models/metalearner/metalearner_modelselect.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kats/models/metalearner/metalearner_modelselect.py b/kats/models/metalearner/metalearner_modelselect.py
index d83ec0c..8fc2415 100644
--- a/kats/models/metalearner/metalearner_modelselect.py
+++ b/kats/models/metalearner/metalearner_modelselect.py
@@ -443,13 +443,16 @@ class MetaLearnModelSelect:
             x = np.vstack(source_x)
         elif isinstance(source_x, np.ndarray):
             x = source_x.copy()
+        elif isinstance(source_x, pd.DataFrame):
+            x = source_x.to_numpy(dtype=float, copy=True)
         else:
             msg = f"Invalid source_x type: {type(source_x)}."
             logging.error(msg)
             raise ValueError(msg)
+        # missing features are zero before they are scaled, as in training
+        x[np.isnan(x)] = 0.0
         if self.scale:
             x = (x - self.x_mean) / self.x_std
-        x[np.isnan(x)] = 0.0
         if n_top == 1:
             return self.clf.predict(x)
         prob = self.clf.predict_proba(x)
-- 
2.43.0


From e0ba2230c515968b1be2b76b3194ee73bd2ad421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:59 +0000
Subject: [PATCH 86/97] fix: preprocessing the metadata again scaled the
 features twice

---
 kats/models/metalearner/metalearner_modelselect.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kats/models/metalearner/metalearner_modelselect.py b/kats/models/metalearner/metalearner_modelselect.py
index 8fc2415..2db1a7b 100644
--- a/kats/models/metalearner/metalearner_modelselect.py
+++ b/kats/models/metalearner/metalearner_modelselect.py
@@ -179,11 +179,12 @@ class MetaLearnModelSelect:
                 self.hpt, self.metadataX, self.metadataY
             ).fit_resample()
             logging.info("Successfully applied random downsampling!")
+        if downsample and not self.scale:
             self.x_mean = np.average(self.metadataX.values, axis=0)
             self.x_std = np.std(self.metadataX.values, axis=0)
             self.x_std[self.x_std == 0] = 1.0
 
-        if scale:
+        if scale and not self.scale:
             self.scale = True
             self.metadataX = (self.metadataX - self.x_mean) / self.x_std
             logging.info(
-- 
2.43.0


From 1b2d07abf401d026328aebaa0f72a998a5a728c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:59 +0000
Subject: [PATCH 87/97] fix: metadata without a result for the best model
 shifted all labels

---
 kats/models/metalearner/metalearner_predictability.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kats/models/metalearner/metalearner_predictability.py b/kats/models/metalearner/metalearner_predictability.py
index d73ba1e..e485123 100644
--- a/kats/models/metalearner/metalearner_predictability.py
+++ b/kats/models/metalearner/metalearner_predictability.py
@@ -122,8 +122,9 @@ class MetaLearnPredictability:
                 else:
                     feature = metadata[i]["features"]
 
+                label = hpt[metadata[i]["best_model"]][1]
                 self.features.append(feature)
-                self.labels.append(hpt[metadata[i]["best_model"]][1])
+                self.labels.append(label)
             except Exception as e:
                 logging.exception(e)
         self.labels = (np.array(self.labels) > self.threshold).astype(int)
-- 
2.43.0


From 8d528ba20838d2bbdbf46b7bc55012c2c1939ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:59 +0000
Subject: [PATCH 88/97] fix: predictability classifier ignored the number of
 neighbours

---
 kats/models/metalearner/metalearner_predictability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kats/models/metalearner/metalearner_predictability.py b/kats/models/metalearner/metalearner_predictability.py
index e485123..ee79ee8 100644
--- a/kats/models/metalearner/metalearner_predictability.py
+++ b/kats/models/metalearner/metalearner_predictability.py
@@ -240,7 +240,7 @@ class MetaLearnPredictability:
         elif method == "GBDT":
             clf = GradientBoostingClassifier(**kwargs)
         elif method == "KNN":
-            kwargs["n_neighbors"] = kwargs.get("n_neighbors", 5)
+            kwargs["n_neighbors"] = n_neighbors
             clf = KNeighborsClassifier(**kwargs)
         else:
             kwargs["n_estimators"] = n_estimators
-- 
2.43.0


From 604e6083a5667fba9bd44826f33f2f38224896dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:59 +0000
Subject: [PATCH 89/97] fix: predictability threshold missed the asked recall

---
 kats/models/metalearner/metalearner_predictability.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/kats/models/metalearner/metalearner_predictability.py b/kats/models/metalearner/metalearner_predictability.py
index ee79ee8..562cce2 100644
--- a/kats/models/metalearner/metalearner_predictability.py
+++ b/kats/models/metalearner/metalearner_predictability.py
@@ -250,15 +250,16 @@ class MetaLearnPredictability:
         pred_valid = clf.predict_proba(x_valid)[:, 1]
         p, r, threshold = precision_recall_curve(y_valid, pred_valid)
         try:
-            clf_threshold = threshold[np.where(p == np.max(p[r >= recall_threshold]))][
-                -1
-            ]
+            # the last precision and recall have no threshold
+            proper = r[:-1] >= recall_threshold
+            best = np.max(p[:-1][proper])
+            clf_threshold = threshold[proper & (p[:-1] == best)][-1]
         except Exception as e:
             msg = f"Fail to get a proper threshold for recall {recall_threshold}, use 0.5 as threshold instead. Exception message is: {e}"
             logging.warning(msg)
             clf_threshold = 0.5
         if x_test is not None:
-            pred_test = clf.predict_proba(x_test)[:, 1] > clf_threshold
+            pred_test = clf.predict_proba(x_test)[:, 1] >= clf_threshold
             precision_test, recall_test, f1_test, _ = precision_recall_fscore_support(
                 y_test, pred_test, average="binary"
             )
-- 
2.43.0


From e949e2f53e570feb7b956311522d3800a6835ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:59 +0000
Subject: [PATCH 90/97] fix: preprocessing features again scaled them twice

---
 kats/models/metalearner/metalearner_predictability.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kats/models/metalearner/metalearner_predictability.py b/kats/models/metalearner/metalearner_predictability.py
index 562cce2..a910b07 100644
--- a/kats/models/metalearner/metalearner_predictability.py
+++ b/kats/models/metalearner/metalearner_predictability.py
@@ -166,6 +166,8 @@ class MetaLearnPredictability:
             None.
         """
 
+        if self.rescale:
+            return
         self.rescale = True
         # pyrefly: ignore [missing-attribute]
         features = (self.features.values - self.features_mean) / self.features_std
-- 
2.43.0


From f156b9ad3634d3a4ce150cd9e439cd42ab642d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:59 +0000
Subject: [PATCH 91/97] fix: training a detector selection changed the given
 metadata, and windows again each time

---
 .../meta_learning/metalearning_detection_model.py         | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kats/detectors/meta_learning/metalearning_detection_model.py b/kats/detectors/meta_learning/metalearning_detection_model.py
index 0bddc71..07a83d7 100644
--- a/kats/detectors/meta_learning/metalearning_detection_model.py
+++ b/kats/detectors/meta_learning/metalearning_detection_model.py
@@ -6,6 +6,7 @@
 # pyre-strict
 
 import ast
+import copy
 import logging
 import math
 from typing import Any, Dict, List, Optional, Set, Union
@@ -42,9 +43,7 @@ def get_ts_features(ts: TimeSeriesData) -> Dict[str, float]:
 
 
 def change_dtype(d: Dict[str, Any]) -> Dict[str, float]:
-    for elm in d:
-        d[elm] = float(d[elm])
-    return d
+    return {elm: float(d[elm]) for elm in d}
 
 
 def change_str_to_dict(x: Union[str, Dict[str, Any]]) -> Optional[Dict[str, Any]]:
@@ -64,9 +63,10 @@ def metadata_detect_preprocessor(
     rawdata: pd.DataFrame,
     params_to_scale_down: Set[str] = PARAMS_TO_SCALE_DOWN,
 ) -> List[Dict[str, Any]]:
+    rawdata = rawdata.copy()
     rawdata["features"] = rawdata["features"].map(change_str_to_dict)
     rawdata["features"] = rawdata["features"].map(change_dtype)
-    rawdata["hpt_res"] = rawdata["hpt_res"].map(change_str_to_dict)
+    rawdata["hpt_res"] = rawdata["hpt_res"].map(change_str_to_dict).map(copy.deepcopy)
 
     table = [
         {
-- 
2.43.0


From 20b3b2755e46843d7355768e83417efe89d7e2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:59 +0000
Subject: [PATCH 92/97] fix: metrics reported before training failed instead of
 training

---
 kats/detectors/meta_learning/metalearning_detection_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kats/detectors/meta_learning/metalearning_detection_model.py b/kats/detectors/meta_learning/metalearning_detection_model.py
index 07a83d7..7ae39d8 100644
--- a/kats/detectors/meta_learning/metalearning_detection_model.py
+++ b/kats/detectors/meta_learning/metalearning_detection_model.py
@@ -172,7 +172,7 @@ class MetaDetectModelSelect:
 
     def report_metrics(self) -> pd.DataFrame:
         # report the summary, as in the notebook N1154788
-        if self.results is None:
+        if not self.results:
             self.results = self.train()
 
         summary = pd.DataFrame(
-- 
2.43.0


From f922b7c26e9279e6bcc66051f0566012751c8e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 93/97] fix: Prophet with cap or floor from the data failed on
 one column instead of refusing it

---
 kats/models/prophet.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kats/models/prophet.py b/kats/models/prophet.py
index 24d7b8c..11b6700 100644
--- a/kats/models/prophet.py
+++ b/kats/models/prophet.py
@@ -275,12 +275,15 @@ class ProphetModel(Model[ProphetParams]):
             if not extra_regressor_names.issubset(value_cols):
                 msg = f"`data` should contain all columns listed in {extra_regressor_names}."
                 raise ValueError(msg)
+        value_names = (
+            [] if self.data.is_univariate() else list(self.data.value.columns)
+        )
         # validate cap
-        if (self.params.cap is True) and ("cap" not in self.data.value.columns):
+        if (self.params.cap is True) and ("cap" not in value_names):
             msg = "`data` should contain a column called `cap` representing the cap when `cap = True`."
             _error_msg(msg)
         # validate floor
-        if (self.params.floor is True) and ("floor" not in self.data.value.columns):
+        if (self.params.floor is True) and ("floor" not in value_names):
             msg = "`data` should contain a column called `floor` representing the floor when `floor = True`."
             _error_msg(msg)
 
-- 
2.43.0


From 6513923a95b4d9c5edc15923fda4c53c49ede218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 94/97] fix: Prophet forecasts added columns to the given
 future frame

---
 kats/models/prophet.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kats/models/prophet.py b/kats/models/prophet.py
index 11b6700..cf76ff4 100644
--- a/kats/models/prophet.py
+++ b/kats/models/prophet.py
@@ -313,7 +313,10 @@ class ProphetModel(Model[ProphetParams]):
         self, steps: int, future: Optional[pd.DataFrame]
     ) -> pd.DataFrame:
         non_future = future is None
-        if future is None:
+        if future is not None:
+            # cap and floor are added below: keep the caller's frame as it is
+            future = future.copy()
+        else:
             # Prophet removes nulls from the data. If we encounter nulls in the
             # end of the time series, Prophet won't have that in its history and
             # we won't generate enough steps.
-- 
2.43.0


From 5a19ac185d1a923492b2836480c480e5bb0afcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 95/97] fix: Prophet could not forecast without a future frame
 when the series has several columns

---
 kats/models/prophet.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kats/models/prophet.py b/kats/models/prophet.py
index cf76ff4..0defabe 100644
--- a/kats/models/prophet.py
+++ b/kats/models/prophet.py
@@ -321,7 +321,10 @@ class ProphetModel(Model[ProphetParams]):
             # end of the time series, Prophet won't have that in its history and
             # we won't generate enough steps.
             count_trailing_nulls = 0
-            nulls = self.data.value.isnull()
+            value = self.data.value
+            if not self.data.is_univariate():
+                value = value["y"]
+            nulls = value.isnull()
             while nulls.iloc[-1 - count_trailing_nulls]:
                 count_trailing_nulls += 1
             # pyre-fixme
-- 
2.43.0


From 67e652571119b109f1836b397b4a592e4fc0690f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 96/97] fix: Prophet forecasts with history lost steps when
 values are missing or a floor is given without logistic growth

---
 kats/models/prophet.py | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/kats/models/prophet.py b/kats/models/prophet.py
index 0defabe..d6ae7a3 100644
--- a/kats/models/prophet.py
+++ b/kats/models/prophet.py
@@ -352,23 +352,12 @@ class ProphetModel(Model[ProphetParams]):
         if not isinstance(self.params.cap, bool):
             future["cap"] = self.params.cap
         if non_future:  # when `future` not generated by helper functions
-            if self.include_history:
-                future = future.merge(
-                    # pyre-fixme
-                    self.model.history,
-                    on=(
-                        ["ds"]
-                        + self.params._reqd_regressor_names
-                        + self.params._reqd_cap_floor_names
-                    ),
-                    how="outer",
-                )
-            else:
-                future = future[future.ds > self.data.time.max()]
+            # `future` already holds the historical times if `include_history`
+            is_history = future.ds <= self.data.time.max()
+            if not self.include_history:
+                future = future[~is_history]
 
-            reqd_length = steps + int(
-                self.data.value.notnull().sum() * self.include_history
-            )
+            reqd_length = steps + int(is_history.sum() * self.include_history)
             if len(future) < reqd_length:
                 msg = f"Input `future` is not long enough to generate forecasts of {steps} steps."
                 _error_msg(msg)
-- 
2.43.0


From e4167a9b8bad15128d1ae330399a8f6bf4876ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:42 +0000
Subject: [PATCH 97/97] fix: Prophet forecasts failed with uncertainty
 estimation switched off

---
 kats/models/prophet.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kats/models/prophet.py b/kats/models/prophet.py
index d6ae7a3..f414cec 100644
--- a/kats/models/prophet.py
+++ b/kats/models/prophet.py
@@ -493,12 +493,13 @@ class ProphetModel(Model[ProphetParams]):
         logging.info("Generated forecast data from Prophet model.")
         logging.debug("Forecast data: {fcst}".format(fcst=fcst))
 
+        # there are no intervals if `uncertainty_samples` is 0 or False
         self.fcst_df = fcst_df = pd.DataFrame(
             {
                 "time": fcst.ds,
                 "fcst": fcst.yhat,
-                "fcst_lower": fcst.yhat_lower,
-                "fcst_upper": fcst.yhat_upper,
+                "fcst_lower": fcst.get("yhat_lower", np.nan),
+                "fcst_upper": fcst.get("yhat_upper", np.nan),
             },
             copy=False,
         )
-- 
2.43.0

