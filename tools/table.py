prop("C01", "Building a series keeps every observation, in time order",
     "Whatever the input form (frame or separate times and values), time encoding (datetime, text, custom format, unix in any unit, time zone), row order, duplicates, value types and index labels, a new TimeSeriesData holds exactly the given (time, values) rows, sorted by time unless told not to, with the right names, zone, dimension, minimum and maximum. "
     "Duplicates are dropped only when asked to, and the caller's objects are never changed. "
     "Inputs without a time column, of different lengths, of unsupported types or with non-numeric values are refused with an error.",
     ["inputs", "configurations"], "every table of observations and every combination of constructor options",
     "Tests build a few small fixed frames; permutations, ties, encodings, odd index labels and dtypes interact and are never combined.",
     ["kats/consts.py"], [("TimeSeriesData.__init__, _set_univariate_values_to_series, calc_min_max_values", "kats/consts.py"),
                          ("unix and format parsing of times", "kats/consts.py")],
     "runtime monitor: row-multiset conservation oracle on recorded constructions",
     "Randomised constructions compared with a list-of-rows model.", ["TimeSeriesData attributes after construction"])
prop("C02", "Any history of series operations agrees with a plain list of rows",
     "After any sequence of slicing, choosing columns, excluding a time range, extending, replacing values, exporting to and importing from a frame, iterating, and changing the time zone, a series holds exactly the rows, names, instants, minimum and maximum that the same steps give on a plain list of rows. "
     "Operations that return a new series leave their operand unchanged, extending with validation refuses irregular results, and two series are equal exactly when names, times and values are equal (regardless of column order), and unequal to anything else.",
     ["histories", "inputs"], "every sequence of operations on every univariate or multivariate series",
     "Tests apply single operations to one fixed series; stale minima, misaligned indexes and wrong zones appear only after sequences of operations.",
     ["kats/consts.py"], [("extend, exclude, __getitem__, value setter, __eq__, convert_timezone, TSIterator, to_dataframe", "kats/consts.py")],
     "runtime monitor: model-based history checker (trace of operations replayed on a list model)",
     "Random operation histories compared step by step with a list model; input aliasing is checked with deep snapshots.",
     ["series state after every operation"])
prop("C03", "Series arithmetic is pointwise on equal timestamps, else refused",
     "Adding, subtracting, multiplying or dividing two series with the same distinct timestamps and the same names, or a series and a number, gives the pointwise result at the same times in time order, with the names, zone, minimum and maximum of the result consistent, whatever the order of rows and columns. "
     "Operands whose timestamps or dimensions do not match, or that are not series or numbers, are refused, and operands are never changed.",
     ["inputs"], "every pair of series and every number",
     "Tests use one fixed pair per operator; alignment depends on row order, column order, index labels and zones.",
     ["kats/consts.py"], [("_perform_op, _get_binary_op_other_arg", "kats/consts.py")],
     "runtime monitor: differential oracle against scalar arithmetic per timestamp",
     "Random operand pairs compared with scalar arithmetic; domain: distinct timestamps.", ["results of + - * /"])
prop("C04", "Interpolation fills every gap of the grid and keeps observations",
     "Interpolating a series whose times lie on a regular grid gives every grid time from first to last exactly once, keeps observed values, fills gaps linearly in time, from the previous or from the next observation as asked, and leaves nothing missing and the source unchanged. "
     "The inferred step is the most frequent gap, and missing-data detection and frequency validation accept a series exactly when its gaps are all equal.",
     ["inputs", "configurations"], "every pattern of missing points, step, method, zone, and number of columns",
     "Tests interpolate one short series; the position and length of gaps, zones, duplicates and columns matter.",
     ["kats/consts.py"], [("interpolate, infer_freq_robust, is_data_missing, validate_data, freq_to_timedelta", "kats/consts.py")],
     "runtime monitor: reference interpolation oracle over randomly holed grids",
     "Random grids with holes compared with a reference that only looks up neighbours.", ["TimeSeriesData.interpolate output"])
prop("C05", "Forecast metrics equal their published formulas",
     "For any equally long actual and forecast values in any accepted container, every metric returns the value of its published formula, ignoring pairs with a missing value, counting a zero denominator as plus or minus one (zero for 0/0), with weights normalised to sum to one, and within the range its metadata states; it never changes its arguments. "
     "Aliases and lookup by name give the same function, and different lengths, unknown names and out-of-range thresholds are refused.",
     ["inputs"], "every pair of vectors, weights, thresholds and interval bounds",
     "Tests give one or two vectors per metric; signs, zeros, missing values, weights and multi-output shapes are not covered.",
     ["kats/metrics/metrics.py", "kats/metrics/metadata.py"],
     [("metric functions and _safe_divide", "kats/metrics/metrics.py"), ("stated bounds", "kats/metrics/metadata.py")],
     "runtime monitor: differential oracle against scalar reference formulas",
     "Random vectors compared with scalar loops; probability metrics only on complete actual values.", ["metric return values"])
prop("C06", "Data partitioners never leak, lose, reorder or mix up rows",
     "Each fold of a data partitioner holds exactly the contiguous training rows and, after the configured gap, the test rows that its fractions, sizes, inclusive timestamps, number of folds and window mode define, in time order and never overlapping; rolling origins advance evenly from the first position to the end of the data. "
     "Lists and dictionaries of series are split independently and keep their shape, keys and order however the splitting threads are scheduled, inputs are left unchanged, and invalid parameters or inputs are refused.",
     ["inputs", "configurations", "schedules"], "every collection of series, every partition parameter, every thread schedule",
     "Tests split one series of 10 points with a few settings and never vary lengths, thread counts or completion order.",
     ["kats/utils/datapartition.py"], [("_single_train_test_split of the three partitioners", "kats/utils/datapartition.py"),
                                       ("thread pool and regrouping in DataPartitionBase.split", "kats/utils/datapartition.py")],
     "runtime monitor: fold-trace oracle with injected delays in the threads",
     "Random collections and settings, with sleeps injected into series reads to vary completion order.", ["split results"])
prop("C07", "Backtests score each fold's forecasts against that fold's rows",
     "Every backtester and cross validation trains one fresh model per fold on exactly that fold's training rows, asks for the right horizon and frequency, and compares the forecasts for exactly the test rows (after any gap) in fold order; folds are spread evenly, errors are averaged by fold length (or as the summariser says), and running in parallel or running again gives the same results as one serial run. "
     "A failing model makes a classic backtest fail and a generic backtest record the substitute score for that fold only; invalid percentages, gaps, fold counts and error names are refused.",
     ["inputs", "configurations", "schedules", "fault_sequences"],
     "every series, split parameter, scheduling of the folds and subset of failing folds",
     "Tests mock the model with a fixed forecast list, so they cannot notice wrong rows, shared models, order mix-ups in parallel runs, or failures.",
     ["kats/utils/backtesters.py"], [("_create_train_test_splits, _create_model, calc_error, _build_and_train_models", "kats/utils/backtesters.py"),
                                     ("GenericBacktester._fit_and_scorer and _summarize", "kats/utils/backtesters.py")],
     "runtime monitor: recording model and exactly-once fold log, with injected delays and failures",
     "A recording model whose forecasts identify its inputs; delays and failures are injected per fold.", ["backtester results, errors, raw errors"])
prop("C08", "Regression and heuristic forecasters equal their closed forms",
     "Fitting linear, quadratic and harmonic regression models gives the ordinary least-squares curve over row order (or over the times, for harmonics) with its exact prediction interval at the given confidence, and the simple heuristic gives the last, mean, median or percentile of the values at the same place of each earlier block. "
     "Forecasts are stamped with the next steps of the series' grid for every horizon from one step on, history comes first when asked for, and repeated fits and predictions, a given or inferred step, and the other times asked for never change the values. "
     "Invalid parameters, several columns, and predicting before fitting are refused, and the data are never changed.",
     ["inputs", "configurations"], "every regular series, step, horizon, confidence and option",
     "Tests fit one dataset and compare with stored numbers for one horizon; other horizons, steps, scales, history and repeated use are open.",
     ["kats/models/linear_model.py", "kats/models/quadratic_model.py", "kats/models/simple_heuristic_model.py",
      "kats/models/harmonic_regression.py"],
     [("fit and predict", "kats/models/linear_model.py"), ("fit and predict", "kats/models/quadratic_model.py"),
      ("predict", "kats/models/simple_heuristic_model.py"), ("fit, predict, fourier_series", "kats/models/harmonic_regression.py")],
     "runtime monitor: differential oracle against closed-form least squares and block statistics",
     "Random series and options compared with closed forms computed by other means (QR, scalar loops).", ["predict() results"])
prop("C09", "Statistical forecasters are the model asked for, on the right dates",
     "Holt-Winters, theta, ARIMA, SARIMA, STLF (with each base model), VAR and Bayesian VAR forecasts and intervals equal those of the named statistical model with exactly the given parameters (order, trend, damping, season, priors, confidence, regressors) fitted on exactly the given series. "
     "Forecasts carry the next steps of the series' grid, history (fitted values on the data's own times) comes first when asked for, intervals contain the forecast, and neither the data nor the parameters given are changed by any number of fits and predictions. "
     "Invalid parameters, the wrong number of columns and predicting before fitting are refused.",
     ["inputs", "configurations", "histories"], "every regular series, parameter setting, horizon and sequence of calls",
     "Tests compare stored forecasts of a few datasets with mostly default parameters; options that are dropped on the way, phases, dates and state kept between calls go unnoticed.",
     ["kats/models/holtwinters.py", "kats/models/theta.py", "kats/models/arima.py", "kats/models/sarima.py",
      "kats/models/stlf.py", "kats/models/var.py", "kats/models/bayesian_var.py", "kats/utils/decomposition.py"],
     [("fit and predict", "kats/models/theta.py"), ("fit, predict, deseasonalisation", "kats/models/stlf.py"),
      ("fit and predict", "kats/models/var.py"), ("Minnesota prior, _evaluate_point_t, predict", "kats/models/bayesian_var.py")],
     "runtime monitor: differential oracle against independently fitted reference models",
     "References fitted with statsmodels or written out in the check (theta, STLF, Bayesian VAR).", ["predict() results"])
prop("C10", "Combined forecasts and empirical intervals add up",
     "A median or weighted ensemble, including the Kats ensemble with and without seasonality, returns the median or the weighted sum of exactly its members' own forecasts, with weights inverse to each member's error on the last fifth of the data under the metric asked for, summing to one, whatever order the worker processes finish in, and a failing member is reported to the caller. "
     "Empirical confidence intervals and block-wise ensemble prediction intervals have the centre, spread and confidence that the model's own errors on the folds or blocks of the data imply, in parallel as in serial. "
     "Forecasts are stamped with the next steps of the grid, the data are unchanged, and unsuitable parameters, data and call orders are refused.",
     ["inputs", "configurations", "schedules", "fault_sequences"],
     "every series, set of members, option, completion order of workers and failing member",
     "Tests run one ensemble of mocked or default members and mostly check that something is returned.",
     ["kats/models/ensemble/ensemble.py", "kats/models/ensemble/median_ensemble.py", "kats/models/ensemble/weighted_avg_ensemble.py",
      "kats/models/ensemble/kats_ensemble.py", "kats/utils/emp_confidence_int.py", "kats/utils/ensemble_predict_interval.py"],
     [("_fit_multiple, _backtester_all", "kats/models/ensemble/weighted_avg_ensemble.py"),
      ("fit, predict, aggregate, _reseasonalize", "kats/models/ensemble/kats_ensemble.py"),
      ("get_eci", "kats/utils/emp_confidence_int.py"), ("get_projection", "kats/utils/ensemble_predict_interval.py")],
     "runtime monitor: recombination oracle over members fitted alone, with delays and failures injected into workers",
     "Members are refitted alone and recombined; interval references are computed from models whose errors are known.",
     ["ensemble predict(), aggregate(), weights", "get_eci, get_projection"])
prop("C11", "CUSUM finds the change its statistics define, and flags it only if significant",
     "For every series, window of interest, starting point, iteration limit and threshold, the univariate CUSUM detector reports per direction the point where the iterated cumulated sum has its extreme, with the means, change, log likelihood ratios, p-values, convergence and time belonging to that point, and flags it exactly when it is significant (also within the window), large enough in absolute terms and in standard deviations, and, where asked, larger than on comparable earlier days. "
     "The vectorised detector gives for every column what the univariate one gives for it alone, and the multivariate detector the same statistics with the inverse covariance of the data. "
     "Constant data have no change, data are never changed, runs do not influence each other, and unsupported data and directions are refused.",
     ["inputs", "configurations"], "every series, set of columns, window, direction and threshold",
     "Tests place one large step in the middle of a series and assert that one change point is found near it.",
     ["kats/detectors/cusum_detection.py"],
     [("_get_change_point, _get_llr, _magnitude_compare, detector", "kats/detectors/cusum_detection.py"),
      ("VectorizedCUSUMDetector.detector, detector_", "kats/detectors/cusum_detection.py"),
      ("MultiCUSUMDetector._get_change_point, _get_llr", "kats/detectors/cusum_detection.py")],
     "runtime monitor: scalar reference model of the detector over recorded results",
     "Random series and options compared with scalar loops; cases too close to a limit are set aside; only increases are judged with the magnitude comparison.",
     ["change points returned by detector()"])
prop("C12", "Streaming CUSUM raises, keeps and clears alerts as documented",
     "For any stream cut into any chunks, with or without history, missing rows and time zones, the CUSUM model scans window after window, raises an alert at the first change point found in a scan, scores data after it against the baseline before it (as change, share or z-score) and everything else as zero, and clears the alert when the scan window's mean is back within the limits of the monitored directions or the change is over a week old. "
     "A model serialised and restored between chunks continues exactly as the original, the vectorised calculation and every column of the vectorised model give the same scores, magnitudes, change points and state as the plain model, and one score per data time is returned with the data unchanged. "
     "Missing or unsuitable windows, data without a step and predicting without fitting are refused.",
     ["histories", "inputs", "configurations"], "every stream, cut into chunks, window setting, direction and score function",
     "Tests run one or two fixed streams and check the number of change points; recoveries, chunk borders and restored states are hardly exercised.",
     ["kats/detectors/cusum_model.py"],
     [("_fit, _predict, fit_predict, _if_normal, serialize", "kats/detectors/cusum_model.py"),
      ("_fit_vec_row, vectorized branch of fit_predict", "kats/detectors/cusum_model.py"),
      ("VectorizedCUSUMDetectorModel", "kats/detectors/cusum_model.py")],
     "runtime monitor: state-machine specification replayed over the stream in step with the model",
     "Random streams compared with a state machine on plain lists; no seasonality removal and no magnitude comparison.",
     ["scores, magnitudes, cps and alert_fired after every chunk", "serialize()"])
prop("C13", "Intervals, percentage changes and anomaly responses match their definitions",
     "A detector interval holds exactly the points between its start and end (also while it is extended) and reports their means, variances, sample counts and spikes per column; a percentage change between a control and a test interval reports for every column the ratio of means, percentage change, direction, delta-method confidence interval, t-score, p-value and significance that the formulas give, with the chosen t-test, false-discovery correction and minimum change. "
     "Updating an anomaly response with a new point shifts every part (scores, bounds, predictions, magnitudes, significance) by one and keeps lengths, times and column names, and taking the last points or extending a response keeps all parts aligned and refuses responses that do not match. "
     "Operands are left unchanged.",
     ["inputs", "histories"], "every pair of intervals, every option and every sequence of updates of a response",
     "Tests compare a few fixed numbers; stale means after extension, misaligned parts and column mix-ups appear only for other sizes and sequences.",
     ["kats/detectors/detector_consts.py"],
     [("ChangePointInterval, PercentageChange", "kats/detectors/detector_consts.py"),
      ("AnomalyResponse.update, get_last_n, extend, ConfidenceBand", "kats/detectors/detector_consts.py")],
     "runtime monitor: recomputation oracle per interval pair and a list model of response histories",
     "Random intervals and random histories of updates, against formulas on plain lists.",
     ["ChangePointInterval and PercentageChange properties", "AnomalyResponse parts after every update"])
prop("C14", "Significance detectors compare exactly the two windows before each point",
     "For every point of the data, the univariate and multivariate significance detectors report the t-score, significance, percentage change and confidence bounds of the test window ending at that point against the control window just before it, with times and columns as in the data, and zero or neutral values while the windows are not yet filled; scores are clipped and minimum changes respected as documented. "
     "This holds with any division into history and data, for long data split internally, after removing seasonality, for a restored serialized detector, and for repeated runs, and the caller's history and data are left unchanged. "
     "Windows that are missing, mismatched columns and data without a step are refused.",
     ["inputs", "histories", "configurations"], "every series, division into history and data, window length and option",
     "Tests check output lengths and a few scores of one series; off-by-one windows, lost scores of split data and mutated history stay unnoticed.",
     ["kats/detectors/stat_sig_detector.py"],
     [("StatSigDetectorModel.fit_predict, _update, _should_update", "kats/detectors/stat_sig_detector.py"),
      ("MultiStatSigDetectorModel", "kats/detectors/stat_sig_detector.py"),
      ("split of long data, seasonality removal, serialize", "kats/detectors/stat_sig_detector.py")],
     "runtime monitor: every reported point is recomputed from the two windows before it",
     "Random histories and data; the oracle selects the windows by time from all rows and applies the formulas.",
     ["every part of the response of fit_predict", "repeated and restored runs", "caller's data snapshots"])
prop("C15", "Decompositions give the data back from trend, seasonal part and remainder",
     "Decomposing a series into trend, seasonal part and remainder yields three series at the times of the data whose sum (or product, for multiplicative decompositions) is the data, with the components the chosen method, period and smoothing options give, a seasonal part that repeats with the period where the method demands it, and missing values filled in. "
     "The seasonality handler's parts without seasonality and with only seasonality add up to the data, with the times and column names of the data. "
     "The caller's series is unchanged, and series that are too short, of several columns (where not supported), with unknown settings or on no grid are refused.",
     ["inputs", "configurations"], "every series, method, form, period and smoothing option",
     "Tests check that decomposition runs and a few components; shifted times, swapped components and lost columns show only for other data.",
     ["kats/utils/decomposition.py"],
     [("TimeSeriesDecomposition.decomposer", "kats/utils/decomposition.py"),
      ("SeasonalityHandler.get_seasonality, remove_seasonality", "kats/utils/decomposition.py")],
     "runtime monitor: conservation (the parts add up) and recomputation oracle",
     "Random seasonal series; components are compared with STL or moving averages computed directly.",
     ["decomposition results", "handler results for each column"])
prop("C16", "Rolling statistics and distribution distances are those of the documented window",
     "The rolling statistics detector reports for every point of the data the chosen statistic (inter-quartile rule, median deviation, z-score and its modified forms) of that point against its window of points or seconds before it, taking points from the history where needed, and the distribution distance detector the chosen distance between a moment's distribution and that of the window before it, zero before the first full window. "
     "Times and columns are those of the data, a restored serialized detector answers the same, and data and history of the caller are unchanged. "
     "Too little history, wrong dimensions, unknown settings and mismatched columns are refused.",
     ["inputs", "configurations"], "every series, statistic, window, division into history and data",
     "Tests check lengths and a few values; wrong window ends, gaps, ties and time-based windows are barely sampled.",
     ["kats/detectors/rolling_stats_model.py", "kats/detectors/distribution_distance_model.py"],
     [("RollingStatsModel", "kats/detectors/rolling_stats_model.py"),
      ("DistributionDistanceModel", "kats/detectors/distribution_distance_model.py")],
     "runtime monitor: every score recomputed from the window selected by time",
     "Random series with gaps; every score recomputed on plain lists.",
     ["scores and predictions of every point", "restored detectors"])
prop("C17", "Outliers, robust change points and abnormal hours are those the rules single out",
     "The outlier detector reports for every column the distance of each detrended (and, if strongly seasonal, deseasonalised) residual to the inter-quartile limits as score, and exactly the times outside the limits as outliers, removal replaces exactly those points, and the detector model returns these scores for the times of the data whatever the division into history and data. "
     "The robust detector's change points are the times at which the z-score of the differences of the smoothed values has a p-value under the cut-off, at least one smoothing window apart; the static threshold model returns the data as scores; the hourly ratio detector judges every complete day once by the robust distance of its hourly ratios, whatever the column names. "
     "The caller's series are unchanged and unsuitable data are refused.",
     ["inputs", "configurations"], "every series, limit, period, division into history and data",
     "Tests plant one outlier in one fixed series and count the answers; other columns, repeated runs and incomplete days are not tried.",
     ["kats/detectors/outlier.py", "kats/detectors/outlier_detector.py", "kats/detectors/robust_stat_detection.py",
      "kats/detectors/threshold_detector.py", "kats/detectors/hourly_ratio_detection.py"],
     [("OutlierDetector", "kats/detectors/outlier.py"), ("OutlierDetectorModel", "kats/detectors/outlier_detector.py"),
      ("RobustStatDetector", "kats/detectors/robust_stat_detection.py"), ("StaticThresholdModel", "kats/detectors/threshold_detector.py"),
      ("HourlyRatioDetector", "kats/detectors/hourly_ratio_detection.py")],
     "runtime monitor: recomputation oracle over scores and verdicts",
     "Random series with planted outliers, gaps and histories; scores and verdicts recomputed from the rules.",
     ["outliers and scores per column", "change points", "days reported"])
prop("C18", "Multivariate anomaly scores are the standardised one-step forecast errors",
     "For every moment after the training length, the multivariate detector reports for each column the one-step forecast error of the model trained on the preceding data (with earlier outliers cleaned as documented) in units of its standard deviation, the overall distance and its p-value, and names as anomalous exactly the moments whose p-value is below the significance level, with the columns ranked by score. "
     "The detector model returns these scores at the times of the data, zero before the first forecast, whatever the division into history and data, and can be serialized and restored. "
     "Column names (also of time) do not matter, the caller's data are unchanged, and data with gaps or duplicates are refused.",
     ["inputs", "histories", "configurations"], "every multivariate series, training length and lag setting",
     "Tests check that scores of one series exist; look-ahead, misaligned times and mis-ranked columns stay unnoticed.",
     ["kats/detectors/multivariate_detector.py", "kats/detectors/outlier.py"],
     [("MultivariateAnomalyDetector", "kats/detectors/outlier.py"),
      ("MultivariateAnomalyDetectorModel", "kats/detectors/multivariate_detector.py")],
     "runtime monitor: every score recomputed with an independent one-step vector autoregression",
     "Random stable vector autoregressions with planted outliers; each moment is recomputed from the rows before it.",
     ["anomaly scores, p-values and rankings per moment", "detector model responses"])
prop("C19", "Trend tests, seasonal periods and unusual subsequences follow their definitions",
     "The Mann-Kendall detector tests every window of the (seasonally smoothed) data and reports exactly the windows whose trend is significant at the given level in the given direction, with Tau, p-value, trend and, for several columns, per-column results and ranking that the test's definition gives. "
     "The autocorrelation and spectrum detectors report presence and lengths of seasons from the peaks of the autocorrelation function and the spectrum; the time-warping detector reports each column's subsequence farthest from its nearest other as the definition gives, each series at most once, also when run again. "
     "The caller's series is unchanged, and unsuitable data are refused.",
     ["inputs", "configurations"], "every series and detector setting",
     "Tests use one strong trend or sine; plateaus, ties, weak trends, other columns and repeated runs are not tried.",
     ["kats/detectors/trend_mk.py", "kats/detectors/seasonality.py", "kats/detectors/dtwcpd.py"],
     [("MKDetector", "kats/detectors/trend_mk.py"), ("ACFDetector, FFTDetector", "kats/detectors/seasonality.py"),
      ("DTWCPDDetector", "kats/detectors/dtwcpd.py")],
     "runtime monitor: recomputation oracle (Mann-Kendall, spectrum, dynamic time warping on plain lists)",
     "Random series; each window, peak and subsequence is recomputed from its definition.",
     ["detected trends and metadata", "seasonality answers", "change points of subsequences"])
prop("C20", "Bayesian online change points follow the run-length recursion",
     "For the normal and Poisson models the run-length posterior of BOCPD after every point is that of the exact recursion with the model's predictive density, the given or empirical priors and the hazard, and every row adds up to one; the reported change probabilities are its documented summary for the lag, and the change points exactly the local times where it exceeds the threshold, grouped by column. "
     "The trend model gives the same answer in every run, with the same bookkeeping. "
     "The detector model returns the change probabilities as scores at the times of the data whatever the division into history and data, can be serialized and restored, and leaves the caller's data unchanged.",
     ["inputs", "configurations"], "every series, prior, hazard, lag and threshold",
     "Tests check that a large shift is found near its place; wrong normalisation, lost run lengths and prior mix-ups still find large shifts.",
     ["kats/detectors/bocpd.py", "kats/detectors/bocpd_model.py"],
     [("_BayesOnlineChangePoint, _NormalKnownPrec, _PoissonProcessModel, _BayesianLinReg", "kats/detectors/bocpd.py"),
      ("BOCPDetector.detector", "kats/detectors/bocpd.py"), ("BocpdDetectorModel", "kats/detectors/bocpd_model.py")],
     "runtime monitor: exact run-length recursion on plain lists compared with the posterior after every point",
     "Random series, priors and hazards; every posterior row and change probability recomputed in log space.",
     ["run length matrices, change probabilities, change points", "detector model responses"])
prop("C21", "Interval detectors decide every test by its statistic, level and duration",
     "For every moment of an experiment, the two-sample (real, proportion, count, arrival time) and one-sample (proportion) interval detectors report the documented test statistic, confidence limits and significance at the corrected level, and the rejection intervals are exactly the runs of significant tests, those at least as long as the duration being the anomalies. "
     "A duration that is not given is the smallest that bounds the overall error, and answers do not depend on the division into history and data, on the order of columns or on earlier runs. "
     "Data outside the documented schema and impossible levels or durations are refused, and the caller's data are unchanged.",
     ["inputs", "configurations", "histories"], "every experiment, test type, statistic, level and duration",
     "Tests check fixed simulated experiments; run borders, corrections and reuse of a detector are hardly varied.",
     ["kats/detectors/interval_detector.py"],
     [("ABIntervalDetectorModel.fit_predict, _get_duration_p_value, _merge_intervals", "kats/detectors/interval_detector.py"),
      ("TwoSample…/OneSample…IntervalDetectorModel", "kats/detectors/interval_detector.py")],
     "runtime monitor: every test and run recomputed; metamorphic runs (split, reordered columns, reuse)",
     "Random experiments with effects switched on and off; statistics, corrections and runs recomputed.",
     ["test results, intervals, scores and metadata of every run"])
prop("C22", "Forecast-based detectors score data against the forecast of the cleaned history",
     "The Prophet detector trains on exactly the given history without excluded ranges (and without gross outliers if asked), forecasts with the documented settings, and scores every point of the data by the chosen function of forecast, band and value, independently of the other points scored, with the band holding the forecast. "
     "The trend detector scores are the slope changes at the change points; the KDE residual translator leaves out the ignored quantiles and gives every residual the (log) probability of the fitted density. "
     "Times are those of the data, the caller's data and history are unchanged, and invalid settings or data are refused.",
     ["inputs", "configurations"], "every history, data and setting of the detectors",
     "Tests check a few anomalies in one series; changed training data, misaligned scores and mutated history stay unnoticed.",
     ["kats/detectors/prophet_detector.py", "kats/detectors/residual_translation.py"],
     [("ProphetDetectorModel, ProphetScoreFunction", "kats/detectors/prophet_detector.py"),
      ("ProphetTrendDetectorModel", "kats/detectors/prophet_detector.py"),
      ("KDEResidualTranslator", "kats/detectors/residual_translation.py")],
     "runtime monitor: training data observed at the trusted library's border, scores recomputed",
     "The training frame handed to Prophet and the scores are compared with recomputed ones; Prophet itself is trusted.",
     ["training data and settings of every fitted model", "scores, bands, probabilities"])
prop("C23", "Time series features are what their definitions give, for the features asked for",
     "Every feature reported by TsFeatures has the value its definition gives for the series and parameters, calendar features are those of each time (in its zone) and Fourier features the waves of each period and order. "
     "Exactly the selected features or groups are reported, each instance keeps its own selection whatever other instances exist, each column of a multivariate series gets its own set, and the caller's data are unchanged. "
     "Unknown or contradictory selections, too short series and invalid orders or offsets are refused.",
     ["inputs", "configurations"], "every series, selection and parameter",
     "Tests compare two stored feature dictionaries; other lengths, parameters and several instances are not tried.",
     ["kats/tsfeatures/tsfeatures.py"],
     [("TsFeatures.transform, get_* feature groups", "kats/tsfeatures/tsfeatures.py"),
      ("TsCalenderFeatures, TsFourierFeatures", "kats/tsfeatures/tsfeatures.py")],
     "runtime monitor: every feature recomputed from its definition",
     "Random series and selections; statsmodels' fits and the Kats detectors are trusted, everything else is recomputed.",
     ["every feature value reported"])
prop("C24", "Temporal hierarchies aggregate exactly and reconcile coherently",
     "Aggregating a series to a level sums consecutive blocks and stamps each with the last time of its block; hierarchies of given or fitted base forecasts answer for every level asked for, at that level's times, with reconciled forecasts that are exactly the sums of those of level 1 and equal those of the chosen method's formula and weights. "
     "Forecasts that are already coherent are not changed by unbiased methods, and validation calls bad exactly the levels far from the median forecast. "
     "The caller's series and residuals are unchanged, column names and zones do not matter, and impossible levels, unknown methods and missing forecasts are refused.",
     ["inputs", "configurations"], "every set of levels, base forecast, method and number of steps",
     "Tests check one hierarchy against stored values; other level sets, orders and step counts are not tried.",
     ["kats/models/reconciliation/thm.py", "kats/models/reconciliation/base_models.py"],
     [("TemporalHierarchicalModel.fit, get_S, get_W, predict, median_validation", "kats/models/reconciliation/thm.py"),
      ("GetAggregateTS, BaseTHModel", "kats/models/reconciliation/base_models.py")],
     "runtime monitor: conservation across levels and recomputation oracle",
     "Random level sets and forecasts; sums, weights and reconciled forecasts recomputed with exact block sums.",
     ["aggregates, weights, reconciled forecasts of every level"])
prop("C25", "Nowcasting looks back only and is trained on what lies ahead",
     "Every nowcasting feature (ROC, MOM, MA, LAG, MACD, BBANDS, TRIX, EMA, TSI, RSI) has at each row the value its definition gives from the rows up to it, is added under its documented name and leaves the input columns unchanged. "
     "The nowcasting models keep exactly the rows whose features are all finite, label each with the value the given number of steps later in the data itself, train on all labelled rows and answer for the last ones; the models with a daily curve use the curve fitted to the data and the newest rows. "
     "Multivariate data are refused, a saved model answers as before, and the caller's data are unchanged.",
     ["inputs", "configurations"], "every series, feature length and step",
     "Tests check shapes of the outputs; features that look ahead and labels of the wrong row stay unnoticed.",
     ["kats/models/nowcasting/feature_extraction.py", "kats/models/nowcasting/nowcasting.py", "kats/models/nowcasting/nowcastingplus.py", "kats/models/nowcasting/dynamic_nowcasting.py"],
     [("ROC, MOM, MA, LAG, MACD, BBANDS, TRIX, EMA, TSI, RSI", "kats/models/nowcasting/feature_extraction.py"),
      ("NowcastingModel.feature_extraction, label_extraction, fit, predict", "kats/models/nowcasting/nowcasting.py"),
      ("NowcastingPlusModel", "kats/models/nowcasting/nowcastingplus.py")],
     "runtime monitor: features recomputed; training data observed at the regressor's border",
     "Random series with zeros and constant stretches; what scikit-learn is trained on and asked for is recorded and compared with recomputed rows.",
     ["feature columns", "training rows, labels and asked rows of every model"])
prop("C26", "Simulated series and calendar features equal their definitions",
     "A simulated series has the asked times, and at every point the documented level, trend, season, anomaly, or sum or product of components: exactly without noise, up to normal noise of the asked size with it; the same seed gives the same series, an ARIMA series follows its recursion, and integrating it sums it. "
     "Injected level shifts, trend shifts and spikes change exactly the asked points by the asked amount, leaving the given series alone and the extremes of the new one right; lists that do not fit are refused. "
     "Every calendar and clock feature is that of the row's local time, whatever the zone, order or repetition of the times, and the circular encoding is the cosine and sine of the phase.",
     ["inputs", "configurations"], "every setting of the simulators and every time in every zone",
     "Tests fix one seed and one short run of dates; change points at the ends, anomalies at change points, integer series, other zones and the edges of months and clock changes are not tried.",
     ["kats/utils/simulator.py", "kats/utils/feature_engineering.py"],
     [("level_shift_sim, trend_shift_sim, arima_sim, _add_component, inject_*", "kats/utils/simulator.py"),
      ("date_features, time_features, circle_encode", "kats/utils/feature_engineering.py")],
     "runtime monitor: simulated points and calendar features recomputed from their definitions",
     "Random settings recomputed point by point; what noise leaves over is bounded by six standard deviations; features compared with datetime and pytz.",
     ["simulated series", "injected series", "feature frames"])
prop("C27", "Pipelines treat every series alone; evaluations and renames are exact",
     "A pipeline gives each step the same results as running it alone on each series: detector outputs with the caller's parameters, cleaned data passed on exactly when removal is asked for, one fitted model per series, and to a classifier every series' complete features in order with their labels; the caller's list, series and parameters are unchanged and multivariate data are refused. "
     "Evaluation runs keep their own predictions, are judged by exactly the given metrics and labels, and unknown, repeated or unfinished runs are refused. "
     "Renaming columns by prefix renames, in a copy, the one column each prefix matches (never the time column) and refuses prefixes matching none or several and columns matched twice; versions compare as releases do.",
     ["inputs", "operation histories"], "every chain of steps, collection of series and history of runs",
     "Tests run fixed pipelines on one or two series; shared models, cleaned data that are lost and changed lists stay unnoticed.",
     ["kats/utils/cupik.py", "kats/utils/dataframe_utils.py", "kats/evaluation/evaluator.py", "kats/compat/compat.py"],
     [("Pipeline.fit", "kats/utils/cupik.py"),
      ("Evaluator", "kats/evaluation/evaluator.py"),
      ("rename_columns_by_prefix", "kats/utils/dataframe_utils.py"),
      ("Version", "kats/compat/compat.py")],
     "runtime monitor: differential run of every step alone and recorded classifier input",
     "Random chains and collections; each step alone on each series is the reference, itself judged by other properties.",
     ["outputs of steps", "models", "evaluations, renamed tables, comparisons"])
prop("C28", "Meta-learners learn from the given entries and answer as their classifier",
     "A meta-learner trains the asked classifier on rows that are the given entries (features by name, missing ones zero) with their own labels, scaled once and balanced by removal alone when asked for, and reports errors, accuracy and scores that are those of its training and test rows. "
     "A series counts as unpredictable exactly if its best model's error exceeds the threshold, and the decision threshold reaches the asked recall on the validation rows with the best precision. "
     "Answers for features or series (divided by their maximum when asked) are the classifier's, most likely first, also after saving; the caller's metadata and series are unchanged, and missing, too few or one-class entries, untrained use and unknown settings are refused.",
     ["inputs", "configurations", "operation histories"], "every metadata set, classifier and setting",
     "Tests train on one stored data set and check types; labels of another entry, features in another order and unscaled answers stay unnoticed.",
     ["kats/models/metalearner/metalearner_modelselect.py", "kats/models/metalearner/metalearner_predictability.py", "kats/detectors/meta_learning/metalearning_detection_model.py"],
     [("MetaLearnModelSelect, RandomDownSampler", "kats/models/metalearner/metalearner_modelselect.py"),
      ("MetaLearnPredictability", "kats/models/metalearner/metalearner_predictability.py"),
      ("MetaDetectModelSelect, metadata_detect_preprocessor", "kats/detectors/meta_learning/metalearning_detection_model.py")],
     "runtime monitor: training data observed at the classifiers' border, answers and scores recomputed",
     "Random metadata; what scikit-learn's classifiers are trained on is recorded and each row traced back to its entry; scores and thresholds recomputed.",
     ["training rows and labels", "tables after preprocessing", "answers, scores and thresholds"])
prop("C29", "Prophet forecasts come from the described model, at the wanted times",
     "A ProphetModel trains Prophet with exactly the given settings, changepoints, holidays, custom seasonalities, regressors, capacity and floor (fixed or taken from the data) on exactly the series' times and values, and its forecasts, raw or as point and bounds, are that model's own for the next `steps` times of the frequency after the last time of the series (preceded by the whole history when asked), also when values are missing, or for every row of a given future frame; equal seeds give equal forecasts. "
     "The stand-alone prediction gives Prophet's own components, and bounds that are the quantiles of samples (the trend of the past and a flat trend are certain) widened by half the margin in the scale of the data. "
     "Given frames, settings and series never change; logistic growth without capacity, incomplete seasonalities, regressors or limits without data (past or future) and untrained use are refused with an error.",
     ["inputs", "configurations"], "every series, every set of settings and every kind of request",
     "Tests compare a few fixed forecasts of complete series; missing values, limits, regressors, own seasonalities and frames of the future are not combined.",
     ["kats/models/prophet.py"], [("ProphetParams.validate_params, _ts_to_df, _future_validation, fit, predict", "kats/models/prophet.py"),
                                  ("stand-alone predict, predict_uncertainty, sample_posterior_predictive and the vectorised samplers", "kats/models/prophet.py")],
     "runtime monitor: differential oracle against a Prophet object built from the same description",
     "Random series and settings; the trained object and the forecasts are compared with a reference object trained on rows kept apart; samples are compared with their laws.",
     ["attributes and history of the trained Prophet object", "forecasts", "samples and bounds"])
