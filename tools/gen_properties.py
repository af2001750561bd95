#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the texts are easy to edit)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F, M, U, P = ('anticipy/forecast.py', 'anticipy/forecast_models.py',
              'anticipy/model_utils.py', 'anticipy/forecast_plot.py')
L = []


def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    L.append(d)


p('C01', 'Actuals come out of a forecast exactly as they went in',
  "In the 'data' table returned by run_forecast, the rows flagged is_actuals are exactly the input samples dated on or "
  "after the requested start (all of them when none is given): same date or x, same value including nulls, same weight "
  "(1 when no weight was given), each exactly once, whatever models are tried and whatever the optimizer returns. "
  "The 'forecast' table shows the same samples without those whose value is null.",
  ['inputs', 'configurations'],
  'every table of daily or numerically indexed samples with arbitrary values (nulls included), arbitrary non-negative weights, '
  'arbitrary row order and gaps, every start date, every optimizer result',
  'Tests compare a handful of literal tables; nulls, zero weights, start date and row order are never combined.',
  [F], [('run_forecast_single', F), ('get_df_actuals_clean', F), ('_get_pi_single_source', F)],
  ["run_forecast(simplify_output=False)['data']", "run_forecast(...)['forecast']"])

p('C02', 'The forecast covers the actuals plus the horizon, on the series own grid',
  "For a series sampled daily, weekly, at month start/end, quarter end or year start/end, the dates of a forecast start at the "
  "first actual of positive weight, step by the sampling period of the series, contain every later actual date, and stop at the last grid date not "
  "beyond the last actual plus the requested horizon (horizon = years times 365 days, 52 weeks, 12 months, 4 quarters or 1 year; "
  "fractions of a month, quarter or year are rounded down). For a numeric index the forecast contains every integer step from the first actual to the "
  "last actual plus 100 samples per year, both ends included. No date or index is duplicated or out of order; rows whose value would be null, such as a weekday-naive model's before its first comparable value, are left out.",
  ['inputs', 'configurations'],
  'every start date in the window, every length up to the bound, every horizon (real number) up to the bound, every weekday anchor',
  'Tests look at three frequencies from one fixed start date and mostly only check the last date within 10 percent.',
  [U, F], [('get_s_x_extrapolate', U), ('extrapolate_model', F), ('detect_freq', U)],
  ['run_forecast output dates', 'model_utils.get_s_x_extrapolate', 'forecast.extrapolate_model'])

p('C03', 'Forecast values are the fitted model evaluated at the x of their date',
  "Every forecast row equals the reported model evaluated with the reported fitted parameters at the row's own date and at "
  "the x that the fitting step used for that date, both inside the range of the actuals and beyond it. This holds also when the series "
  "starts at a non-zero x, when leading samples are ignored, and for models fitted on a scaled x.",
  ['inputs', 'configurations'],
  'every value vector, parameter vector, start x / start date, weight pattern and horizon within the bound',
  'A shifted x is absorbed by most models at the sample points tests look at; tests use series starting at x=0.',
  [U, F], [('get_s_x_extrapolate', U), ('fit_model', F), ('extrapolate_model', F), ('apply_a_x_scaling', U)],
  ["run_forecast(...)['data'] rows with is_actuals False", 'metadata params'])

p('C04', 'The selected model is the fitted candidate with the lowest AICc',
  "For candidates with distinct names, per source at most one is marked best; one is marked whenever a candidate fitted, it is one that fitted, and no fitted candidate has a "
  "lower AICc; a candidate that failed to fit is never selected and never contributes forecast rows, and a naive model without a value for any usable sample is not selected over any other candidate that fitted. Without include_all_fits the output contains "
  "forecast rows and metadata of that model only; with it, of every fitted candidate, with the same selection marked.",
  ['inputs', 'configurations', 'fault_sequences'],
  'every combination of optimizer outcomes (success, failure, LinAlgError, any cost >= 0) over the candidate list',
  'Tests cannot dictate optimizer outcomes; ties, failures and infinite scores are not explored.',
  [F, U], [('run_forecast_single best fit selection', F), ('fit_model', F), ('get_aic_c', U)],
  ["run_forecast(simplify_output=False)['metadata']", "['data']", "['forecast']"])

p('C05', 'AICc is defined for every fit and ranks fits correctly',
  "get_aic_c returns n*log(E/n) + 2k + 2k(k+1)/(n-k-1) for every positive error E and every n > k+1, raises ValueError "
  "exactly when n <= k+1, and for a zero error returns a value not above that of any fit with a larger error and the "
  "same n and k. It never fails on any other input, however small the error or long the series, and get_s_aic_c_best_result_key returns the label of the first lowest score, null scores ignored.",
  ['inputs'],
  'every non-negative finite double error, every n up to 2**20 and k up to the stated bound',
  'Tests print a few values; underflow of E/n and near-boundary n, k are not reached.',
  [U], [('get_aic_c', U)], ['model_utils.get_aic_c', 'metadata aic_c'])

p('C06', 'Samples that must be ignored cannot influence the forecast',
  "Without outlier detection, changing the value of a sample whose weight is zero or null, or of a sample dated before the requested start, changes nothing in "
  "the fitted inputs, metadata, forecast values or prediction-interval residuals of run_forecast; neither does removing a weightless "
  "or null sample from the data handed to fit_model.",
  ['inputs', 'configurations'],
  'every pair of inputs that differ only in ignored samples (two-run property), every weight pattern within the bound, naive and regression models',
  'A two-run property over all weight patterns; tests check single outputs.',
  [F, M], [('fit_model filters', F), ('run_forecast_single df_actuals_interpolated', F), ('_get_pi_single_source', F)],
  ['run_forecast output', 'fit_model metadata'])

p('C07', 'Fitting minimises exactly the weighted residuals of the valid samples',
  "The objective given to the optimizer has one non-negative entry per sample with non-null value and positive weight, equal to the "
  "absolute difference between value and model times the sample weight (1 if none), divided by the number of "
  "such samples sharing its x; value, x, date and weight always stay paired. The bounds and initial guess are those of the model, "
  "and fit_model reports the optimizer's parameters, cost and success unchanged.",
  ['inputs', 'configurations', 'fault_sequences'],
  'every value/weight/x vector (nulls, zero and missing weights, duplicate x) within the bound, every parameter vector, every optimizer outcome',
  'Tests only look at parameters recovered by a converged optimizer, which hides pairing and weighting errors.',
  [F], [('fit_model', F), ('optimize_least_squares', F), ('get_residuals', F)],
  ['forecast.fit_model', 'arguments of scipy.optimize.least_squares'])

p('C08', 'Every built-in model proposes a feasible starting point',
  "For every accepted input series, the initial parameters of a built-in model lie within that model's own bounds and have one entry per "
  "parameter, so fitting never aborts because of its own starting point; the same holds for sums and products of built-in models, and when no series is given.",
  ['inputs'],
  'every value vector and every strictly increasing or duplicated x vector within the bound that passes the model validation',
  'Tests use friendly series; a guess outside bounds aborts the whole run only on particular shapes.',
  [M, F], [('f_init_params_* / f_bounds_*', M), ('validate_initial_guess', M)],
  ['ForecastModel.f_init_params', 'ForecastModel.f_bounds', 'forecast.optimize_least_squares'])

p('C09', 'Model addition and multiplication mean what they say',
  "For any models a and b, (a+b) evaluated on concatenated parameters equals a plus b in additive mode, and (a*b) equals a times b in "
  "multiplicative mode, at any nesting depth; parameter counts, initial parameters and bounds concatenate in the same order and input checks of both apply. "
  "The null model is the identity of both operations.",
  ['programs', 'inputs'],
  'every composition tree up to the bound over the built-in models, every x, date and parameter vector within the bound',
  'Tests compare a few literal parameter vectors for a few pairs.',
  [M], [('ForecastModel.__add__/__mul__', M), ('_get_f_add_2_f_models etc.', M)],
  ['ForecastModel.__call__', 'f_init_params', 'f_bounds', 'validate_input'])

p('C10', 'Caching model variables never changes model output',
  "Evaluating any model, simple, dummy, calendar or composed, with the variables it pre-computes for a set of samples gives the same values as evaluating it "
  "without them, so run_forecast gives the optimizer the same objective with use_cache on or off.",
  ['inputs', 'programs'],
  'every date vector, x vector and parameter vector within the bound, every composition up to the bound',
  'Tests compare cached and uncached fits for two models on one series.',
  [M, F], [('ForecastModel.init_cache', M), ('dict_f_cache / l_cache_vars', M), ('optimize_least_squares', F)],
  ['ForecastModel.init_cache', 'ForecastModel.__call__'])

p('C11', 'Built-in models compute their documented formulas',
  "constant=A, linear=Ax+B, quasilinear=A*x^B+C, exponential=A*B^x, decay=A*e^(Bx)+D; step is 0 before A and B from A on (1 and B when multiplicative), spike is A from x_min up to but excluding x_max and 0 (1) elsewhere, two_steps is the sum (product) of two steps, ramp is 0 before A and "
  "(x-A)*B after (plus 1 when multiplicative), sigmoid runs from 0 (1) to B centred at C; date steps and spikes apply from their start date, spikes up to but excluding the end date; weekday, month and yearly Fourier models depend only "
  "on weekday, month and day count, with Monday and January as zero (one) baseline. Output has one value per sample.",
  ['inputs', 'configurations'],
  'every x, every date in the window, every parameter vector, additive and multiplicative mode',
  'Tests check literal vectors at a few parameters, mostly additive.',
  [M], [('_f_model_* / _f_step / _f_ramp / _f_sigmoid', M)], ['ForecastModel.__call__'])

p('C12', 'Dummy, date-list and calendar models fire on exactly their dates',
  "A dummy model returns its parameter on exactly the samples whose x or date is in its list (or whose date is a holiday of its rule or calendar) and 0 elsewhere; "
  "in multiplicative mode it returns 1 plus its parameter there and 1 elsewhere. A model built from several lists or calendars has one parameter per list, in order, "
  "and combines them by sum (or product).",
  ['inputs', 'configurations'],
  'every date vector in the window in any order, every list of dates or x values within the bound, every parameter, the UK/Italian/US calendars over the window',
  'Tests try single literal dates.',
  [M], [('_get_f_dummy_*', M), ('get_model_dummy', M), ('get_model_from_calendars', M), ('get_model_from_datelist', M)],
  ['forecast_models.get_model_dummy', 'model_calendar_uk/us/ita', 'get_model_from_datelist'])

p('C13', 'Fixing parameters gives the same model with those parameters pinned',
  "A model with some parameters fixed equals the original evaluated with the fixed and free values merged in position, in both composition modes and "
  "on repeated evaluation; its initial parameters and bounds are the free entries of the original's, and it accepts the same inputs. "
  "Simplification fixes exactly the parameters whose two bounds coincide, to that value, and otherwise returns the model unchanged.",
  ['inputs', 'programs'],
  'every mask of fixed parameters, every fixed/free value, every bounds vector, repeated calls',
  'Tests run one literal mask.',
  [M], [('fix_params_fmodel', M), ('simplify_model', M), ('get_fixed_model', M)],
  ['forecast_models.fix_params_fmodel', 'forecast_models.simplify_model'])

p('C14', 'Prediction intervals are ordered, complete and leave the forecast alone',
  "In the table with prediction intervals, every forecast row carries both percentile pairs with low <= high and the outer pair enclosing the inner one, columns named after "
  "the requested percentiles; forecast values, dates and models are those of the input, one row each, and actuals carry no interval. "
  "Each interval is the forecast plus percentiles of mean-centred residuals of non-null, positive-weight actuals of the same source at matching dates, "
  "accumulating once per widening period after the last such actual and with constant width before it.",
  ['inputs', 'configurations'],
  'every actual/forecast value, every resampling outcome, every weight/null pattern, percentile pair and widening step within the bound',
  'Resampling outcomes are random; tests plot or check columns for one seed.',
  [F], [('get_pi', F), ('_get_pi_single_source', F), ('_df_add_pi_percentiles', F)],
  ['forecast.get_pi', "run_forecast(...)"])

p('C15', 'Sources are forecast independently of each other',
  "Running a table with several sources gives, for each source, the same actuals, fitting problem, metadata and forecast as running that source "
  "alone, regardless of how the rows of different sources are interleaved or which values the other sources hold, and no source is lost or invented.",
  ['inputs', 'configurations'],
  'every interleaving and value assignment of two sources within the bound (two-run property), every optimizer outcome that is a function of the fitting problem',
  'Tests check that multi-source tables run; they never compare with the single-source run over all interleavings.',
  [F], [('run_forecast', F), ('normalize_df', F), ('aggregate_forecast_dict_results', F), ('get_pi', F)],
  ['run_forecast(simplify_output=False)', 'get_pi'])

p('C16', 'Gap filling adds only the missing steps and keeps every sample',
  "For a series on a regular grid (hourly, daily, weekly, month or year start or end, steps of 1 in x) with steps missing, interpolate_df returns every original sample unchanged in value, at its own date or x, adds exactly the missing steps between first and last, in order, with null values (or the "
  "straight line between neighbours when asked), returns gap-free series unchanged, flags the added rows when asked, and refuses with ValueError a gapped series that has duplicate samples; rows may come in any order. Dates or x that fit no regular grid keep every sample.",
  ['inputs', 'configurations'],
  'every daily, weekly or numeric series with arbitrary gaps and values (nulls included) within the bound',
  'Tests use one series with one gap and no nulls.',
  [U], [('interpolate_df', U)], ['model_utils.interpolate_df'])

p('C17', 'Sampling frequency is detected from the dates alone, as documented',
  "detect_freq depends only on the set of dates, not on order or repetition, and returns H for a smallest step of one hour, D for 23 hours or more, W-<weekday> of the first date for exactly 7 days, "
  "MS/M for 28 to 31 days depending on whether all dates are firsts of the month, Q for 89 to 92 days, YS/Y for 365 to 366 days depending on whether all are January firsts, and None for other steps below 23 hours or fewer than two distinct dates.",
  ['inputs'],
  'every multiset of dates within the bound, in every order',
  'Tests use seven literal regular ranges.',
  [U], [('detect_freq', U)], ['model_utils.detect_freq'])

p('C18', 'Outlier detection only drops spikes, and is unit-free',
  "With find_outliers, run_forecast changes nothing but the weights: flagged spike samples get weight 0 and every other sample keeps its weight; a series without unusual "
  "changes has no flags and still forecasts. The flags have one entry per sample and do not change when all values are shifted or "
  "scaled by a positive factor, when the axis is shifted, or when daily dates are replaced by the equivalent x; an isolated spike higher than the slope, with two samples or more on either side, in an otherwise constant or steadily "
  "changing series of six samples or more is flagged, and only it.",
  ['inputs', 'configurations'],
  'every value vector within the bound, every shift and scale, date or numeric axis (two-run property)',
  'Tests use literal series; two of them do not even pass with the installed pandas.',
  [M, F], [('get_model_outliers', M), ('get_iqr_thresholds', M), ('run_forecast_single', F)],
  ['forecast_models.get_model_outliers', 'run_forecast(find_outliers=True)'])

p('C19', 'Naive forecasts repeat the last known comparable value',
  "The naive model returns at each sample the last non-null actual strictly before it, and after the actuals the last non-null actual; samples before any such value get the first known one. The "
  "weekday-naive model returns the last non-null actual on the same weekday strictly before, and beyond the actuals the last non-null actual of that weekday. Both return one value per requested sample, in x order; in a forecast, samples that are null, have zero weight or precede the requested start count as unknown, and steps without a comparable value get no row; "
  "the reported cost is half the sum of squared weighted differences between the valid samples and these values, where they exist.",
  ['inputs'],
  'every value vector (nulls anywhere), every first weekday, every horizon within the bound',
  'Tests use two literal series.',
  [M], [('_f_model_naive', M), ('_f_model_snaive_wday', M), ('_fillna_wday', M)],
  ['model_naive', 'model_snaive_wday'])

p('C20', 'Input normalisation keeps every sample and assigns consistent x',
  "normalize_df returns every input row exactly once with its value, weight, source and date, whatever the row order, column names or date carrier (column, string column or DatetimeIndex); rows are ordered by source then x, rows that share both keep their order; "
  "a given x column is preserved, otherwise x advances by exactly one per day between samples of the same source, and with no date it numbers the rows. "
  "Columns not named as input are dropped, whatever they are called, and an empty table gives None.",
  ['inputs', 'configurations'],
  'every table within the bound: arbitrary values, dates, weights, row orders, column-name mappings, one or two sources',
  'Tests use constant y values and sorted dates.',
  [F, U], [('normalize_df', F), ('get_normalized_x_from_date', U)], ['forecast.normalize_df'])

p('C21', 'Library calls never modify the caller\'s data',
  "run_forecast, normalize_df, fit_model, extrapolate_model, get_pi, interpolate_df, get_df_actuals_clean, get_model_outliers and is_multiplicative leave the tables passed to them exactly as they were: "
  "columns, index, row order and every value; lists of models, dates or fixed parameters passed to the library stay as they were, and so do the "
  "operands of a composition; evaluating a model leaves its parameter, x and date arrays as they were.",
  ['inputs', 'configurations'],
  'every input table within the bound, every option combination listed in the design',
  'No test compares an input before and after.',
  [F, U, M], [('defensive copies', F), ('interpolate_df', U), ('get_model_outliers', M)],
  ['all public functions taking a DataFrame'])

p('C22', 'The candidate list follows from the data span and the requested options',
  "Automatic seasonality offers weekday seasonality only for samples at most a day apart spanning more than 1.5 weeks, yearly seasonality only for samples at most 92 days apart spanning more than 1.5 years, and always offers no seasonality; piecewise trend needs more than two "
  "years and calendars more than one year of at-most-daily samples; only positive-weight samples count. Composition lists contain every trend-season pair exactly once in the requested (add, mult or both) mode and run_forecast fits exactly those "
  "plus the naive models.",
  ['inputs', 'configurations'],
  'every date multiset within the bound (arbitrary gaps and span), every weight pattern, every list combination',
  'Tests use a few fixed spans far from the thresholds.',
  [M, F], [('get_l_model_auto_season', M), ('get_list_model', F), ('_get_use_ramp', F), ('run_forecast_single', F)],
  ['forecast_models.get_l_model_auto_season', 'forecast.get_list_model', 'run_forecast metadata model names'])

p('C23', 'Unusable input is reported as a status, never as a crash',
  "fit_model returns normally for every series: status EMPTY_TS when no sample has a value and positive weight, TS_TOO_SHORT exactly when the usable samples number fewer than "
  "parameters plus two, INPUT_ERR when the model rejects its input, NO-FIT when the optimizer fails or hits a linear-algebra error, FIT otherwise; is_fit is true exactly for FIT and run_forecast still returns the actuals when nothing fits, even if the requested start leaves a source without samples.",
  ['inputs', 'fault_sequences'],
  'every series of every length up to the bound with any null/weight pattern, every optimizer outcome including LinAlgError',
  'Tests cover one short series and one recorded LinAlgError series.',
  [F], [('fit_model status branches', F), ('optimize_least_squares', F), ('_get_pi_single_source', F)],
  ["fit_model(...)['metadata']", 'run_forecast'])

p('C24', 'Plots give every source its own panel with exactly its own data',
  "plot_forecast draws one panel per source on a grid large enough for all of them, no two sources sharing a panel; the actuals trace of a panel holds exactly that source's actual rows, the forecast trace exactly its forecast rows, and each interval "
  "pair exactly the low and high percentile of those rows. It returns 0 after drawing, and 1 without drawing for a missing path or unknown output format.",
  ['inputs', 'configurations'],
  'every assignment of rows to sources/actuals/forecast within the bound, every value, every number of sources up to the bound for the grid',
  'Tests only assert that a file was written.',
  [P], [('plot_forecast', P), ('_plotly_forecast_create', P), ('_matplotlib_forecast_create', P)],
  ['forecast_plot.plot_forecast'])

p('C25', 'The optimizer finds the best parameters of a model',
  "When a model can represent a series exactly, the reported fit reproduces the series within numerical tolerance.",
  ['inputs'], 'every series generated by a built-in model',
  'Convergence over all inputs cannot be sampled.',
  [F], [('scipy.optimize.least_squares', F)], ['run_forecast metadata cost'])

p('C26', 'Prediction intervals have their nominal statistical coverage',
  "Over repeated series, the share of later actuals falling inside an interval matches its percentiles.",
  ['inputs'], 'every data-generating process with exchangeable residuals',
  'A statistical statement over random draws.',
  [F], [('_get_pi_single_source', F)], ['get_pi'])

p('C27', 'The command-line tool writes what run_forecast returns',
  "Running the command-line application on a CSV file writes exactly the data and metadata tables run_forecast returns for that table with the same column names, horizon and "
  "include_all_fits, and plots that same data in the requested format. They are named <stem>_fcast.csv, <stem>_metadata.csv and <stem>_fcast (stem = input file name up to its first dot), in the "
  "requested output folder (with or without a trailing slash; for a file path, its folder; with none, the folder of the input). No other file is touched, a plot that cannot be drawn does not lose the tables, "
  "and a missing or unusable input path is refused before anything is read or written.",
  ['inputs', 'configurations'], 'every table within the bound as content of the file, both entry points, every kind of output path, default and own column names',
  'No test runs the application.',
  ['anticipy/app.py'], [('run_forecast_app', 'anticipy/app.py'), ('main', 'anticipy/app.py')], ['anticipy.app.run_forecast_app', 'files written'])

p('C28', 'Automatic composition follows its documented rules',
  "With season_add_mult='auto' (and in is_multiplicative) the answer is additive whenever a sample of positive weight is not positive, dates are missing, "
  "these samples span less than 60 days, fewer than four of them have a value, or no straight line can be fitted. Otherwise it is multiplicative exactly when, over all these samples, the monthly means of the "
  "values and the monthly variances of the residuals around that line correlate with 0.8 or more. run_forecast then fits and reports the candidates of that mode only.",
  ['inputs', 'configurations', 'fault_sequences'],
  'every value, weight and null pattern within the bound, whole or fractional x, every fitted line or failure, every correlation',
  'Tests use four literal series with x counting days; a failing line fit, fractional x and the 60-day edge are never tried.',
  [U, F], [('is_multiplicative', U), ('_get_mult_sum_stats', U), ('run_forecast_single season_add_mult', F)],
  ['model_utils.is_multiplicative', 'run_forecast metadata add_mult'])

p('C29', 'A batch of inputs gives what each input gives alone',
  "run_l_forecast returns, for a list of forecast inputs, the concatenation in order of what run_forecast returns for each input with that input's own table, trend and season models, actuals start and source id, and the shared options. "
  "The same fitting problems are posed for each, no input affects another, and an input whose table is empty adds nothing.",
  ['inputs', 'configurations'],
  'every value, weight and null pattern within the bound, one to three inputs with differing grids, models, starts and options, every optimizer result that is a function of the model',
  'Tests run batches but never compare them with the single runs.',
  [F], [('run_l_forecast', F), ('ForecastInput', F), ('aggregate_forecast_dict_results', F)],
  ['forecast.run_l_forecast', 'forecast.ForecastInput'])

p('C30', 'The metadata describe each fit, and output options only select',
  "run_forecast with include_all_fits reports, per source and candidate, one metadata row and one optimizer report, with status FIT, NO-FIT, EMPTY_TS, TS_TOO_SHORT or INPUT_ERR as it happened, is_fit exactly for FIT, the optimizer's parameters and cost, the AICc of that cost "
  "for the number of samples used and the model's parameters, the range of dates or x of the samples used, the detected frequency, the range of weights given and the composition mode; fit_model reports the same for its one model. "
  "Without include_all_fits the same run gives exactly the rows of the selected model (and the actuals), and with simplify_output exactly the forecast table.",
  ['inputs', 'configurations'],
  'every value, null and zero-weight pattern within the bound, every optimizer answer (parameters, cost, failure, exception) per candidate',
  'Tests print the metadata and compare a few cells.',
  [F], [('fit_model', F), ('_get_df_fit_model', F), ('_get_empty_df_result_optimize', F), ('run_forecast_single', F)],
  ['run_forecast metadata and optimize_info tables', 'forecast.fit_model'])

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for d in L:
        f.write(json.dumps(d) + '\n')
print(len(L))
