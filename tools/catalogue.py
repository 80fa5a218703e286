"""One entry per property: text for properties.jsonl and the note for MANIFEST.json."""
PROPS = [
 dict(id='P01', title='Energy from averaged (right-labelled) power is conserved and linear',
  statement='Converting a right-labelled power record to energy gives, for every output interval, the sum of power times the length of the measurement interval lying inside it, whatever the sampling steps and the output frequency. With fixed-length output intervals coarser than the data the energies therefore add up to the total of the record, and scaling or adding power records scales or adds the energies.',
  quant='all power values, missing values, sampling grids up to the bound and output frequencies above, at and below the data cadence',
  why='the tests compare a handful of hand-made records; the identity has to hold for every value and every mixture of grids',
  files=['rdtools/normalization.py'],
  mech=[('energy_from_power', 'rdtools/normalization.py'), ('_aggregate', 'rdtools/normalization.py')],
  note='bounded: records up to 7 stamps; power values arbitrary reals'),
 dict(id='P02', title='Energy from instantaneous power is the trapezoidal integral',
  statement='Converting an instantaneous power record to energy gives, for every output interval, the exact trapezoidal integral of the measured power over that interval, with values at interval edges obtained by linear interpolation. The result is additive over intervals and linear in the power.',
  quant='all power values, sampling grids up to the bound, output frequencies above, at and below the data cadence',
  why='the tests use a few regular records; edge interpolation on irregular grids is only sampled',
  files=['rdtools/normalization.py'],
  mech=[('energy_from_power', 'rdtools/normalization.py'), ('trapz_aggregate', 'rdtools/normalization.py')],
  note='bounded: records up to 6 stamps; power values arbitrary reals'),
 dict(id='P03', title='Energy is never invented across gaps or missing data',
  statement='When power measurements are missing or further apart than the allowed gap, the energy of the pieces inside the gap is left out, and an output interval with nothing left (or that ends inside such a gap) is missing, never zero or extrapolated. Records that cannot be converted (empty, single-valued without a frequency, unknown power type, no time index) are rejected with a clear error instead of a number.',
  quant='every placement of missing values and of gaps relative to the allowed gap and the output intervals',
  why='tests place one or two gaps; which pieces are dropped depends on the position of the gap relative to each interval',
  files=['rdtools/normalization.py'],
  mech=[('energy_from_power', 'rdtools/normalization.py'), ('_aggregate', 'rdtools/normalization.py')],
  note='bounded: records up to 7 stamps, all missing-value patterns within them'),
 dict(id='P04', title='Interpolation is linear, exact at the data and never bridges long gaps',
  statement='Interpolating a time series onto new times returns the measured value at measured times, the straight-line value between neighbouring measurements, and a missing value in gaps longer than allowed and outside the record. Columns of a table are interpolated independently, and inputs are left unchanged.',
  quant='all values, all missing-value patterns, target times before, at, between and after the data, any maximum gap',
  why='tests check a few target times of one record; the result depends on the relative position of every pair',
  files=['rdtools/normalization.py'],
  mech=[('interpolate', 'rdtools/normalization.py'), ('_interpolate_series', 'rdtools/normalization.py')],
  note='bounded: up to 6 data stamps and 12 targets'),
 dict(id='P05', title='Normalised energy is measured over expected energy on the same interval',
  statement='Normalising a system against expected power (or a PVWatts model) returns, for each interval, the measured energy divided by the expected energy of the same interval, and the insolation of that interval. Intervals for which either is unknown are missing, a common change of power unit cancels, and giving energy instead of the corresponding power changes nothing.',
  quant='all power, expected power and irradiance values; equal, finer, coarser, shifted, shorter and longer model records',
  why='tests use constant ratios on aligned records; a misaligned interval or wrong upsampling only shows with varying values',
  files=['rdtools/normalization.py'],
  mech=[('normalize_with_expected_power', 'rdtools/normalization.py'), ('normalize_with_pvwatts', 'rdtools/normalization.py')],
  note='bounded: up to 5 measured intervals'),
 dict(id='P06', title='PVWatts expected power follows the documented formula for every input',
  statement='The modelled DC power equals rated power times irradiance ratio times the temperature factor for every irradiance, rating, reference and temperature, and equals rated power at reference conditions. The temperature factor is applied exactly when both a cell temperature and a temperature coefficient are supplied, and missing irradiance or temperature gives a missing power.',
  quant='all reals for irradiance, temperature, rating, coefficient and reference conditions; scalar and series inputs',
  why='tests check one or two numbers at default reference conditions',
  files=['rdtools/normalization.py'],
  mech=[('pvwatts_dc_power', 'rdtools/normalization.py')],
  note='all real values; series up to 4 stamps'),
 dict(id='P07', title='Rescaled irradiance differs from the model by a single fitted factor',
  statement='Rescaling modelled irradiance returns the model times one constant (or the factor alone, when asked for factors), and that constant is the fit, over the clear-sky selection made with the previous factor, of measured against scaled modelled irradiance. The iterative method stops only when the factor has converged to the stated tolerance and reports failure otherwise.',
  quant='all measured and modelled irradiances, missing values, every sequence of factors the optimiser may return, every iteration budget',
  why='tests rescale by one or two constants with exact data; selection and termination depend on the sequence of fitted factors',
  files=['rdtools/normalization.py'],
  mech=[('irradiance_rescale', 'rdtools/normalization.py')],
  note='bounded: up to 4 samples and 4 iterations; the optimiser may return any factor'),
 dict(id='P08', title='Aggregated performance is the insolation-weighted mean of the known points',
  statement='Aggregating normalised energy with insolation returns, for each calendar bin, the insolation-weighted mean of the points in the bin whose energy and insolation are both known, so it always lies between their smallest and largest value. Bins without such points are missing, and the inputs are left unchanged.',
  quant='all energies, all non-negative insolations, all missing-value patterns, daily to monthly bins, time zones with clock changes',
  why='the single test uses one table without missing data',
  files=['rdtools/aggregation.py'],
  mech=[('aggregation_insol', 'rdtools/aggregation.py')],
  note='bounded: up to 6 points in 4 bins'),
 dict(id='P09', title='Threshold filters keep exactly the points inside their documented limits',
  statement='The normalised-energy, plane-of-array irradiance, cell-temperature, clear-sky-index, hour-angle and clear-sky filters keep a point exactly when its value lies inside the documented limits (including the documented open/closed ends) and never keep a missing value. The masks are aligned with the input and the input is not changed.',
  quant='all real values and limits, infinities and missing values at each position',
  why='tests check values well inside and outside the default limits',
  files=['rdtools/filtering.py'],
  mech=[('normalized_filter', 'rdtools/filtering.py'), ('poa_filter', 'rdtools/filtering.py'), ('tcell_filter', 'rdtools/filtering.py'), ('csi_filter', 'rdtools/filtering.py'), ('hour_angle_filter', 'rdtools/filtering.py')],
  note='all reals; 3-4 points'),
 dict(id='P10', title='Quantile-based selections depend only on the meaningful part of the record',
  statement='The robust statistics are the quantile, median or mean of the readings above the documented fraction of the record, so that adding zero or missing readings (nights, outages) does not change them. The quantile clipping filter keeps exactly the readings below 0.99 of the chosen quantile and the insolation filter exactly those above the chosen quantile; selections do not change with the power unit.',
  quant='all non-negative readings, all missing-value patterns, quantile levels',
  why='tests check one ramp record at one quantile',
  files=['rdtools/filtering.py', 'rdtools/aggregation.py', 'rdtools/analysis_chains.py'],
  mech=[('quantile_clip_filter', 'rdtools/filtering.py'), ('insolation_filter', 'rdtools/filtering.py')],
  note='bounded: up to 5-6 readings'),
 dict(id='P11', title='Outlier filters flag exactly the points outside their rolling or Tukey bands',
  statement='The Hampel filter keeps a point exactly when it lies within the chosen number of scaled deviations of its rolling median, the two-way window filter keeps a point unless it is an outlier against both its neighbours in time, and the directional Tukey filter keeps a point exactly when its forward or backward change lies within the fences built with the chosen factor. Decisions do not change when the values are rescaled.',
  quant='all real values, thresholds and windows, gaps and missing points',
  why='tests use one fixed record per filter with one obvious outlier',
  files=['rdtools/filtering.py'],
  mech=[('hampel_filter', 'rdtools/filtering.py'), ('two_way_window_filter', 'rdtools/filtering.py'), ('directional_tukey_filter', 'rdtools/filtering.py')],
  note='bounded: 5-7 points'),
 dict(id='P12', title='Logic-based clipping filter removes exactly the readings on clipping plateaus',
  statement='The logic-based clipping filter takes as clipping every flat stretch, that is enough consecutive readings whose relative spread is below the cutoff, leaving out readings under a tenth of the daily maximum and days of frozen data. The lowest and highest clipping reading of a day set the band whose readings are removed on that day (only the readings within a quarter percent of either edge when the band is wide), and when the clipped readings reach the top of the record everything at the top is removed too. The result does not depend on the power unit, isolated peaks and missing readings never count as flat, and the input is left unchanged.',
  quant='all non-negative readings at the symbolic positions, sampling rates, mounting types and cutoffs',
  why='tests use a few synthetic days; the interplay of flat windows, daily levels and tolerance is only sampled',
  files=['rdtools/filtering.py'],
  mech=[('logic_clip_filter', 'rdtools/filtering.py'), ('_calculate_max_rolling_range', 'rdtools/filtering.py'), ('_apply_overall_clipping_threshold', 'rdtools/filtering.py')],
  note='bounded: records of 11-14 readings, 2-5 of them arbitrary'),
 dict(id='P13', title='Year-on-year rate is the median of all one-year changes in the record',
  statement='The year-on-year degradation rate is the median, over every reading that has a reading about one year earlier, of their change per year, in percent of the median first-year performance when recentring and of unit performance otherwise. With recentring it does not change when all energies are scaled, and the usage count tells for each reading whether it took part as start, as end, as both or not at all.',
  quant='all energies, missing values, regular and irregular records with leap years, time zones and multi-year windows',
  why='tests check simulated records with one constant rate within a tolerance',
  files=['rdtools/degradation.py'],
  mech=[('degradation_year_on_year', 'rdtools/degradation.py')],
  note='bounded: up to 9 readings over 2-4 years'),
 dict(id='P14', title='Year-on-year uncertainty brackets resampled medians; bad records are refused',
  statement='The confidence interval and exceedance level of the year-on-year rate are the stated percentiles of the medians of resampled rates, ordered, nested as the level grows and inside the range of the individual rates. Block resampling rebuilds each resampled record from the fitted trend and resampled residuals. Records that are too short or have no pairs one year apart, and for block resampling irregular records or too long blocks, are refused with an error instead of giving a rate.',
  quant='all energies, every resample among the enumerated ones, confidence and exceedance levels',
  why='tests check the default levels of seeded runs against a tolerance',
  files=['rdtools/degradation.py', 'rdtools/bootstrap.py'],
  mech=[('degradation_year_on_year', 'rdtools/degradation.py'), ('_make_time_series_bootstrap_samples', 'rdtools/bootstrap.py'), ('_construct_confidence_intervals', 'rdtools/bootstrap.py')],
  note='bounded: 3-4 rates, 3 resamples'),
 dict(id='P15', title='Regression rates are slope over intercept of the right fit and trend label',
  statement='The regression-based degradation rate is the least-squares slope in years divided by the fitted value at the first reading, in percent, with the residual error and standard errors of that fit, and does not depend on the energy unit. Classical decomposition fits the centred one-year moving average, labels the trend by the Mann-Kendall test at 5 percent with tie correction, and refuses records with missing data. The confidence interval holds the stated percentiles of slope over intercept drawn from the fitted distribution, and the input is left unchanged.',
  quant='all energies (constant ones included), missing values, irregular records, every draw',
  why='tests check simulated constant-rate records within a tolerance',
  files=['rdtools/degradation.py'],
  mech=[('degradation_ols', 'rdtools/degradation.py'), ('degradation_classical_decomposition', 'rdtools/degradation.py'), ('_mk_test', 'rdtools/degradation.py'), ('_degradation_CI', 'rdtools/degradation.py')],
  note='bounded: OLS up to 5 points, decomposition up to 12; least-squares solver replaced by its closed form'),
 dict(id='P16', title='Soiling intervals start and end at cleanings and carry the right fit',
  statement='The soiling analysis splits the record exactly at the cleaning events given by the chosen criterion (detected shifts, precipitation, both or either), drops zero-performance days, and reports for every interval its dates, length, fitted soiling rate with limits and inferred losses. An interval counts as valid exactly when its fit is a credible soiling slope over enough data under the stated limits, and performance is renormalised so that clean means one. Short gaps do not create intervals, long gaps and trimmed edges follow the documented rule, and the input is left unchanged.',
  quant='all daily performance values, missing days, precipitation and thresholds; all cleaning criteria',
  why='tests use one simulated record and compare a few summary numbers',
  files=['rdtools/soiling.py'],
  mech=[('SRRAnalysis._calc_daily_df', 'rdtools/soiling.py'), ('SRRAnalysis._calc_result_df', 'rdtools/soiling.py'), ('soiling_srr', 'rdtools/soiling.py')],
  note='bounded: 8-13 days; Theil-Sen fit arbitrary'),
 dict(id='P17', title='Soiling ratio is the insolation-weighted mean of sampled soiling profiles',
  statement='Every sampled soiling profile decays in each valid interval with a slope inside the fitted limits, and recovers at cleanings as the chosen cleaning assumption says. The reported soiling ratio is the median of their insolation-weighted means, and its confidence interval and exceedance level are the stated percentiles.',
  quant='all fitted slopes and limits, insolations, interval lengths, cleaning assumptions and levels',
  why='tests fix the seed and compare with stored numbers for one record',
  files=['rdtools/soiling.py'],
  mech=[('SRRAnalysis._calc_monte', 'rdtools/soiling.py'), ('SRRAnalysis.run', 'rdtools/soiling.py')],
  note='bounded: 2-4 intervals of 3-5 days, 1-3 realisations'),
 dict(id='P18', title='Annual soiling ratios and monthly rates are the stated quantiles',
  statement='The annual soiling ratio of each calendar year is the median, with the stated confidence limits, of the insolation-weighted mean of every profile within that year. The monthly soiling rate is the median and limits of the rates of the intervals that touch that month for at least the minimum time with an acceptable uncertainty, together with the count of those intervals. Months without any such interval are missing.',
  quant='all profiles, insolations, rates and limits; several years, months and interval positions',
  why='tests use one stored record',
  files=['rdtools/soiling.py'],
  mech=[('annual_soiling_ratios', 'rdtools/soiling.py'), ('monthly_soiling_rates', 'rdtools/soiling.py')],
  note='bounded: 2-4 profiles of up to 6 days; 2-4 intervals'),
 dict(id='P19', title='Loss from offline subsystems follows from the online peers and the meter',
  statement='An inverter is online exactly when it produces more than its threshold, and when some but not all are online the lost system power is the meter power times the ratio of the missing to the present share of the system. The present share is meter power over the full power that the online peers imply by their relative sizes, kept between the size fraction online and one, and the loss is capped by the system limit. The loss is zero when all or none are online or when the shortfall is below three quarters of the share of the smallest offline inverter; it is never negative and the inputs are left unchanged.',
  quant='all subsystem and meter powers, missing values, thresholds, sizes and limits',
  why='tests use one system with a few hand-made outages',
  files=['rdtools/availability.py'],
  mech=[('AvailabilityAnalysis._calc_loss_subsystem', 'rdtools/availability.py')],
  note='bounded: 2-3 subsystems, 2-4 stamps'),
 dict(id='P20', title='Full outages, their lost energy and availability roll-up are consistent',
  statement='Every stretch in which all inverters are offline is one outage (joined across nights), and the energy lost in it is the expected energy minus what the meter recorded when the shortfall exceeds the expected uncertainty, nothing when production was normal, and unknown when the meter is missing. The lost-power series and the corrected meter add up to those losses, and the rolled-up availability per period is one minus lost over potential production.',
  quant='all meter readings, expected powers and outage positions (start, middle, end, across nights, several)',
  why='tests use one system with a few hand-made outages',
  files=['rdtools/availability.py'],
  mech=[('AvailabilityAnalysis._calc_loss_system', 'rdtools/availability.py'), ('AvailabilityAnalysis._calc_error_distributions', 'rdtools/availability.py'), ('AvailabilityAnalysis._combine_losses', 'rdtools/availability.py')],
  note='bounded: 10-14 hourly stamps, one to three outages'),
 dict(id='P21', title='Combined filter keeps a point exactly when every chosen filter keeps it',
  statement='In the end-to-end analysis a point enters the aggregation exactly when it has a normalised energy and passes every chosen filter evaluated on the right inputs (measured or clear-sky), where missing filter values exclude and points not covered by an ad hoc mask are kept; the same holds for the filters on aggregated data. The reported filter components explain the mask, only requested filters run, and unknown filter names are refused. The masks given by the user are not altered.',
  quant='all energies, irradiances, temperatures, masks and filter limits; equal, longer and shifted input records; sensor and clear-sky analyses',
  why='tests run one system with default filters; interplay of indexes, missing values and user masks is only sampled',
  files=['rdtools/analysis_chains.py'],
  mech=[('TrendAnalysis._filter', 'rdtools/analysis_chains.py'), ('TrendAnalysis._aggregated_filter', 'rdtools/analysis_chains.py'), ('ValidatedFilterDict', 'rdtools/analysis_chains.py')],
  note='bounded: 3-5 stamps over 1-3 days'),
 dict(id='P22', title='End-to-end analysis hands the right performance series to the estimators',
  statement='From raw power or energy, irradiance, temperature or expected power, the end-to-end analysis gives each aggregation bin the insolation-weighted mean of energy over expected energy, with sensor records interpolated to the production record within the allowed gap, cell temperature modelled from ambient when not given, and production scaled to its own 95th percentile when no rating is given. The estimators receive exactly that series and the options of the user, and their results are stored under the analysis that produced them. Set-ups lacking needed inputs, less than two years of data for degradation, and non-daily data for soiling are refused.',
  quant='all input values, missing values, record alignments, ratings, coefficients, option sets',
  why='tests run one simulated system and compare the final rate',
  files=['rdtools/analysis_chains.py'],
  mech=[('TrendAnalysis.sensor_analysis', 'rdtools/analysis_chains.py'), ('TrendAnalysis.clearsky_analysis', 'rdtools/analysis_chains.py'), ('TrendAnalysis._pvwatts_norm', 'rdtools/analysis_chains.py'), ('TrendAnalysis._calc_cell_temperature', 'rdtools/analysis_chains.py')],
  note='bounded: 3-4 intervals of raw data, 3-4 bins up to 731 days apart'),
 dict(id='P23', title='Modelled clear-sky conditions belong to the site and to the interval',
  statement='The modelled clear-sky ambient temperature comes from the climate cell nearest to the site for every latitude and longitude (date line and poles included) and equals the seasonally smoothed, linearly interpolated mean of day and night temperature plus a daily swing that is warmest four hours after local solar noon; sites without climate data give missing values and a warning. Modelled clear-sky irradiance used in the analysis is the mean of the minute values inside each right-labelled measurement interval, from the configured geometry, with the first interval missing.',
  quant='all latitudes and longitudes, all monthly day and night temperatures, all minute irradiances; month and year boundaries',
  why='tests look at one or two sites',
  files=['rdtools/clearsky_temperature.py', 'rdtools/analysis_chains.py'],
  mech=[('get_clearsky_tamb', 'rdtools/clearsky_temperature.py'), ('TrendAnalysis._calc_clearsky_poa', 'rdtools/analysis_chains.py')],
  note='bounded: grids up to 8x4 cells, 3-10 stamps; climate file replaced by symbolic values'),
 dict(id='P24', title='Learned clipping filter removes the daily band around flagged readings',
  statement='Whatever the learned model answers, the learned clipping filter removes a reading exactly when it lies in the band between the smallest and largest reading flagged on the same day (with the documented tolerance), close enough to that day\'s maximum and above a tenth of the range. The model receives its features in the trained order, computed from the readings scaled to the range zero to one, so the result does not depend on the power unit; missing readings, other days and the input are not affected.',
  quant='all readings at the symbolic positions, all model verdicts, sampling rates from one to sixty minutes, several days and missing readings',
  why='tests run the trained model on a few synthetic records',
  files=['rdtools/filtering.py'],
  mech=[('xgboost_clip_filter', 'rdtools/filtering.py'), ('_calculate_xgboost_model_features', 'rdtools/filtering.py')],
  note='bounded: 11-40 readings on 1-3 days, 1-3 arbitrary; trained model replaced by arbitrary verdicts'),
 dict(id='P25', title='Figures draw exactly the analysed data of the analysis asked for',
  statement='Every figure draws the data it is said to show: yields divided by the renormalising factor, a trend line from one at the first to one plus rate times years at the last point, all year-on-year rates in the histogram, the requested number of soiling profiles, only valid soiling intervals, one expected-production curve with its error bar per outage, and the rolling median of the rates only where at least half the window is filled. Figures of the end-to-end analysis use the results of the analysis asked for and refuse unknown ones, and inputs are left unchanged.',
  quant='all yields, factors, rates, profiles, outages and masks',
  why='tests only check that a figure object comes back',
  files=['rdtools/plotting.py', 'rdtools/analysis_chains.py'],
  mech=[('degradation_summary_plots', 'rdtools/plotting.py'), ('soiling_monte_carlo_plot', 'rdtools/plotting.py'), ('availability_summary_plots', 'rdtools/plotting.py'), ('degradation_timeseries_plot', 'rdtools/plotting.py')],
  note='bounded: 3-8 points; matplotlib and plotly replaced by recorders'),
 dict(id='P26', title='Combined degradation and soiling fits each component to what the others leave',
  statement='The iterative decomposition fits its components in the requested order, each to the daily record divided by the components already found (soiling: without degradation and season; season: without soiling; degradation: without season and soiling), repeats until the error stops improving or the iterations are used up, and refuses records that are not daily or that leave out the soiling component. The reported components are the last fitted ones; residuals are the record divided by their product, the model is that product times the mean residual, the soiling loss is the mean shortfall of the soiling ratio in percent, and the soiling signal is called small exactly when its spread is below the given multiple of the spread of the residuals.',
  quant='all records with missing days, all answers of the fitting steps, orders, criteria and iteration limits',
  why='tests compare one simulated record with a tolerance of half a percent per year',
  files=['rdtools/soiling.py'],
  mech=[('CODSAnalysis.iterative_signal_decomposition', 'rdtools/soiling.py')],
  note='bounded: 3-8 days, up to 9 fitting steps; Kalman filter, STL and year-on-year fit may return anything'),
 dict(id='P27', title='CODS bootstrap keeps the best model and reports honest weighted intervals',
  statement='The bootstrapped combined analysis fits one model per combination of alternatives, keeps the one with the largest weight (inverse error, less for records declared clean), resamples only from fits with stationary residuals, and counts only repetitions that succeed with stationary residuals. Degradation, soiling loss, season, cleaning probability and bootstrapped profiles are the weighted means over those repetitions and the limits their quantiles at the confidence level; the model is soiling ratio times trend times season, shifted by the mean residual. A record whose fits are mostly non-stationary is refused, and mostly small soiling signals give zero loss, the best model loss in percent as its upper limit, and the plain year-on-year rate.',
  quant='all records, decomposition results, failures, weights, confidence levels and alternatives',
  why='tests run one simulated record with few repetitions and compare loosely',
  files=['rdtools/soiling.py'],
  mech=[('CODSAnalysis.run_bootstrap', 'rdtools/soiling.py'), ('soiling_cods', 'rdtools/soiling.py')],
  note='bounded: 2-4 days, 1-16 initial fits, 1-32 repetitions of which 1-3 succeed; single decompositions may return anything'),
 dict(id='P28', title='Combined method: soiling follows the smoothed signal and the cleanings found',
  statement='Whatever the smoothing filter answers, the soiling step of the combined method takes as cleanings the days of the largest rise of the rolling median among neighbouring candidates beyond the quartile fence, drops insignificant or outlying ones, adds one for every stretch of positive rates, and never smooths across a cleaning. The soiling ratio is the smoothed signal (relative to the last cleaning when cleanings are taken as perfect), rescaled as requested and never above one, its rate is zero wherever the ratio does not change, and flags and day counts agree with the cleanings.',
  quant='all smoothed signals and rates, readings at the symbolic days, cleanings given or detected, missing days and options',
  why='tests only run the whole method on one simulated record',
  files=['rdtools/soiling.py'],
  mech=[('CODSAnalysis._Kalman_filter_for_SR', 'rdtools/soiling.py'), ('_collapse_cleaning_events', 'rdtools/soiling.py'), ('_rolling_median_ce_detection', 'rdtools/soiling.py')],
  note='bounded: 40-48 days, 0-5 cleanings, 1-3 arbitrary values; Kalman filter and smoother may return anything'),
 dict(id='P29', title='Combined method: season repeats every year; bootstrap copies stay its copies',
  statement='The season of the combined method has one value per day of the year, the median over all years of the fitted season without the poorly fitted days at either end of the record (half of what exceeds one year, at most 180 days). The perturbed seasons of the bootstrap are this yearly shape moved by the drawn shift and scaled about the mean season by the drawn multiplier, within the requested limits.',
  quant='all fitted seasons at the symbolic days of the year, multipliers, shifts, record lengths and time zones',
  why='tests only run the whole method on one simulated record',
  files=['rdtools/soiling.py'],
  mech=[('_force_periodicity', 'rdtools/soiling.py'), ('_make_seasonal_samples', 'rdtools/soiling.py')],
  note='bounded: 1.2-4 years, 1-3 arbitrary days of the year; last day of leap years left out'),
]
NOT_APPLICABLE = []
