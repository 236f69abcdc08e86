"""Writes /verif/properties.jsonl (the list is edited here)."""
import json
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "observe_at": observe, "hook_needed": None}})
D = "metsim/disaggregate.py"; M = "metsim/metsim.py"; PH = "metsim/physics.py"
MT = "metsim/methods/mtclim.py"; IO = "metsim/io.py"; PT = "metsim/methods/passthrough.py"

prop("C01", "Sub-daily precipitation conserves each day's total",
 "In local time, for every daily precipitation series and admissible time step, each day's sub-daily amounts are non-negative and sum to that day's total; with a UTC shift the total over the record is conserved. The uniform method spreads a day evenly; the triangle method puts all of it inside the storm window of width dur centred on t_pk of that day's month, rising linearly to the peak and falling after it. The mix method is uniform exactly on days with t_min below 0 C and triangular on all other days.",
 ["inputs", "configurations"], "all record lengths, daily amounts, temperatures, longitudes, peak times inside the day and durations of at least two minutes, 34 admissible time steps, three methods",
 "Tests compare one year of uniform hourly/3-hourly output with a stored file at 3% or 20% error and only check that triangle runs; no test sums anything.",
 [D, M], [("prec", D + ":prec"), ("prec_TRIANGLE / prec_UNIFORM", D + ":prec"), ("convert_monthly_param", M + ":MetSim.convert_monthly_param")],
 ["return value of disaggregate.prec", "prec column of disaggregate()", "prec variable of the output file"])

prop("C02", "Sub-daily shortwave carries exactly the day's energy, in daylight",
 "In local time, for every record and admissible time step, each day's sub-daily shortwave is non-negative and its sum times the step length equals the daily flux times its averaging period (the daylight length for mtclim or daylight averaging, 24 hours otherwise). Within a day it is distributed in proportion to that calendar day's potential-radiation curve, so it is zero in every step in which the sun is down.",
 ["inputs", "configurations"], "all record lengths, daily fluxes, daylengths, radiation curves that sum to one, calendar days 1..366, all admissible sub-daily time steps, both averaging conventions",
 "Tests check the mean of one 1949 run and rmse against stored hourly output for one cell.",
 [D], [("shortwave", D + ":shortwave"), ("daylength override for passthrough", D + ":disaggregate")],
 ["return value of disaggregate.shortwave", "shortwave column of disaggregate()"])

prop("C03", "Sub-daily temperature stays within and attains the daily extremes",
 "For daily series with t_min <= t_max, every sub-daily temperature in local time lies between the smallest t_min and the largest t_max of its own day and the days before and after it (the supplied adjoining values, or the repeated first/last day, at the ends of the record). The daily minimum is attained at that day's sunrise and the daily maximum at the configured fraction of the way from sunrise to sunset, each taken at the step ending there; days without a sunrise or sunset use one sixth and four sixths of the day.",
 ["inputs", "configurations"], "all record lengths, temperatures, radiation masks with at most one sunrise and one sunset per day, fractions in (0,1), all admissible time steps",
 "Tests compare one cell's temperatures with a stored file within 3% rmse; overshoot and exact timing are not asserted, polar days never occur.",
 [D], [("temp", D + ":temp"), ("set_min_max_hour", D + ":set_min_max_hour")],
 ["return value of disaggregate.temp", "temp column of disaggregate()"])

prop("C04", "Humidity outputs are physically consistent and never supersaturated",
 "For every input record, sub-daily vapor pressure is linear in time between the daily values placed at each day's time of minimum temperature but never exceeds the saturation value at that step's temperature. Relative humidity is 100 times the ratio of vapor pressure to saturation, capped at 100 percent, and specific humidity is the mixing-ratio expression 0.62196351*e/(p-e) over one plus itself, in [0,1) whenever vapor pressure is below air pressure. Saturation vapor pressure follows the Maidment formula with its ice correction below 0 C and is positive and strictly increasing between -100 C and 60 C.",
 ["inputs"], "all record lengths, daily vapor pressures, temperatures, minimum-temperature times and time steps, including the steps before the first and after the last daily minimum",
 "Tests only bound rmse on one cell for one year; no assertion relates vapor pressure to saturation.",
 [D, PH], [("vapor_pressure", D + ":vapor_pressure"), ("relative_humidity", D + ":relative_humidity"), ("specific_humidity", D + ":specific_humidity"), ("svp", PH + ":svp"), ("fill of missing steps", D + ":disaggregate")],
 ["vapor_pressure, rel_humid, spec_humid and temp columns of disaggregate()"])

prop("C05", "Wind and cloud fraction are held through the day and keep their mean",
 "In local time every sub-daily wind and cloud-fraction value equals its own day's daily value, for every record and admissible time step. With a UTC shift every value stays between the smallest and largest daily value and the mean over the record is unchanged.",
 ["inputs", "configurations"], "all record lengths, daily values, longitudes, admissible time steps, both time conventions",
 "Tests compare one cell with a stored file within 3%; UTC mode is only run, not checked.",
 [D], [("wind", D + ":wind"), ("tskc", D + ":tskc")], ["wind and tskc columns of disaggregate()"])

prop("C06", "Longwave follows the selected parameterisation and any supplied daily mean",
 "For every temperature, vapor pressure and cloud fraction, sub-daily longwave equals effective emissivity times 5.669e-8 times the fourth power of absolute temperature, with the clear-sky emissivity of the named parameterisation (TVA/default, Anderson, Brutsaert, Satterlund, Idso, Prata; vapor pressure in hPa) combined with cloud by the named cloud correction (TVA/default or Deardorff), names compared without regard to case. It is positive for every cloud fraction in [0,1]. When a daily longwave is supplied, each day's mean of the sub-daily values equals it and the shape within the day is unchanged.",
 ["inputs", "configurations"], "all series, all 6+1 emissivity options times 2+1 cloud options, any case of the option name, with and without a supplied daily longwave, all admissible time steps",
 "Only the default pair is ever run and compared, at 3% rmse; the other options and the supplied-daily path are not run at all.",
 [D, M], [("longwave", D + ":longwave"), ("option validation", M + ":MetSim._validate_setup")],
 ["return value of disaggregate.longwave", "acceptance of the option by a run"])

prop("C07", "UTC mode is an exact circular time shift by longitude",
 "With UTC output selected, sub-daily precipitation, wind and cloud fraction are the local-time minute series rolled earlier by lon/360 of a day (whole minutes toward zero) over the whole record before aggregation; shortwave is built from the daily totals and the annual radiation curve rolled likewise (whole radiation steps), and sunrise/sunset and the times of extreme temperature move earlier by the same angle. Longitudes that differ by a multiple of 360 degrees give the same results. With UTC off, longitude has no effect on any sub-daily value.",
 ["inputs", "configurations"], "all longitudes (any real number of degrees), record lengths, series and admissible time steps",
 "UTC mode is only exercised by two example configurations that check the file opens.",
 [D], [("np.roll of minute series", D + ":prec"), ("roll", D + ":wind"), ("roll", D + ":tskc"), ("roll of radiation curve", D + ":shortwave"), ("utc shift of rise/set", D + ":set_min_max_hour"), ("longitude normalisation", D + ":disaggregate")],
 ["columns of disaggregate() with utc_offset on and off"])

prop("C08", "Solar geometry is valid at every latitude and day",
 "For every elevation, latitude from pole to pole and positive lapse rate, computation succeeds and for each calendar day: daylength lies in [0, 86400] s and equals twice the sunset hour angle arccos(-tan(lat)*tan(decl)) clipped to polar day/night; the potential-radiation fractions are non-negative, zero when the sun is below the horizon and sum to one (to within the 30 s discretisation) on days with sun and to zero otherwise; mean potential radiation is non-negative and clear-sky transmittance lies in [0,1]. Day 366 repeats day 365.",
 ["inputs"], "all latitudes in [-90, 90] including the edges of polar day and night, elevations -500..9000 m, lapse rates above zero, all 366 rows",
 "Tests use mid-latitude cells only; no test looks at these arrays.",
 [PH], [("solar_geom", PH + ":solar_geom")], ["return tuple of physics.solar_geom"])

prop("C09", "Daily MTCLIM estimates follow the published equations and stay in range",
 "For every daily record with t_min <= t_max, day temperature is the tday_coef-weighted point between daily mean and maximum, cloudy transmittance is 1-0.9*exp(-B*dtr^1.5) with B=0.031+0.201*exp(-0.185*smoothed range) times the rain scalar exactly on days with precipitation above the threshold and stays in [0,1], and cloud fraction is one minus it (Deardorff) or sqrt((1-it)/0.65) (default). Shortwave is potential radiation times max(clear-sky transmittance - 6.1e-5*vapor pressure, 1e-4) times cloudy transmittance, potential evapotranspiration is the Priestley-Taylor/Kimball expression and is non-negative and in mm/day, atmospheric pressure is the standard-atmosphere power law, and dewpoint is the Kimball expression with annual precipitation floored at 80.",
 ["inputs", "configurations"], "all daily series, parameters in their documented ranges, both cloud options",
 "Unit tests of these functions are commented out; only a whole-run rmse for one cell is asserted.",
 [MT, PH], [("t_day, tfmax, pet, tdew, shortwave, tskc", MT), ("calc_pet, atm_pres", PH)],
 ["return values of the mtclim estimation functions"])

prop("C10", "The dewpoint iteration ends in a mutually consistent daily state",
 "Whenever the daily mtclim simulation returns, the reported vapor pressure is the saturation pressure at the reported dewpoint, the reported shortwave is the shortwave estimate for that vapor pressure and the reported evapotranspiration is the estimate for that shortwave. The reported dewpoint is the dewpoint estimate of the preceding iterate and differs from it by at most tdew_tol root-mean-square. Day temperature, cloudy transmittance and cloud fraction are the estimates for the given inputs, and the input temperatures and precipitation are returned unchanged.",
 ["inputs", "histories"], "all daily series, tolerances, and any number of iterations (zero, one, many)",
 "Tests run one data set in which the loop takes a few iterations and compare only rmse of disaggregated output.",
 [MT], [("run", MT + ":run")], ["data frame returned by mtclim.run"])

prop("C11", "Passthrough keeps every supplied variable and estimates only the missing ones",
 "With the passthrough method every variable supplied in the forcing (day temperature, transmittance, cloud, evapotranspiration, dewpoint, vapor pressure, shortwave, temperatures, precipitation, wind) is used unchanged, and each missing one gets exactly the mtclim estimate computed from the values in use; shortwave must be supplied. Supplied shortwave is a 24-hour mean unless daylight averaging is declared, so daily output reports it unchanged and sub-daily output averages to it over each day; with daylight averaging, and for mtclim, daily output is the daylight flux times daylength/86400.",
 ["inputs", "configurations"], "all subsets of supplied variables, all values, daily and sub-daily steps, both averaging conventions",
 "One passthrough run is compared with an mtclim run by the overall mean of three variables at hourly step; daily passthrough is never run.",
 [PT, M, D], [("passthrough.run", PT + ":run"), ("daily flux conversion", M + ":wrap_run_cell"), ("daylength override", D + ":disaggregate")],
 ["data frame returned by passthrough.run", "daily output of wrap_run_cell"])

prop("C12", "Output values and their unit labels agree with the requested units",
 "For every output variable and every documented unit, the values written equal the default-unit values converted exactly to the requested unit (K = C+273.15, hPa = 100 Pa, kPa = 10 hPa = 1000 Pa, percent = 100 fraction, mm/h and mm/s use the time step), and the units attribute in the file names the unit the data are in. An unknown unit, or none, falls back to the documented default both in values and label, whatever runs were configured before in the same process.",
 ["inputs", "configurations", "histories"], "all variable/unit pairs, all values and time steps, any sequence of earlier configurations",
 "One test checks two conversions by their mean; labels and fallbacks are never checked.",
 ["metsim/units.py", M], [("converters", "metsim/units.py:converters"), ("_update_unit_attrs", M + ":MetSim._update_unit_attrs"), ("conversion in run_slice", M + ":MetSim.run_slice"), ("units attribute", M + ":MetSim.setup_netcdf_output")],
 ["variables and units attributes of output files"],
 [("attrs", "process-wide attribute table", M), ("available_outputs", "default units and names", M)])

prop("C13", "Spatial chunking covers every cell once and never changes results",
 "For any grid size and any chunk sizes (including ones that do not divide the grid, exceed it, or are given for only some dimensions), the chunk slices cover every cell exactly once. Every cell's results are written at that cell's own position in the output file and equal those of an unchunked run.",
 ["inputs", "configurations"], "all positive dimension sizes and chunk sizes, one- and two-dimensional domains with any dimension names",
 "Examples use 3x3 chunks on one or two small domains and check only that files open.",
 [M], [("chunk_domain", M + ":chunk_domain"), ("slices", M + ":MetSim.slices"), ("write_chunk", M + ":MetSim.write_chunk")],
 ["list of slices", "output file contents for different chunks settings"])

prop("C14", "Each active cell is computed from its own data; masked cells stay missing",
 "After a run every cell whose mask is positive holds, for each requested variable and time, the result computed only from that cell's own forcing, state, latitude, longitude and elevation, and every other cell (mask zero, negative or missing) holds only missing values. No cell's result depends on the values, order or masking of other cells, and for finite inputs every step of an active cell is finite.",
 ["inputs", "configurations", "histories"], "all masks, cell orders and domain shapes, all forcing values",
 "Tests look at one cell of a fully active domain.",
 [M, D], [("run_slice", M + ":MetSim.run_slice"), ("wrap_run_cell", M + ":wrap_run_cell"), ("final fill", D + ":disaggregate")],
 ["self.output after run_slice", "output files"])

prop("C15", "Output covers every time step exactly once with the right time stamps",
 "The output time axis holds every step from the start of the first day to the end of the last exactly once, evenly spaced, for every admissible time step; period-ending output has the same values with every stamp one step later. Splitting output into files by frequency partitions that axis: each step is written once, in order, in the file whose name carries the first and last date it contains.",
 ["inputs", "configurations"], "all start dates and record lengths, admissible time steps, output frequencies of a day or longer, both stamp conventions, standard and no-leap calendars",
 "One test checks that period-ending stamps are shifted for hourly output; output splitting is never tested.",
 [M, "metsim/datetime.py", D], [("_get_output_times", M + ":MetSim._get_output_times"), ("date_range", "metsim/datetime.py:date_range"), ("wrap_run_cell trimming", M + ":wrap_run_cell"), ("write_chunk", M + ":MetSim.write_chunk"), ("get_nc_output_suffix", M + ":MetSim.get_nc_output_suffix")],
 ["time variable and contents of the output files"])

prop("C16", "Invalid set-ups are rejected before any computation, valid ones accepted",
 "A run proceeds only if the time step is a positive divisor of 1440 minutes that is at most 360 or exactly 1440; forcing, at least one forcing variable, t_min, t_max and prec, and a non-empty output list are present; every output variable is available at that step; and out_precision, lw_cloud and lw_type name documented options (in any case of letters for the latter two). Otherwise one exception lists every problem found. Every configuration meeting these conditions is accepted.",
 ["inputs", "configurations"], "all integer time steps and all combinations of present/absent settings, output variables and option names",
 "No test submits an invalid configuration.",
 [M], [("_validate_setup", M + ":MetSim._validate_setup")], ["exception or normal return of _validate_setup / run"])

prop("C17", "Antecedent state feeds exactly the trailing 30- and 90-day windows",
 "For every simulated day the smoothed temperature range is the mean of that day's and the 29 preceding days' ranges and seasonal precipitation is 365.25 times the mean of that day's and the 89 preceding days' amounts, with days before the start taken from the 90-day state in order. No day's value depends on later days, and a record in which any maximum temperature is below the minimum is rejected.",
 ["inputs", "histories"], "all record lengths (shorter and longer than the windows), state and forcing values",
 "No test inspects these intermediate series; a shifted or mis-joined window changes rmse by less than the tolerance.",
 [M], [("_aggregate_state", M + ":MetSim._aggregate_state"), ("state_start/state_stop", M + ":MetSim._validate_force_times")],
 ["met_data seasonal_prec, smoothed_dtr, dtr after state is loaded"])

prop("C18", "Forcing readers deliver every value to its own cell, day and variable",
 "Binary (VIC), ASCII and NetCDF forcing is delivered so that each active cell, day and variable holds the value in the file for it: binary values in record order divided by the variable's scale and read as signed or unsigned as configured, for any number of variables; ASCII columns in configured order; NetCDF variables under their configured names within start..stop. A constant_vars entry replaces that variable everywhere by its constant, and monthly parameters take each day's month's value.",
 ["inputs", "configurations"], "all numbers of variables and days, scales, file contents, cell positions, start/stop windows",
 "Tests read one four-variable data set per format and compare rmse for one cell.",
 [IO, M], [("read_binary", IO + ":read_binary"), ("read_ascii", IO + ":read_ascii"), ("process_vic", IO + ":process_vic"), ("read_netcdf", IO + ":read_netcdf"), ("constant_vars", M + ":MetSim.met_data"), ("convert_monthly_param", M + ":MetSim.convert_monthly_param")],
 ["met_data after loading"])

prop("C19", "INI and YAML configurations mean the same and map names faithfully",
 "For equivalent content, INI and YAML files give the same settings for every forcing format: each forcing, domain and state variable maps input name to MetSim name (for binary forcing, MetSim name to its scale and type), booleans are booleans, each requested output keeps its name, output name and units, and defaults apply where a key is absent. The file type follows from the first non-comment line. Reading one configuration never changes what reading another yields.",
 ["inputs", "configurations", "histories"], "all variable-name mappings, values, option subsets and sequences of files read",
 "One YAML and six INI example files are read and only checked to run.",
 [IO], [("check_config_type", IO + ":check_config_type"), ("read_yaml_config", IO + ":read_yaml_config"), ("read_ini_config", IO + ":read_ini_config"), ("_invert_dict", IO + ":_invert_dict")],
 ["dictionary returned by read_config"],
 [("available_outputs", "default output table shared by all readers", M)])

prop("C20", "A model instance depends only on its own configuration",
 "Settings given to one model instance never change the settings seen by another instance in the same process, whether created before or after it, and a setting that is not given has its documented default. The dictionary the caller passes in is not modified by constructing an instance.",
 ["histories", "configurations"], "all sequences of instances and parameter dictionaries",
 "Tests create many instances in one process but never compare settings; the suite is known to depend on file order.",
 [M], [("__init__", M + ":MetSim.__init__"), ("class-level params", M + ":MetSim.params")],
 ["params of instances"], [("params", "run settings", M + ":MetSim.params")])

prop("C21", "Air pressure follows the barometric formula at every step",
 "For every temperature, elevation and lapse rate, sub-daily air pressure equals 101.325 kPa times exp(-g*elev/(287*(T+273.15-0.5*lapse*elev))). It is positive, equals standard pressure at sea level, lies below it at positive elevation, and rises with temperature there.",
 ["inputs"], "all temperature series, elevations and lapse rates with a positive mean column temperature",
 "Tests compare one cell's series with a stored file within 3%.",
 [D], [("pressure", D + ":pressure")], ["air_pressure column of disaggregate()"])

prop("C22", "Disaggregation feeds each variable from its own daily source",
 "For every record, the sub-daily table has exactly one row per step and each column is the documented function of the record's own daily columns and of the sub-daily temperature, vapor pressure, pressure and cloud columns of the same table; where wind is absent there is no wind column, and a supplied daily longwave is used. The daily values reported alongside are not altered, and no value is missing.",
 ["inputs", "configurations"], "all records, parameter sets, optional columns present or absent",
 "Tests bound rmse per variable on one cell; a swapped argument or an off-by-one day stays inside the tolerance for slowly varying inputs.",
 [D, M], [("disaggregate", D + ":disaggregate"), ("wrap_run_cell", M + ":wrap_run_cell")],
 ["data frame returned by disaggregate and wrap_run_cell"])

prop("C23", "Results do not depend on worker scheduling",
 "For every interleaving of chunk workers, scheduler and number of workers, the finished output files are identical and contain every chunk's data.",
 ["schedules"], "all interleavings of workers writing the shared output files",
 "Tests run the threaded scheduler with one worker.",
 [M], [("write locks", M + ":MetSim.run"), ("write_chunk", M + ":MetSim.write_chunk")], ["output files"])

prop("C24", "The dewpoint iteration terminates",
 "For every physically valid daily record and positive tolerance the iterative dewpoint estimate converges in finitely many steps.",
 ["inputs"], "all daily records and tolerances",
 "Tests run one data set.",
 [MT], [("while loop in run", MT + ":run")], ["termination of mtclim.run"])

with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
