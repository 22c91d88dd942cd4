"""Source of /verif/properties.jsonl (kept as code so that it stays readable)."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": observe, "hook_needed": None}})

CORE = "openscm/core/"
prop("C01", "Parameter hierarchy stays consistent under every request history",
     "Once a parameter has been viewed or written, no new sub-parameter can be added anywhere below it: the request fails with the read error (or the written error if it holds data) and neither the parameter nor any view of it is affected. A parameter that has sub-parameters can never be written, through any kind of view and by any way of assigning; the attempt fails with the read-only error. Requests for parameters that already exist keep succeeding.",
     ["histories"], "every interleaving of view requests, writes and reads on trees of parameters of any shape, in any region",
     "The tests try a handful of two-level trees with one request each; whether a later request can still grow a tree that an earlier view aggregates over depends on the whole history.",
     [CORE+"parameters.py", CORE+"parameterset.py", CORE+"views.py"],
     [("get_or_create_child_parameter read/written guards", CORE+"parameters.py"), ("attempt_write children guard", CORE+"parameters.py")],
     ["ParameterSet.scalar/timeseries/generic results and exceptions", "ParameterSet.info"],
     [("has_been_read_from", "parameter was viewed", CORE+"parameters.py"), ("has_been_written_to", "parameter holds data", CORE+"parameters.py"), ("children", "sub-parameters", CORE+"parameters.py")])
prop("C02", "A parameter's kind and unit are fixed by its first view",
     "The first successful view of a parameter fixes its kind (scalar, average timeseries, point timeseries, generic) and its unit; from then on requests for another kind fail with a type error, requests in a unit of another dimension fail with a dimensionality error, and the information reported about the parameter (kind, unit, name, region) never changes. The same holds for a parameter with sub-parameters: it can only be viewed as the kind all of its leaves have and in a unit they convert to, and a generic parameter can never be aggregated.",
     ["histories"], "every sequence of view requests of mixed kinds, units and orders of parent and child requests",
     "Tests check single mismatches on fresh parameters; the order of parent, child and failed requests decides what is remembered.",
     [CORE+"parameters.py", CORE+"parameterset.py", CORE+"views.py"],
     [("attempt_read type check", CORE+"parameters.py"), ("UnitConverter construction in views", CORE+"views.py")],
     ["exceptions of view requests", "ParameterSet.info(...).parameter_type/.unit", "view.parameter_type, view.unit"])
prop("C03", "Scalar and generic views always show the latest write in their unit",
     "After any sequence of writes through any views of a scalar or generic parameter, every view, old or new, reads the last value written, converted exactly from the writing view's unit to the reading view's unit. A parameter is empty, reads fail with the empty error and 'ensure' fails, until the first successful write and never after. The version number strictly increases with each write and with nothing else.",
     ["histories"], "every interleaving of writes and reads through any number of views with different units",
     "Tests write once and read once or twice through two views; currency is a property of all interleavings.",
     [CORE+"views.py", CORE+"parameters.py"],
     [("ScalarView.value", CORE+"views.py"), ("GenericView.value", CORE+"views.py"), ("ParameterInfo.empty/ensure", CORE+"parameters.py")],
     ["ScalarView.value", "GenericView.value", "empty", "ensure()", "version"])
prop("C04", "Aggregated views equal the current sum over all leaves",
     "A scalar or timeseries view of a parameter with sub-parameters reads the sum of the current values of all leaf parameters below it, each converted to the view's unit and time points, at every moment: also after leaves have been rewritten through other views, through element assignment or in place. It reads as empty (error) exactly while some leaf below it has not been written.",
     ["histories"], "every tree shape and depth, every assignment of units and grids to leaves, every interleaving of leaf writes and aggregated reads",
     "Tests read an aggregate once after writing its leaves; stale aggregates appear only after a read followed by another leaf write.",
     [CORE+"views.py"],
     [("_child_data_views aggregation", CORE+"views.py")],
     ["ScalarView.value and TimeseriesView.values of a parent parameter"])
prop("C05", "A rejected operation leaves no trace",
     "A view request or a write that fails with an error (wrong kind, unknown or inconvertible unit, aggregation or read-only error, wrong number of values, not enough data to convert) changes nothing observable: what exists, kinds, units, emptiness, versions, the values every existing view reads, and the outcome of every later operation are as if it had never been attempted.",
     ["histories", "fault_sequences"], "every operation that can fail, inserted at any point of any history",
     "Tests assert the exception and stop; whether the failed attempt left something behind shows only in what later operations do.",
     [CORE+"parameters.py", CORE+"parameterset.py", CORE+"views.py", CORE+"time.py"],
     [("order of validation and mutation in attempt_read/attempt_write and the value setters", CORE+"parameters.py")],
     ["all public reads after a rejected operation", "later requests"])
prop("C06", "Distinct names, regions and parameter sets are independent; spellings agree",
     "A parameter is identified by its parameter set, its region path and its name path, where 'A|B', ('A','B') and ['A','B'] denote the same path; reading or writing one parameter never affects one with a different identity. Asking for information never creates anything and returns nothing exactly for parameters that do not exist. A region path that does not start at the set's root region is rejected with a value error.",
     ["histories", "inputs"], "every set of names and regions sharing components, in every spelling, across several parameter sets with arbitrary root names",
     "Tests use a few fixed names; aliasing between identities needs combinations (same name in sub-regions, shared prefixes).",
     [CORE+"parameterset.py", CORE+"regions.py", CORE+"parameters.py"],
     [("_get_or_create_region/_get_or_create_parameter", CORE+"parameterset.py"), ("get_subparameter/get_subregion", CORE+"regions.py")],
     ["ParameterSet.scalar/timeseries/generic/info"])
prop("C07", "Timeseries views are coherent under every way of reading and writing",
     "Whatever combination of whole-array, element, slice, in-place and universal-function writes is made through any views of a timeseries parameter, every view and every value handle obtained from it, whenever it was obtained, reads the latest data converted to its own unit and time grid in every way of reading (indexing, iteration, arithmetic, comparison, conversion to an array); an element write through one view never undoes what was written through another. Arrays passed in are copied, and writes of the wrong length are rejected with the mismatch error.",
     ["histories"], "every interleaving of the read and write forms over several views with different units and grids",
     "Tests use one or two views and a fixed order; a stale buffer needs a write through one view between two uses of another.",
     [CORE+"views.py", CORE+"time.py"],
     [("_Timeseries wrapper", CORE+"views.py"), ("TimeseriesView._read/_write versioned buffer", CORE+"views.py")],
     ["TimeseriesView.values in all array operations"],
     [("_data/_version", "buffer and the parameter version it reflects", CORE+"views.py")])
prop("C08", "Locked timeseries views publish nothing until unlocked, then everything",
     "While a timeseries view is locked, its own reads show its own writes but no other view, aggregate, version or emptiness changes; unlocking publishes exactly the buffered series, after which every view reads it and writes take effect immediately again. Locking and unlocking without writing changes no data.",
     ["histories"], "every interleaving of lock, unlock, buffered writes of each form and reads through other views",
     "Tests lock once around one write.",
     [CORE+"views.py"],
     [("lock/unlock/_write", CORE+"views.py")],
     ["other views' values, version, empty during and after the lock"])
prop("C09", "Point conversion is exact linear interpolation with the chosen extrapolation",
     "Reading a point timeseries on another time grid returns, at each target time, the value of the straight line through the neighbouring source points; at source times it returns the source values unchanged. Outside the source period it fails with the insufficient-data error without extrapolation, holds the end values with constant extrapolation, and continues the first or last segment with linear extrapolation; series of fewer than three values are refused. Writing on another grid is the same conversion in the other direction.",
     ["inputs"], "all source and target grids (irregular, dense, sparse, overlapping, single-second steps, far dates), values and extrapolation modes",
     "Tests compare a few smooth series on regular grids.",
     [CORE+"time.py", CORE+"views.py"],
     [("TimeseriesConverter", CORE+"time.py")],
     ["TimeseriesConverter.convert_from/convert_to", "TimeseriesView.values"])
prop("C10", "Average timeseries conversion preserves period means and integrals",
     "Converting period averages to other periods integrates one fixed mean-preserving piecewise linear curve of the source over each target period: onto the source periods it returns the source averages, for target periods that tile a span made of source periods it preserves the integral, constant series stay constant, linear series stay linear, and merging target periods equals averaging them by length. Extrapolation modes and errors are as for point series.",
     ["inputs"], "all source and target period grids, values and extrapolation modes",
     "Tests compare sampled trigonometric functions with loose tolerances on a few grids.",
     [CORE+"time.py"],
     [("_calc_integral_preserving_linear_interpolation", CORE+"time.py"), ("_calc_interval_averages", CORE+"time.py")],
     ["TimeseriesConverter.convert_from/convert_to"])
prop("C11", "Unit conversion is one consistent affine algebra over all documented units",
     "For any two units of the same dimension built from the documented gases, masses, times and compound expressions, conversion multiplies by the ratio of the documented molecular-mass and SI factors (plus the offset for temperatures); conversions invert each other, compose along chains, and aliases (names, letter case, joint mass-gas spellings) are interchangeable. Units of different dimension, including different base gases and methane against carbon or NOx against nitrogen outside their context, are refused with a dimensionality error, and unknown units with an undefined-unit error.",
     ["inputs"], "all pairs and chains over the whole unit table and compound units, scalars and arrays",
     "Tests check a few dozen pairs with hard-coded numbers.",
     [CORE+"units.py"],
     [("_standard_gases, add_standards, _add_gases", CORE+"units.py"), ("UnitConverter scaling and offset", CORE+"units.py")],
     ["UnitConverter.convert_from/convert_to"])
prop("C12", "Metric contexts apply the tabulated factor and never leak",
     "Inside a metric context a gas converts to and from CO2-equivalents with that metric's tabulated factor, identically for pure, mass, per-time and mass-per-time units and for derived gas units; a metric without a value for the gas warns and yields NaN. A conversion requested with no context, or with another context, is never influenced by any context used before, including after a failed conversion.",
     ["histories", "inputs"], "all metrics, gases and unit forms, in every order of conversions with and without contexts and failures between",
     "Tests spot-check some factors in a fixed order.",
     [CORE+"units.py", "openscm/data/metric_conversions.csv"],
     [("_load_metric_conversions", CORE+"units.py"), ("UnitConverter context use", CORE+"units.py")],
     ["UnitConverter(source, target, context)"])
prop("C13", "Adapters and OpenSCM call a model's hooks in protocol order",
     "For every sequence of calls on an adapter or the OpenSCM wrapper, the model is initialised exactly once and before anything else, its inputs are initialised before a run, it is reset before each run, steps start at the start time and advance by the reported step, and shutdown happens when it is released. The adapter registry returns the same adapter for a name, loads it at most once, and rejects unknown names with a key error.",
     ["histories"], "every sequence of initialise, run, step, reset, parameter changes, several wrappers per model",
     "Tests call each hook once in the documented order.",
     ["openscm/adapters/__init__.py", CORE+"__init__.py"],
     [("Adapter.run/step/reset/initialize_*", "openscm/adapters/__init__.py"), ("OpenSCM", CORE+"__init__.py"), ("get_adapter", "openscm/adapters/__init__.py")],
     ["recorded hook calls of a model adapter", "OpenSCM.run/step/reset_stepping"])
prop("C14", "Runs are reproducible: stepping equals running, defaults never override input",
     "For any user input, running a model gives the same outputs as stepping through the same period, and running again (with or without reset, or after changing and restoring inputs) gives the same outputs as a fresh model with the current inputs. Default values are only used for inputs the user did not set, whether set before or after the model was created, and a run never changes the user's inputs.",
     ["histories", "inputs"], "every interleaving of parameter writes, runs, steps and resets, for varied inputs and periods",
     "Tests run the model once with defaults and compare to a reference file.",
     ["openscm/adapters/__init__.py", "openscm/adapters/dice.py", CORE+"__init__.py"],
     [("DICE._initialize_model/_initialize_run/_reset/_run/_step", "openscm/adapters/dice.py")],
     ["output ParameterSet of OpenSCM"])
prop("C15", "DICE follows its carbon, forcing and temperature equations",
     "For all inputs, each annual step of DICE computes the three carbon reservoirs, total forcing and the two temperatures from the previous step by the documented DICE2013R equations, including the saturation of the exogenous forcing, the lower bounds of the reservoirs and the upper and lower bounds of the temperatures, in the documented units.",
     ["inputs"], "all parameter values and emission series, including those that hit every bound",
     "Tests compare one emission pathway with a reference; bounds and non-default parameters are not reached.",
     ["openscm/adapters/dice.py"],
     [("DICE._calc_step / equations", "openscm/adapters/dice.py")],
     ["output timeseries of a DICE run"])
prop("C16", "Metadata filters select exactly the matching timeseries",
     "Filtering a data frame by metadata keeps exactly the timeseries whose columns satisfy all given conditions: string patterns match whole values literally except for the '*' wildcard (or as regular expressions on request), lists match any of their entries, numbers match equal numbers, levels bound the depth below the pattern (exactly, at most, at least), and missing values are handled as documented. keep=False selects exactly the complement; rows, values and metadata of what is kept are unchanged.",
     ["inputs"], "all metadata tables, patterns (including special characters), levels, lists and combinations",
     "Tests use a few names and patterns.",
     ["openscm/scmdataframe/filters.py", "openscm/scmdataframe/base.py"],
     [("pattern_match, find_depth", "openscm/scmdataframe/filters.py"), ("ScmDataFrame.filter/_apply_filters", "openscm/scmdataframe/base.py")],
     ["ScmDataFrame.filter(...).meta / timeseries()"])
prop("C17", "Time filters select exactly the matching time points",
     "Filtering by year, month, day, hour, weekday or exact time keeps exactly the time points whose calendar fields satisfy all conditions, with names, abbreviations, numbers, ranges (including month and weekday name ranges) and lists of these meaning the same set; values at the kept times are unchanged, keep=False keeps exactly the other times, and inputs are not modified.",
     ["inputs"], "all dates (including leap days, before 1970 and beyond 2262), filter values, ranges and combinations",
     "Tests check some values on a few annual dates.",
     ["openscm/scmdataframe/filters.py", "openscm/scmdataframe/base.py"],
     [("years_match, month_match, day_match, hour_match, datetime_match, time_match", "openscm/scmdataframe/filters.py")],
     ["ScmDataFrame.filter(...)"])
prop("C18", "Appending merges data without loss and averages duplicates",
     "Appending data frames yields for every timeseries identity (full metadata) and time point the value from the only input that has one, or the mean of all the values given if several do, and NaN if none does; no timeseries, time point or metadata column is lost or invented, missing metadata columns being filled with NaN. The duplicate policy (return, warn, ignore) only decides how duplicates are reported.",
     ["inputs", "histories"], "all frames with overlapping or disjoint series, times and metadata columns, chains of appends, all policies",
     "Tests append two small frames with fixed overlap.",
     ["openscm/scmdataframe/base.py"],
     [("df_append, ScmDataFrame.append", "openscm/scmdataframe/base.py")],
     ["ScmDataFrame.append / df_append results"])
prop("C19", "Operations that are not in-place never modify their inputs",
     "Every data frame operation without inplace leaves its source, all appended or referenced frames, and all arguments exactly as they were, and its result shares nothing with them: changing the result never changes the source and the other way round. The in-place form changes the object to exactly what the other form would have returned.",
     ["histories"], "every sequence of filter, append, convert, interpolate, resample, rename, metadata and copy operations with writes between",
     "Tests check selected operations once.",
     ["openscm/scmdataframe/base.py"],
     [("ScmDataFrame.copy and the inplace branches", "openscm/scmdataframe/base.py")],
     ["ScmDataFrame contents before and after"])
prop("C20", "Frame unit conversion converts exactly the selected timeseries",
     "Converting units in a data frame multiplies the values of exactly the selected timeseries by the factor of the unit system (with the context if given), sets their unit and leaves all other timeseries, all other metadata, the time axis and the row identities as they were; a conversion that is not possible fails with the unit error and changes nothing.",
     ["inputs"], "all mixtures of units, selections, contexts and repeated conversions",
     "Tests convert one or two rows.",
     ["openscm/scmdataframe/base.py", CORE+"units.py"],
     [("ScmDataFrame.convert_unit", "openscm/scmdataframe/base.py")],
     ["ScmDataFrame.convert_unit result"])
prop("C21", "Frame interpolation and resampling convert every series by its own type",
     "Interpolating a data frame to target times converts each timeseries independently with the point or average rule given by its parameter-type column or else guessed from variable and unit, and keeps all metadata; resampling is interpolation onto the calendar grid of the given frequency covering the data. The guess depends only on the documented variable and unit rules and not on the other rows.",
     ["inputs"], "all mixtures of series types, variables, units, grids, extrapolation modes and extra metadata",
     "Tests interpolate single-type frames with the usual metadata.",
     ["openscm/scmdataframe/base.py", "openscm/scmdataframe/parameter_type.py", "openscm/scmdataframe/offsets.py"],
     [("ScmDataFrame.interpolate/resample", "openscm/scmdataframe/base.py"), ("guess_parameter_type", "openscm/scmdataframe/parameter_type.py")],
     ["ScmDataFrame.interpolate/resample results"])
prop("C22", "Every construction and export format carries the same data",
     "The same timeseries given as wide or long table, series, list of columns with arrays, CSV or Excel file build equal data frames, in whatever order rows and columns come, and exporting a frame (wide table, long table, file) and constructing from it gives back equal times, values and metadata. Input without the required columns or without usable times is rejected with a value error, and caller's data are not modified.",
     ["inputs"], "all tables with any metadata columns, time representations, row and column orders, missing values",
     "Tests use fixed example tables.",
     ["openscm/scmdataframe/base.py"],
     [("_format_data, _format_wide_data, _format_long_data, _from_ts, _read_file", "openscm/scmdataframe/base.py")],
     ["ScmDataFrame(...).timeseries()/meta/time_points"])
prop("C23", "Parameter sets and data frames convert into each other without loss",
     "Writing a data frame for one scenario into a parameter set creates for each timeseries the parameter with its variable path, region path, unit and type, holding its values at its times, and turning a parameter set into a data frame lists exactly its written timeseries with their paths, units, types and values; the round trip gives back the same data.",
     ["inputs", "histories"], "all frames and parameter sets with nested names and regions and mixed types",
     "Tests convert one fixed frame.",
     ["openscm/scmdataframe/base.py", "openscm/scmdataframe/__init__.py"],
     [("ScmDataFrame.to_parameterset", "openscm/scmdataframe/base.py"), ("convert_core_to_scmdataframe", "openscm/scmdataframe/__init__.py")],
     ["ParameterSet contents", "ScmDataFrame contents"])
prop("C24", "Metadata edits change exactly the addressed cells",
     "Setting metadata, renaming values and item assignment change exactly the addressed rows or cells (row by row in order, by index, or for all), never values or times, and reading an item returns what the frame holds. Renames that would make two timeseries indistinguishable, and edits with the wrong length or with illegal or unknown names, are rejected with a value error and change nothing.",
     ["inputs", "histories"], "all sequences of metadata edits on all frames, including conditional renames and non-unique results",
     "Tests make single edits on two- and three-row frames.",
     ["openscm/scmdataframe/base.py"],
     [("set_meta, rename, __getitem__, __setitem__", "openscm/scmdataframe/base.py")],
     ["ScmDataFrame.meta, values, iteration"])
prop("C25", "Grouped statistics and reference-period anomalies are exact",
     "Processing a frame over metadata columns returns for each combination of the remaining columns the median, mean or quantile over exactly the group's series at each time. Values relative to a reference period are the original values minus each series' own mean over the time points in the period; all other data stay unchanged.",
     ["inputs"], "all groupings, operations, quantiles and reference periods",
     "Tests check one grouping of three series.",
     ["openscm/scmdataframe/base.py"],
     [("process_over, relative_to_ref_period_mean, line aggregation", "openscm/scmdataframe/base.py")],
     ["returned tables and frames"])
prop("C26", "All time representations denote the same instants, with right calendar parts",
     "Years as integers or numeric strings, decimal years, date strings, datetimes and datetime64 values normalise to the second they denote (fractions of seconds cut off, missing months and days being the first), for all years 1 to 9999, in the given order, and the reported year, month, day, hour and weekday are those of the proleptic Gregorian calendar. Equidistant time point generation returns start + k * step, with one more point for averages.",
     ["inputs"], "all dates from year 1 to 9999 including leap days and century years, all representations and steps",
     "Tests use a few modern dates.",
     [CORE+"time.py"],
     [("_format_datetime, _float_year_to_datetime, TimePoints, create_time_points", CORE+"time.py")],
     ["TimePoints(...).values/years()/months()/...", "create_time_points"])
prop("C27", "Calendar grids for resampling hit every period boundary, covering the data",
     "The grid generated for a supported frequency contains exactly the period boundaries of that frequency (month, quarter, year starts or ends, with or without anchor months) from the last one not after the start to the first one not before the end, strictly increasing and without gaps (steps of several periods take every n-th boundary, until the end is covered), for any dates and times of day; unsupported frequencies are rejected with an error.",
     ["inputs"], "all supported frequencies, multiples and start and end dates, including dates outside the pandas range",
     "Tests list a few ranges.",
     ["openscm/scmdataframe/offsets.py"],
     [("to_offset, generate_range, apply_rollforward/rollback", "openscm/scmdataframe/offsets.py")],
     ["generate_range/to_offset", "ScmDataFrame.resample"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p, sort_keys=False) + "\n")
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    print(len(P), "properties")
