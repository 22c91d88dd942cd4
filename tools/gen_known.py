"""Source of /verif/known_findings.json."""
import json, os, subprocess
FIXED = [
 ("C02", "4af9305", "a request with the wrong kind on a parameter (or on a parent whose children are of another kind) was recorded before it was rejected"),
 ("C05", "64b321e", "a view request with an undefined or inconvertible unit or an unusable time grid left kind, unit and time grid in the parameter"),
 ("C01", "1896495", "after a view of a parent the grandchildren could still be extended by new sub-parameters"),
 ("C04", "efb4845", "aggregated timeseries views kept showing the first sum after later writes to the children"),
 ("C07", "3cf3fec", "value handles could be read before the first write (uninitialised memory), written on aggregated parameters, and went stale"),
 ("C05", "f924481", "a rejected timeseries write (data not sufficient to convert) left new values in the view or the parameter"),
 ("C08", "aae50db", "locked views lost or published pending writes when another view wrote or the view was read"),
 ("C07", "ac3f13d", "floats written through a view first set with integers were truncated"),
 ("C21", "38ece1b", "interpolating a frame holding average and point timeseries failed or mixed both up"),
 ("C21", "a23449b", "interpolate dropped the parameter types it guessed"),
 ("C17", "3bbed21", "lists of month or day ranges in time filters selected nothing or failed"),
 ("C16", "37cc7f5", "characters special to regular expressions in metadata filters were not taken literally"),
 ("C16", "699b6bd", "the level filter miscounted the depth of names that repeat"),
 ("C24", "0567328", "a rejected inplace rename left part of the metadata renamed"),
 ("C20", "3ccae79", "a rejected inplace convert_unit left part of the data converted"),
 ("C18", "15506fd", "metadata values equal to -999 became NaN in append"),
 ("C24", "a273ba7", "set_meta on an existing column from a series or for part of the rows failed or changed other rows"),
 ("C24", "447905d", "a rejected assignment of df['time'] changed the time points"),
 ("C09", "fadd202", "point timeseries could not be converted to a single time point"),
 ("C11", "a3fb5c5", "S, SO2 and SOx units were undefined"),
 ("C11", "ee6eff2", "degreeC and degreeF were multiplicative units instead of temperatures with an offset"),
 ("C10", "c6ad05e", "period averages of small values were inaccurate (absolute tolerance of the quadrature)"),
 ("C10", "a05bd4e", "period averages of piecewise functions were inaccurate (kinks inside the integrated interval)"),
 ("C14", "ecf6577", "DICE outputs started from uninitialised memory, visible while stepping"),
 ("C15", "cafd152", "the exogenous forcing of DICE was rounded to the resolution of the period length (whole days)"),
 ("C26", "2fe2af6", "decimal years and numeric strings of the year 9999 failed or became a date in it that depended on the current date"),
 ("C26", "70a1450", "date strings without day or month took them from the current date"),
 ("C26", "5ba2585", "years before 1970 given as unsigned integers wrapped around"),
 ("C27", "36c1f2b", "grids for dates off the boundaries failed outside the nanosecond range of pandas (1677 to 2262)"),
 ("C27", "786aff4", "grids for data with times of day consisted of shifted instants instead of period boundaries, or ended too early"),
 ("C27", "20574b1", "grids of several periods per step did not cover the end of the data"),
 ("C05", "54c8b7c", "a rejected write of something that is not a number left a parameter marked as written or text in a view's buffer"),
 ("C16", "7ed5931", "a text filter on a metadata column which contains None raised TypeError"),
 ("C25", "e6c99de", "process_over left out groups with missing metadata"),
 ("C22", "1152fa1", "long tables left out timeseries with missing metadata"),
 ("C23", "925908b", "conversion to a data frame included only one level of subregions"),
 ("C24", "ba4e484", "set_meta for part of the rows changed the order of the timeseries"),
 ("C22", "4744419", "timeseries given with dates as text were sorted as text, out of order in time"),
 ("C22", "5e532af", "making a data frame changed or named the index of the caller's data"),
 ("C24", "205f689", "set_meta with an index that is not unique or with labels of a filtered frame gave values to the wrong rows"),
 ("C25", "cc2bc7f", "reference period means duplicated and lost timeseries with missing metadata"),
 ("C24", "0d12f53", "rename changed other numbers of a metadata column (2.25 became 2)"),
 ("C23", "7b8bfd5", "conversion to a data frame failed for parameters which were never written"),
 ("C23", "96d9554", "scalar columns whose name or unit contains parentheses did not come back from a parameter set"),
 ("C16", "e5c68b9", "text filters did not match across line breaks, and matched values that continue with a line break"),
 ("C07", "955062a", "elements of timeseries read with numpy integers as index were no numbers"),
]
# Genuine defects left in place: {"property", "domain", "clause", "match", "what"}.
FINDINGS = []
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "known_findings.json"), "w") as f:
    json.dump({"findings": FINDINGS, "fixed": ["fixed: property=%s %s %s" % x for x in FIXED]}, f, indent=1)
    f.write("\n")
