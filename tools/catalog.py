"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C, I, L, U, E, M, S, PA = ("src/climate_indices/%s.py" % x for x in
                           ("compute", "indices", "lmoments", "utils", "eto", "__main__", "__spi__", "palmer"))
P = []
NA = {}


def prop(id, title, statement, over, text, why, files, mech, at=()):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if at:
        d["anchors"]["observe_at"] = list(at)
    P.append(d)


IN = ["inputs"]
IC = ["inputs", "configurations"]

prop("P01", "Accumulations over the time scale are exact window sums",
     "The accumulation at time step i for scale n is the sum of the values at i-n+1..i, and it is missing if that window starts before the series or has a missing value in it. "
     "Accumulations used for SPI treat negative precipitation as zero and are laid out as whole years of 12 months or 366 days, in order, the incomplete last year filled with missing; all-missing input stays missing. "
     "This holds for every series length and scale, including scales longer than the series.",
     IN, "all lengths, scales, values (missing and negative ones included), one- or two-dimensional, monthly or daily",
     "tests compare a few fixture series at scales 1, 2, 6; an off-by-one in the window for other lengths, scales or positions of missing values goes unseen",
     [C], [("convolution and head padding", "compute.sum_to_scale"), ("clipping, scaling, reshaping", "compute.scale_values"), ("reshaping", "compute.reshape_values, utils.reshape_to_2d")],
     ["return values of sum_to_scale and scale_values"])

prop("P02", "Calendar days and 366-day years convert without loss, day by day",
     "Converting a daily series that starts on 1 January to 366-day years keeps every day's value, in order and in the right year, and adds in common years a 29 February that is the average of 28 February and 1 March; days after the end of the data are missing. "
     "Converting back drops exactly the added days, so the round trip returns the original series; the inputs are left as they were. "
     "Leap years are those of the Gregorian calendar, for every start year and number of years.",
     IN, "all start years (century rules included), numbers of years, values, missing values",
     "tests use one or two fixture series of fixed years; century years, other start years and missing values around the leap day are not reached",
     [U], [("366-day layout", "utils.transform_to_366day"), ("back to the calendar", "utils.transform_to_gregorian")],
     ["return values"])

prop("P03", "Reshaping to whole years keeps every value in its place",
     "Reshaping a series to rows of a year keeps all values in chronological order and only fills the end of an incomplete last row with missing values; an array of the right width is returned unaltered, other shapes are rejected with ValueError. "
     "The 366-day length of a Gregorian series of whole years is 366 per year, plus the remaining days of an incomplete last year.",
     IN, "all lengths, row lengths, values, start years",
     "tests reshape a handful of fixed arrays", [U],
     [("padding and reshape", "utils.reshape_to_2d"), ("divisions", "utils.reshape_to_divs_years_months"), ("length", "utils.gregorian_length_as_366day")],
     ["return values and exceptions"])

prop("P04", "Month starts are counted in real days since the reference year",
     "The time coordinate of month k of a monthly series is the number of days of the Gregorian calendar from 1 January of the reference year to the first of that month, for every initial year and month and every reference year. "
     "Without an initial month the series starts in January, without a reference year it counts from 1800.",
     IN, "all initial years, initial months, reference years, numbers of months",
     "one test compares a couple of fixed years", [U], [("dates", "utils.compute_days")], ["return value of compute_days"])

prop("P05", "SPI and SPEI have the input's length, stay in range, are missing correctly",
     "SPI and SPEI return one value per input value, every one of them is between -3.09 and 3.09 or missing, and a value is missing exactly where its accumulation window is incomplete or has a missing value (also for zero accumulations, whenever the fit of that calendar step is usable); all-missing input stays missing. "
     "Unknown distributions or periodicities, inputs with more than two dimensions and precipitation and PET of different lengths raise ValueError.",
     IC, "all series, missing and negative values, scales, monthly and daily, gamma and Pearson, usable fitting parameters",
     "tests compare fixture series without unusual patterns of missing values, zeros and extremes",
     [I, C], [("index", "indices.spi, indices.spei"), ("transformation", "compute.transform_fitted_gamma, compute.transform_fitted_pearson, compute._pearson_fit"), ("clipping", "indices.spi, indices.spei")],
     ["return values of spi and spei"])

prop("P06", "Gamma SPI/SPEI: each value is its accumulation's normal score",
     "With the gamma distribution the shape and scale of a calendar month or day are Thom's estimates over the non-zero, non-missing accumulations of that calendar step in the calibration years, and no other calendar step enters. "
     "The index value is the standard normal quantile of p0 + (1 - p0) G(x), G the fitted distribution and p0 the share of zeros among that calendar step's accumulations, limited to -3.09..3.09. "
     "For SPEI, x is precipitation minus PET plus 1000.",
     IC, "all series, scales, calibration periods, zeros and missing values; monthly and daily",
     "tests compare with arrays produced by the code itself for one fixture without zeros in most months", [C, I],
     [("fit", "compute.gamma_parameters"), ("transformation", "compute.transform_fitted_gamma"), ("index", "indices.spi, indices.spei")],
     ["return values of gamma_parameters, spi, spei"])

prop("P07", "Pearson SPI/SPEI: each value is its accumulation's normal score",
     "With the Pearson Type III distribution a calendar step's location, scale and skew are the L-moment estimates over the values of that step in the calibration years, together with the share of zeros among them; steps with fewer than four usable values get no fit. "
     "The index value is the standard normal quantile of p0 + (1 - p0) F(x), limited to -3.09..3.09; zeros score as the share of zeros, traces below 0.0005 and values below the distribution's lower bound as defined for that distribution, values above its upper bound as the maximum.",
     IC, "all series, scales, calibration periods, signs of the skew, zeros, traces, missing values",
     "tests compare with arrays produced by the code itself for one fixture; negative skew, traces, bounds and short samples are not reached", [C, L, I],
     [("fit", "compute.pearson_parameters, compute.calculate_time_step_params, lmoments.fit"), ("transformation", "compute._pearson_fit, compute._minimum_possible, compute.transform_fitted_pearson")],
     ["return values of pearson_parameters, transform_fitted_pearson, spi, spei"])

prop("P08", "Only the calibration years determine the fit, all years if not covered",
     "Fitting parameters come from exactly the years of the calibration period, first and last year included, whenever the data have all of them; if the data start after the period's first year or end before its last year, all data years are used. "
     "An incomplete last year counts as a data year. SPI and SPEI computed with a calibration period equal those computed with that period's parameters.",
     IC, "all data start years, calibration first and last years inside, across and outside the data, complete or partial last years, gamma and Pearson",
     "tests use one calibration period inside the fixture's years and one full-period run", [C],
     [("window", "compute.gamma_parameters, compute.pearson_parameters, compute.adjust_calibration_years")],
     ["return values of gamma_parameters, pearson_parameters, spi, spei"])

prop("P09", "Computing an index never modifies the caller's arrays",
     "No public computation (SPI, SPEI, percentage of normal, PCI, PET, Hargreaves, Palmer, parameter fitting, day conversions) changes the arrays or the dictionary of fitting parameters it is given: afterwards they hold the values they held before. "
     "Calling the same computation again with the same arguments gives the same result.",
     IC, "all inputs (negative and missing values, two-dimensional arrays), all options",
     "tests do not compare inputs before and after, and fixture arrays are copied by most tests", [I, C, U, E, PA],
     [("copies", "indices.spi, indices.spei, indices.percentage_of_normal, indices.pci, compute.scale_values"), ("views", "utils.reshape_to_2d, palmer._initialize_data")],
     ["caller's arrays after the call"])

prop("P10", "More precipitation never lowers the index of any period",
     "With fixed fitting parameters, raising one precipitation value lowers no SPI or SPEI value, and leaves every value unchanged whose accumulation window does not include it; raising one PET value raises no SPEI value. "
     "A larger accumulation in the same calendar step never scores lower than a smaller one. (Accumulations at or below the lower limit of a Pearson Type III fit, and gamma's zeros, have fixed probabilities of their own and are excepted.)",
     IN, "all series, positions, increments, scales; gamma and Pearson of either sign of skew",
     "tests never compare two runs", [C, I], [("transformation", "compute.transform_fitted_gamma, compute._pearson_fit"), ("sums", "compute.sum_to_scale")],
     ["return values of spi and spei of two runs"])

prop("P11", "Percentage of normal is the accumulation over its calendar average",
     "Percentage of normal at a time step is its accumulation divided by the average accumulation of the same calendar month or day over the calibration period, missing where either is missing or the average is not positive. "
     "Calibration years and scales that make no sense (before the data, too long, not positive) and unknown periodicities raise ValueError.",
     IC, "all series, scales, calibration periods, missing values; monthly and daily",
     "one test compares one fixture at one scale", [I], [("normals and ratios", "indices.percentage_of_normal")], ["return value and exceptions"])

prop("P12", "Thornthwaite PET follows the formula for every temperature and latitude",
     "Thornthwaite PET of a month is 16 (L/12)(N/30)(10 T/I)^a mm with T the temperature (negative ones as zero), I and a from the twelve calendar months' mean temperatures, N the number of days of the month (leap years respected) and L its mean daylight hours at the latitude. "
     "If no month's average is above freezing PET is zero. It does not depend on anything outside these inputs.",
     IN, "all temperature series, latitudes, start years", "tests compare one fixture at one latitude with a stored array", [E, I],
     [("PET", "eto.eto_thornthwaite"), ("daylight", "eto._monthly_mean_daylight_hours, eto._daylight_hours, eto._sunset_hour_angle, eto._solar_declination")],
     ["return value of pet"])

prop("P13", "PET accepts every real latitude and never yields a negative amount",
     "For every latitude from pole to pole, PET is returned, one value per temperature, never negative, and missing exactly where the temperature is missing (provided every calendar month has a temperature in some year); all-missing temperatures are returned as they are. "
     "Latitudes outside -90..90, missing latitudes and None raise ValueError.",
     IN, "all latitudes (poles, polar circles, equator), temperatures, missing values, start years", "tests use a few fixed latitudes", [I, E],
     [("validation", "indices.pet"), ("PET", "eto.eto_thornthwaite"), ("polar day and night", "eto._sunset_hour_angle")], ["return value and exceptions of pet"])

prop("P14", "Hargreaves PET follows the formula day by day",
     "Hargreaves PET of a day is 0.0023 (Tmean + 17.8) sqrt(Tmax - Tmin) 0.408 Ra with Ra the extraterrestrial radiation of its day of the (366-day) year at the latitude, for one- and two-dimensional input, each day from its own temperatures only. "
     "Arrays of different sizes raise ValueError.",
     IN, "all temperatures, latitudes, numbers of years", "one test compares one fixture", [E],
     [("formula", "eto.eto_hargreaves"), ("geometry", "eto._solar_declination, eto._sunset_hour_angle")], ["return value of eto_hargreaves"])

prop("P15", "PCI is 100 times sum of squared monthly totals over squared annual total",
     "The precipitation concentration index of a year of daily values is 100 times the sum of the squared calendar-month totals over the square of the annual total, with the month boundaries of a 365-day or of a 366-day year, so it lies between 100/12 and 100. "
     "Any other number of values and missing values raise ValueError.",
     IN, "all daily values of a common or leap year", "one test compares one fixture year of 365 and one of 366 days to a rounded number", [I],
     [("months", "indices.pci")], ["return value and exceptions of pci"])

prop("P16", "The Palmer water balance conserves water every month",
     "In every month of the Palmer water balance precipitation plus the soil's initial content equals evapotranspiration plus runoff plus the soil's final content, evapotranspiration is at most potential, and the surface and underlying layers stay between empty and their capacity. "
     "Recharge, loss, runoff and their potentials are those of Palmer's two-layer bucket model with an inch in the upper layer.",
     IN, "all precipitation and PET values, soil capacities, states of the soil", "tests compare division fixtures with stored intermediate arrays", [PA],
     [("bucket", "palmer._calc_recharge, palmer._calc_potential_loss, palmer._calc_water_balances, palmer._get_awc_bot")], ["fitting parameters and z-index of palmer.pdsi"])

prop("P17", "Palmer spells: PDSI follows the incipient/established spell rules",
     "X1, X2 and X3 of month i are 0.897 of those of month i-1 plus a third of the Z index, kept positive or negative; a spell becomes established at one in magnitude, ends when the probability of its end reaches 100 percent, and an undetermined month's PDSI is chosen by backtracking when a spell becomes established. "
     "PHDI is X3 where a spell is established and PDSI otherwise, PMDI the probability-weighted mixture. As in NCEI's program, the months of the record's latest undetermined run keep their preliminary values (PMDI then is that of the record's last month). "
     "No sequence of months raises an error, and months after the end of an incomplete final year play no part.",
     IN, "all sequences of Z values: starts, abatements, reversals, long undetermined spells, ends of data", "tests compare a few divisions' fixtures", [PA],
     [("spells", "palmer._calc_zindex, _statement_170 .. _statement_220"), ("backtracking", "palmer._assign"), ("end", "palmer._finish_up")], ["return value of palmer.pdsi"])

prop("P18", "Palmer Z index uses the calibration period's coefficients",
     "The Palmer Z index of a month is its calendar month's climatic characteristic K times the departure of precipitation from the climatically appropriate amount, whose coefficients are ratios of sums over the calibration years only. "
     "Running again with the returned fitting parameters gives the same indices; the number of values is that of the input.",
     IC, "all precipitation and PET values, calibration periods, capacities, given coefficients", "tests compare division fixtures", [PA],
     [("coefficients", "palmer._calc_alpha .. _calc_delta"), ("K", "palmer._calc_kfactors, _calc_zindex_factors"), ("Z", "palmer._calc_zindex")], ["return value of palmer.pdsi"])

prop("P19", "Splitting the work over processes never changes or skips a location",
     "However many worker processes are used, every location of the input is computed exactly once and the results are those of one process.",
     ["configurations", "schedules"], "all grid and division sizes, numbers of processes", "tests do not run the command line tools", [M, S],
     [("chunks", "__main__._parallel_process, __spi__._parallel_spi, __spi__._parallel_fitting"), ("shared arrays", "_apply_along_axis*, _apply_to_subarray_*")], ["shared result arrays"])

prop("P20", "The command line tools write each location's own index",
     "For every location of a grid, climate division or time series the SPI, SPEI, PNP and PET the command line tools write for each requested scale and distribution is that of the Python API for this location's series with the arguments given "
     "(calibration period, data start year, periodicity; daily years of 366 days converted there and back; PET computed from temperature where no PET is given), under the coordinates and times of the input; "
     "locations without data stay missing and do not affect others, nor does an earlier computation in the same process.",
     IC, "all values, missing patterns, layouts, scales", "tests do not run the command line tools", [M, S],
     [("per cell", "__main__._apply_along_axis, _apply_along_axis_double, __spi__._apply_to_subarray_spi"), ("writing", "__main__._compute_write_index, __spi__._compute_write_index")], ["files written"])

prop("P21", "Command line arguments that make no sense are rejected",
     "The command line tools reject what the requested index cannot use - missing files, variable names or scales, variables not in their file, other dimensions, a second file whose coordinates, divisions, times or kind are not those of the first, "
     "both or neither of PET and temperature, negative scales, daily PET, PET of a time series, parameters saved over an existing file or loaded from one without the scale - with ValueError and nothing written. "
     "Complete arguments, and coordinates equal within the tolerance, are accepted.",
     ["configurations"], "all combinations of one mistake with an index and a kind of input; all coordinates off by the spacing or more", "tests do not run the command line tools", [M, S],
     [("validation", "__main__._validate_args, __spi__._validate_args")], ["exceptions", "files written"])

prop("P22", "Inputs in other units are converted before computing",
     "Precipitation and PET in inches are converted to millimeters and temperature in Fahrenheit or Kelvin to Celsius, each once and whatever the other input's unit, before an index is computed; units that are not understood raise ValueError.",
     IC, "all values, documented unit names in any case", "tests do not run the command line tools", [M, S],
     [("conversion", "_drop_data_into_shared_arrays_grid, _drop_data_into_shared_arrays_divisions")], ["files written"])

prop("P23", "The L-moment fit of a sample is Hosking's Pearson Type III fit",
     "The location of the fitted Pearson Type III distribution is the sample mean, its scale and skew are Hosking's functions of the sample's second and third L-moments; order, ties and missing values of the sample do not matter, and the sample is left as it was. "
     "Samples with fewer than four values or without variation raise ValueError.",
     IN, "all samples (sizes, order, ties, missing values)", "tests use one fixture sample", [L],
     [("L-moments", "lmoments._estimate_lmoments"), ("parameters", "lmoments._estimate_pearson3_parameters")], ["return value of lmoments.fit"])

prop("P24", "Numeric helpers do what they say for every array",
     "The coordinate tolerance is positive and below every spacing of the coordinates, so no two of them are merged; sign change is true exactly where signs differ; RMSE is the root of the mean squared difference; an array is valid exactly if it has a value that is not missing; zeros and non-missing values are counted exactly per column.",
     IN, "all arrays within the bounds", "tests use a few fixed arrays", [U],
     [("helpers", "utils.get_tolerance, sign_change, rmse, is_data_valid, count_zeros_and_non_missings")], ["return values"])

prop("P25", "Fitting parameters supplied again reproduce the index exactly",
     "SPI or SPEI computed with the parameters that were fitted for the same accumulations and calibration period equals the one computed without supplying them, and with supplied parameters the data and calibration years have no influence. "
     "SPEI treats the deprecated plural names of the parameters like the current ones, in any mixture; Pearson parameters that are only partly given raise ValueError.",
     IC, "all series, scales, distributions, parameter names, years", "tests supply parameters for one fixture", [I, C],
     [("parameters", "indices._norm_fitdict, indices.spi, indices.spei"), ("checks", "compute.transform_fitted_pearson, compute.transform_fitted_gamma")], ["return values of two runs"])

prop("P26", "Saved fitting parameters, loaded again, reproduce the SPI",
     "The SPI tool saves for every scale and location the gamma and Pearson parameters fitted over the calibration period, under the grid's coordinates. A run that loads them writes the SPI the Python API gives with those parameters, "
     "for the same or other data and whatever its calibration years; on the same data that is the SPI of the run that saved them.",
     IC, "all values, missing patterns, scales, grids", "tests do not run the command line tools", [S],
     [("saving", "__spi__.build_dataset_fitting_grid, _parallel_fitting"), ("loading", "__spi__._compute_write_index, _apply_to_subarray_spi")], ["files written by two runs"])

NOTES = {
    "default": "Bounded: holds for every value of the symbolic inputs within the bounds stated in the evidence, over the current source of the listed functions. "
               "Reals stand for doubles (rounding is outside); numpy/scipy calls are modelled (tables of exact semantics, special functions as uninterpreted functions with stated axioms); "
               "every reported violation is first reproduced by running the real code on the counterexample.",
}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if os.path.exists(os.path.join(HERE, "props", i + ".py")):
            checks.append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i,
                               evidence_file="evidence/%s.json" % i,
                               technique="symbolic execution of the Python source with SMT (z3) deciding every branch and assertion",
                               level="other", level_note=NOTES.get(i, NOTES["default"])))
        else:
            na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
    json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
                   notes="See DESIGN.md. ./check replay FILE runs a counterexample against the real code. No hooks in /repo are needed."),
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
