#!/usr/bin/env python3
"""Writes properties.jsonl (one source of truth for the property texts)."""
import json, os

P = []

def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

M = "metcalcpy/"
DRV = [M+"agg_stat.py", M+"agg_stat_bootstrap.py", M+"agg_eclv.py", M+"sum_stat.py",
       M+"scorecard.py", M+"agg_stat_event_equalize.py", M+"agg_stat_eqz.py"]

# ---------------------------------------------------------------- bootstrap
prop("B01", "Parallel bootstrap result does not depend on worker scheduling",
 "For a fixed random state and worker count, a bootstrap run with several workers returns the same statistic value, "
 "the same confidence limits and the same sequence of resample statistics however the workers are scheduled, and at the top level a seeded "
 "aggregation job run with several workers writes the same output. Every worker's resamples are in the result exactly once, "
 "their number is at least the requested number of iterations and exceeds it by less than the number of workers, and no "
 "two workers draw the same resamples.",
 ["schedules", "configurations"],
 "every assignment of tasks to workers, every start and completion order and every number of workers, for the bootstrap over plain values, "
 "over MODE-style cases and over batches.",
 "The repository's tests use one worker or one accidental schedule of the operating system.",
 [M+"bootstrap.py", M+"agg_stat.py", M+"agg_stat_bootstrap.py", M+"agg_eclv.py"],
 [("per-worker seeds drawn before submission, results collected in submission order", M+"bootstrap.py"),
  ("number of iterations per worker", M+"bootstrap.py")],
 observe=["bootstrap_and_value(...)", "bootstrap_and_value_mode(...)", "AggStat output file"])

prop("B02", "Bootstrap limits are percentiles of genuine resamples of the data",
 "Whatever random numbers are drawn, every bootstrap resample consists of rows of the given data only, has as many rows as "
 "the data, is drawn with replacement, and with a block length above one is made of circular blocks of consecutive rows. "
 "The returned value is the statistic of the data itself and the percentile limits are the alpha/2 and 1-alpha/2 percentiles of the "
 "statistics of exactly those resamples, whatever the batch size, and so are the limits that an aggregation job writes.",
 ["schedules", "inputs", "configurations"],
 "every outcome of the random draws (including first, last, repeated and wrapping indices), every data size, block length, "
 "batch size, worker count and alpha.",
 "Tests see one random stream and check only that the limits bracket the value.",
 [M+"bootstrap.py", M+"agg_stat.py", M+"agg_eclv.py", M+"agg_stat_bootstrap.py"],
 [("index generation and circular blocks", M+"bootstrap.py"), ("percentile limits", M+"bootstrap.py")],
 observe=["arguments the statistic function is called with", "BootstrapResults", "the statistics kept on request",
          "limits in the output of aggregation jobs"])

prop("B03", "A failing bootstrap worker never yields a result built from part of the work",
 "If any bootstrap worker raises an error or is killed, or the worker pool cannot be created, the bootstrap call raises an error instead of "
 "returning a value with limits from the remaining workers, and the aggregation job on top of it writes no limits computed from part of the resamples. "
 "After the failure no worker processes stay behind, the caller's data is unmodified, and the same call made again without the failure gives its "
 "normal result.",
 ["fault_sequences", "schedules"],
 "every choice of failing worker, failing iteration, error type and schedule, and repeated failures followed by a good call.",
 "No test makes a worker fail.",
 [M+"bootstrap.py"],
 [("get() on each asynchronous result re-raises the worker's error", M+"bootstrap.py"),
  ("pool is shut down", M+"bootstrap.py")],
 observe=["exception or result of bootstrap_and_value", "live workers after the call"])

# ---------------------------------------------------------------- reproducibility, isolation
prop("R01", "A seeded job is exactly reproducible in any environment",
 "Running an aggregation job twice with the same input, parameters and a given random seed (zero included) produces byte-identical output "
 "files, whatever the state of the process random generators, hash seed, clock, time zone, environment or directory listing order. Jobs that do not bootstrap are "
 "reproducible without a seed.",
 ["histories", "schedules", "configurations"],
 "all initial states of the ambient random generators, hash seeds, clock readings and time zones, for all aggregation drivers, "
 "line types and resampling settings.",
 "Tests run a job once per process; reproducibility is a statement about pairs of executions.",
 DRV, [("np.random.seed from the random_seed parameter", M+"agg_stat.py")],
 observe=["output files"])

prop("H01", "A job's result does not depend on jobs run earlier in the process",
 "A sequence of jobs run in one process (aggregation, summary, scorecard, equalization, parsing, in any order, including jobs that failed) produces for each job "
 "the same output and the same success or error as that job run alone in a new process. A job that is run again after its input file "
 "changed uses the new content.",
 ["histories", "fault_sequences"],
 "all sequences of jobs of all kinds, with failing jobs in between, input files rewritten between jobs, and unrelated random draws between jobs.",
 "Each test exercises a single job; leaks through module globals, warning filters, option registries or caches show only in some later job.",
 DRV + [M+"util/utils.py", M+"event_equalize.py", M+"util/read_env_vars_in_config.py"],
 [("state kept on instances, not modules", M+"agg_stat.py"), ("warning filters restored", M+"util/utils.py")],
 state=[("warning filters", "process-wide; set to error by several functions", M+"util/utils.py")],
 observe=["output files", "raised errors"])

prop("G01", "A job leaves the process it runs in as it found it",
 "Whether a job succeeds or fails, afterwards the settings of the process are what they were before: working directory, environment, "
 "warning filters, floating-point, print and table options, logging level, file mode mask, locale, time zone, signal handlers, module path, standard streams and "
 "YAML constructors. No open file, thread or child process of the job remains.",
 ["histories", "fault_sequences", "configurations"],
 "all sequences of good and failing jobs of every kind in processes with settings of their own.",
 "Tests look at outputs only and share one process whose state nobody compares.",
 DRV, [("warning filters and table options changed during equalization and aggregation", M+"util/utils.py")],
 observe=["settings of the process before and after", "open files", "threads", "child processes"])

prop("H02", "Jobs leave the caller's parameters and input data unchanged",
 "Running a job, whether it succeeds or fails, leaves the parameter dictionary it was given equal to what it was before, so that the same dictionary can be "
 "used for the next job with the same result. Functions that take data tables or arrays leave the caller's values unchanged.",
 ["histories", "inputs", "fault_sequences"],
 "all job kinds and parameter combinations, sequences of jobs sharing a dictionary, jobs that fail at any file operation, and sequences of calls of the "
 "statistics, equalization, resampling and field functions on shared tables and arrays.",
 "Tests build a dictionary, use it once and never look at it again.",
 DRV + [M+"util/utils.py", M+"event_equalize.py", M+"bootstrap.py"],
 [("copies of nested parameter values", M+"agg_stat.py")],
 observe=["parameter dictionary after the job", "output of the second job with the same dictionary"])

# ---------------------------------------------------------------- faults
prop("F01", "A job that reports success has written its complete, correct output",
 "When a job returns normally its output file is complete and correct for its input; when reading the input or writing the output fails at any point, the "
 "job raises an error, and as a stand-alone script ends with a non-zero exit status. No I/O failure is turned into a success "
 "with missing, truncated or stale rows.",
 ["fault_sequences", "crash_points", "configurations"],
 "every file operation of a job failing with no-space, I/O error, permission denied, short read or short write, or close-time error.",
 "No test makes a file operation fail.",
 DRV, [("errors propagate out of read_csv and to_csv", M+"agg_stat.py")],
 observe=["exception or return", "exit status of the stand-alone script", "output file"])

prop("F02", "Jobs touch no file but their own output, and recover by a plain rerun",
 "No job, however it ends, changes, truncates or deletes its input files or any file other than its configured output and documented companion output. "
 "After a crash or failure at any point, running the same job again without the fault succeeds "
 "and produces exactly the output of an undisturbed run.",
 ["crash_points", "fault_sequences", "histories"],
 "a crash or I/O failure at every file operation with any prefix of unsynced data lost, repeated crashes, then an undisturbed run.",
 "No test crashes a job or compares the surroundings of the output before and after.",
 DRV, [("output opened for writing from scratch on every run", M+"agg_stat.py"),
       ("companion file name derived from the input name", M+"agg_stat_bootstrap.py")],
 observe=["every file in the working directory tree"])

prop("F03", "Appending to an existing output keeps earlier rows and adds exactly the new ones",
 "With append mode on, a job leaves the bytes already in the output file untouched and adds exactly the data rows, without a header, that the "
 "same job writes in overwrite mode; with append mode off it replaces the file. A sequence of appending jobs therefore yields the "
 "concatenation of their rows in job order, and a failing append never damages what was there.",
 ["histories", "fault_sequences"],
 "all sequences of overwriting and appending jobs on shared output files, with I/O failures injected.",
 "No test appends twice or fails in the middle.",
 [M+"agg_stat.py", M+"agg_eclv.py", M+"scorecard.py", M+"agg_stat_bootstrap.py"],
 [("append_to_file selects mode and header", M+"agg_stat.py")],
 observe=["output file"])

prop("L01", "A valid job always completes",
 "A job whose parameters are valid and whose input holds the records they ask for succeeds and writes its correct output, whatever harmless things "
 "happen: transfers cut short, small buffers, an earlier output or other files left behind, clock steps, any time zone, listing order "
 "and worker schedule. It does so within a bounded number of file operations.",
 ["fault_sequences", "schedules", "configurations"],
 "valid jobs of every kind, line type and statistic under every combination of harmless disturbances.",
 "Tests run a few fixed jobs in a fresh directory on an idle machine.",
 DRV, [("statistic functions called by name", M+"agg_stat.py")],
 observe=["exception or return", "exit status of the stand-alone script", "output file", "number of file operations"])

prop("C01", "Jobs running at the same time on different outputs do not disturb each other",
 "When several jobs with different output files run at the same time in separate processes over the same input directory, "
 "each produces exactly the output it produces when run alone, under every interleaving of their file operations and whatever happens to the other jobs.",
 ["schedules", "crash_points"],
 "all interleavings of the file operations of two or three jobs sharing inputs, with a crash or I/O failure of some of the jobs.",
 "Tests run one job at a time.",
 DRV, [("no shared scratch or lock files; input opened read-only", M+"agg_stat.py")],
 observe=["output file of each job"])

# ---------------------------------------------------------------- data delivery order
prop("O01", "Results do not depend on the order in which data rows are delivered",
 "Reordering the rows of an input file changes neither the set of output rows nor any statistic value, count or derived value in them, "
 "beyond floating-point rounding. When compared series have the same cases (valid time and lead), their rows are matched by case, "
 "not by position.",
 ["schedules", "inputs"],
 "all delivery orders of the rows, for aggregation, summary, scorecard and event-equalization jobs.",
 "Test data files come in one order, that of the database query that produced them.",
 [M+"agg_stat.py", M+"util/utils.py", M+"sum_stat.py", M+"scorecard.py", M+"event_equalize.py"],
 [("data sorted by case before pairing", M+"util/utils.py")],
 observe=["output file rows"])

prop("E01", "Event equalization keeps exactly the cases common to all series",
 "After event equalization every series value has, for each variable and statistic of an axis, exactly the same set of cases (valid time and lead, plus the "
 "independent value when it is included), which is the set that all of them have in the input; with two axes a case is kept only when the series of both axes have it. "
 "No row of a retained case is lost, duplicated or altered, and equalizing again changes nothing. Equalizing in a "
 "separate job before the aggregation gives the same aggregation as equalizing inside it.",
 ["histories", "inputs", "schedules"],
 "all sequences of equalization stages, row deliveries with gaps (lost and duplicated records), any number of series, fixed variables, "
 "axes and statistics.",
 "Tests check row counts on a few complete files.",
 [M+"event_equalize.py", M+"event_equalize_against_values.py", M+"agg_stat_event_equalize.py",
  M+"agg_stat_eqz.py", M+"util/utils.py", M+"agg_stat.py"],
 [("intersection of cases over all series permutations", M+"event_equalize.py")],
 observe=["equalized table", "output files"])

# ---------------------------------------------------------------- validation tool
prop("V01", "The validation window follows one reading of the clock",
 "The testing period without explicit dates runs from yesterday to today of one single moment, whatever the clock does while it is "
 "computed; explicit dates are used unchanged, an inverted period is rejected, and the selected files are exactly the "
 "XML files whose modification date in local time lies within the period, in name order for any listing order.",
 ["schedules", "configurations"],
 "all clock readings and clock steps (midnight crossings, steps back and forth, daylight-saving changes), time zones, "
 "modification times and directory listing orders.",
 "Tests compute the expectation from the same real clock and would need to run at midnight.",
 [M+"validate_mv_python.py"],
 [("period computed from now()", M+"validate_mv_python.py"), ("list is sorted", M+"validate_mv_python.py")],
 observe=["returned period", "returned file list"])

prop("V02", "Every selected XML gets exactly one truthful verdict",
 "A validation run reports exactly one verdict for each selected XML whatever happens to the plotting runs of the others: success only when both images are "
 "missing or the images are identical, and error otherwise (missing, unreadable, different size or different content). The artifacts of plots "
 "judged in error are kept.",
 ["fault_sequences", "schedules"],
 "all sequences of outcomes of the external plotting runs and of image reads (missing image, truncated file, wrong size, changed pixels, non-zero exit status, launch noise) "
 "in any listing order.",
 "No test runs the tool's main loop.",
 [M+"validate_mv_python.py", M+"compare_images.py"],
 [("errors of the image comparison are caught per plot", M+"validate_mv_python.py")],
 observe=["printed verdicts", "files left in the output directories"])

prop("V03", "Validation deletes only artifacts of plots that passed",
 "Within a run the validation tool deletes files only from its output directories, and after the initial cleaning only the artifacts of plots that were judged a success; "
 "no original plot, no input XML, no artifact of a plot judged in error and no artifact of another plot whose name merely starts with the same characters is removed.",
 ["fault_sequences", "histories", "schedules"],
 "all sets of plot names (including names that are prefixes of each other), outcomes and processing orders.",
 "No test runs the tool's main loop or looks at which files are removed.",
 [M+"validate_mv_python.py"],
 [("removal by name of the plot", M+"validate_mv_python.py")],
 observe=["file removals"])

prop("I01", "Image comparison outputs are repeatable and write failures are reported",
 "The difference, threshold and marked images can be saved in any order and any number of times, each save writing the same pixels as the first save on a new "
 "comparison, and leaving the similarity index and the source images unchanged. When an image cannot be written the save "
 "call raises an error.",
 ["histories", "fault_sequences"],
 "all sequences of save calls with write failures in between.",
 "Tests never save an image.",
 [M+"compare_images.py"],
 [("images computed once on demand", M+"compare_images.py")],
 observe=["saved files", "raised errors"])

# ---------------------------------------------------------------- configuration, netcdf
prop("K01", "Configuration parsing reflects the current environment only",
 "Parsing a configuration resolves each marked variable reference to the value it has at the time of the call (or to the bare name when unset), for any tag and whether the text comes "
 "from a file or a string, independent of earlier calls, and leaves ordinary YAML loading elsewhere in the "
 "process unchanged. A failed read or malformed text raises an error.",
 ["histories", "fault_sequences", "configurations"],
 "all sequences of environment changes, parse calls with different tags and contents, failing reads, and ordinary YAML loads in between.",
 "Tests parse one file with one environment.",
 [M+"util/read_env_vars_in_config.py"],
 [("resolver and constructor registered per call", M+"util/read_env_vars_in_config.py")],
 observe=["returned configuration", "yaml.safe_load elsewhere"])

prop("N01", "Written NetCDF datasets do not depend on the time zone of the process",
 "Writing a dataset to NetCDF and reading it back gives the same dimensions, coordinates, fields, attributes and forecast "
 "reference time in every process time zone and daylight-saving regime, and the written file is the same in all of them. A write failure is "
 "reported to the caller.",
 ["configurations", "fault_sequences"],
 "all time zones, dates around daylight-saving changes, dataset shapes and failures of single writes.",
 "Tests run in one time zone and do not write.",
 [M+"vertical_interp.py"],
 [("time converted to seconds since 1970", M+"vertical_interp.py")],
 observe=["file read back", "raised errors"])

prop("W01", "Matched-pair, regime and spectra files are complete or an error is raised",
 "Writing matched pairs, weather regime classifications or space-time spectra leaves exactly one complete file per output with the "
 "values, positions and times of the call, whatever an earlier call left there, and changes no other file. If a file operation fails the caller gets an error, and "
 "repeating the call gives the complete files. Reading a series of NetCDF files gives each slot the values and times of its own file, "
 "and missing values where a file or a point is missing.",
 ["fault_sequences", "crash_points", "configurations"],
 "all failures and crashes of single file operations, earlier files, missing inputs, dates, shapes and time zones.",
 "Tests do not write these files.",
 [M+"contributed/blocking_weather_regime/Blocking_WeatherRegime_util.py",
  M+"contributed/blocking_weather_regime/WeatherRegime.py",
  M+"contributed/spacetime/spacetime_utils.py", M+"contributed/tropical_diagnostics/utils.py"],
 [("one file per valid time", M+"contributed/blocking_weather_regime/Blocking_WeatherRegime_util.py")],
 observe=["files in the directory and their contents", "raised errors", "returned arrays"])

prop("D01", "The interpolation and cyclone programs write complete output or fail",
 "Run as a program, vertical interpolation and the cyclone wind conversion write one complete NetCDF file with the interpolated or converted fields, levels, times and "
 "attributes, whatever the data directory is called and however it is given, and whatever log options, time zone and earlier output there are. If a file "
 "operation fails the program ends with a non-zero exit status unless the output is complete, and running it again gives the complete output. No file other than the output, "
 "the log file asked for and the debug files of debug mode is written.",
 ["fault_sequences", "crash_points", "configurations"],
 "all failures and crashes of single file operations, earlier outputs, directories, options, shapes, reference times and time zones.",
 "Tests do not run these programs.",
 [M+"vertical_interp.py", M+"process_tcrmw.py"],
 [("reference time taken from the file name", M+"vertical_interp.py")],
 observe=["files in the directories and their contents", "exit status"])

# ---------------------------------------------------------------- not applicable
prop("Z01", "Statistic formulas agree with their published definitions",
 "Each statistic (contingency-table, partial-sum, ensemble, neighborhood, gradient, vector, probability, RPS, MODE ratio) equals its published "
 "definition on its inputs and is missing where the definition divides by zero.",
 ["inputs"], "all numeric inputs.", "Tests cover some hand-computed values.",
 [M+"util/ctc_statistics.py", M+"util/sl1l2_statistics.py", M+"util/mode_ratio_statistics.py"],
 [("one function per statistic", M+"util/")])
prop("Z02", "Vertical interpolation is exact on linear fields and monotone in height",
 "Interpolating a field that is linear in the vertical coordinate returns the exact linear values inside the column, and computed layer heights increase as "
 "pressure decreases.", ["inputs"], "all fields and level lists.", "Tests use one data set.",
 [M+"vertical_interp.py"], [("interpolation weights", M+"vertical_interp.py")])
prop("Z03", "Wave and zonal decompositions conserve what they decompose",
 "Spectra, zonal and meridional means and wave decompositions conserve total energy or mass and invert where an inverse exists.",
 ["inputs"], "all fields.", "Tests use fixed samples.",
 [M+"pre_processing/directional_means.py", M+"contributed/"], [("transforms", M+"contributed/")])
prop("Z04", "Difficulty index stays in range and is monotone in its ingredients",
 "The difficulty index and its piecewise-linear weights stay within their documented ranges and follow the breakpoints exactly.",
 ["inputs"], "all inputs.", "Tests check sample points.",
 [M+"calc_difficulty_index.py", M+"piecewise_linear.py"], [("piecewise linear weights", M+"piecewise_linear.py")])
prop("Z05", "Significance tests and rank correlations agree with their reference definitions",
 "Paired equivalence tests, Student probabilities, correlations and Wald-Wolfowitz tests agree with their reference definitions.",
 ["inputs"], "all samples.", "Tests compare a few samples with R.",
 [M+"util/tost_paired.py", M+"util/correlation.py", M+"util/wald_wolfowitz_runs_test.py"], [("formulas", M+"util/")])
prop("Z06", "Longitude and unit conversions are consistent inverses",
 "Longitude convention changes and unit conversions are inverse to each other and keep values paired with their coordinates.",
 ["inputs"], "all inputs.", "Tests use one array.",
 [M+"util/utils.py", M+"process_tcrmw.py"], [("conversion helpers", M+"util/utils.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
