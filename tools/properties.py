"""Source of properties.jsonl and MANIFEST.json; run it after editing."""
import importlib, json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, "sim")]
S = "src/sorcha/"
U = S + "utilities/"
C = "src/sorcha_cmdline/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), na=None, level_note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, observe=observe, state=state, na=na, level_note=level_note))


prop("P01", "A fixed seed reproduces a run exactly",
     "Two runs with the same inputs, configuration and random seed deliver identical output files and identical written ephemerides. Scheduling of other runs, clock readings and jumps, process id, OS entropy, "
     "hash randomisation, directory listing order, short or interrupted system calls and whether cached auxiliary files already existed make no difference.",
     ["inputs", "schedules", "configurations", "fault_sequences"], "every workload and configuration; every pair of environments a machine can present to two executions of it",
     "The tests run one module at a time, in one environment; a reproducibility leak needs a second execution in which exactly the leaking source of nondeterminism has another value.",
     [S + "sorcha.py", U + "sorchaModuleRNG.py", S + "ephemeris/simulation_driver.py", S + "ephemeris/pixel_dict.py", S + "modules/PPOutput.py"],
     [{"name": "one named random stream per module derived from the seed", "where": U + "sorchaModuleRNG.py"}, {"name": "candidate objects listed in a fixed order", "where": S + "ephemeris/pixel_dict.py"}],
     ["output files", "written ephemeris", "statistics file"])
prop("P02", "Unseeded runs draw fresh, recorded, non-repeating noise",
     "Without a random seed each run draws its noise from operating-system entropy, so two runs on the same inputs differ in their random values, and the log names the seed with which that run can be repeated exactly. "
     "Within a run no random module starts its stream again for a later chunk.",
     ["inputs", "configurations", "histories"], "every configuration with random modules on, every chunking, every pair of entropy draws",
     "Tests always fix the seed, and a stream that restarts per chunk gives plausible values chunk by chunk.",
     [U + "sorchaModuleRNG.py", S + "sorcha.py", S + "modules/PPFadingFunctionFilter.py", S + "modules/PPRandomizeMeasurements.py"],
     [{"name": "seed drawn from entropy when none is given, and logged", "where": U + "sorchaModuleRNG.py"}], ["output files", "log file"],
     state=[{"name": "module random streams", "meaning": "position of each module in its own stream, kept across chunks", "where": U + "sorchaModuleRNG.py"}])
prop("P03", "Chunk size does not change the result",
     "With the random modules switched off, processing the catalogue in chunks of any size delivers the same detections, statistics and ephemerides as processing it in one piece.",
     ["inputs", "configurations"], "every catalogue (identifiers, orderings, whole-number columns, objects without detections), every chunk size, every output and input format",
     "Tests use catalogues of a few objects that fit one chunk; loss or duplication at chunk borders, or type changes between chunks, needs many combinations of catalogue content and chunk size.",
     [S + "sorcha.py", S + "readers/CombinedDataReader.py", S + "readers/ObjectDataReader.py", S + "readers/EphemerisReader.py", S + "modules/PPOutput.py", S + "utilities/dataUtilitiesForTests.py"],
     [{"name": "chunk loop", "where": S + "sorcha.py"}, {"name": "block reader joins the auxiliary tables on object identifiers", "where": S + "readers/CombinedDataReader.py"},
      {"name": "append to outputs", "where": S + "modules/PPOutput.py"}], ["output files", "statistics file", "written ephemeris"])
prop("P04", "Sharding over concurrent runs and merging loses nothing",
     "With the random modules off, any partition of the catalogue over runs that execute concurrently against shared inputs, cache and result directory delivers, in union, exactly what one run over the whole catalogue delivers. "
     "Merging SQLite results of the shards yields that union.",
     ["inputs", "schedules", "configurations"], "every partition, every interleaving of the runs' file operations",
     "No test runs two processes at once, let alone under chosen interleavings.",
     [S + "sorcha.py", U + "createResultsSQLDatabase.py", S + "modules/PPOutput.py", U + "sorchaArguments.py"],
     [{"name": "per-run output names", "where": U + "sorchaArguments.py"}, {"name": "results merged table by table", "where": U + "createResultsSQLDatabase.py"}], ["output files", "merged database"])
prop("P05", "Exit status 0 means everything was delivered",
     "If any write, flush, close, open or other file operation on an output fails, is cut short, or the disk fills up, then either the run reports failure with a non-zero exit status or all outputs are complete and identical to those of an undisturbed run.",
     ["fault_sequences", "inputs", "configurations"], "every operation on every output of every format, every error that operation can return, every disk quota",
     "Tests never make a system call fail.",
     [S + "modules/PPOutput.py", S + "sorcha.py", S + "ephemeris/simulation_driver.py"],
     [{"name": "errors of the writers propagate to the exit status", "where": S + "modules/PPOutput.py"}, {"name": "HDF5 output is read back after writing", "where": S + "modules/PPOutput.py"}], ["exit status", "output files"])
prop("P06", "A killed run does not spoil the next one",
     "After a run is killed at any instant, repeating it without the overwrite flag either refuses, leaving every file as it was, or delivers a complete result; repeating it with the overwrite flag always delivers exactly the result of an undisturbed run.",
     ["crash_points", "inputs", "configurations"], "every operation boundary and every partial write, one or two crashes in a row, also of a run in another output format",
     "Tests never kill a run; the leftovers depend on the exact instant.",
     [S + "sorcha.py", U + "sorchaArguments.py", S + "modules/PPOutput.py", C + "run.py"],
     [{"name": "existing outputs detected before the run", "where": U + "sorchaArguments.py"}, {"name": "stale outputs removed when overwriting", "where": C + "run.py"}], ["output files", "exit status"])
prop("P07", "Unreadable input is never silently left out",
     "If reading any input (catalogues, ephemeris, pointing database, configuration, camera footprint, auxiliary data) fails, is interrupted or returns short counts at any point, the run either fails with a non-zero exit status or delivers the result of an undisturbed run.",
     ["fault_sequences", "inputs", "configurations"], "every read-side operation of a run and every error it can return",
     "Tests never make a read fail; swallowing one error in a reader turns into missing objects and a success status.",
     [S + "readers", S + "modules/PPReadPointingDatabase.py", S + "sorcha.py", S + "modules/PPFootprintFilter.py"],
     [{"name": "reader errors propagate", "where": S + "readers/ObjectDataReader.py"}], ["exit status", "output files"])
prop("P08", "Nothing existing is overwritten without the force flag",
     "Without the overwrite flag, a run never changes, truncates, appends to or removes any file that existed before it started, whatever the names, formats and leftovers in the output directory, and whatever operation fails on the way.",
     ["histories", "configurations", "fault_sequences"], "every set of pre-existing files and every option combination",
     "Tests check the guard for one output name in one format.",
     [U + "sorchaArguments.py", C + "run.py", S + "modules/PPOutput.py", S + "ephemeris/simulation_driver.py"],
     [{"name": "existing outputs are looked for before any work", "where": U + "sorchaArguments.py"}], ["files in the output directory"])
prop("P09", "The force flag replaces a run's own output and nothing else",
     "With the overwrite flag the run delivers exactly what it would deliver into an empty directory, no stale output of an earlier run of the same name survives in any format, and no file of any other run is changed or removed.",
     ["histories", "configurations"], "every set of pre-existing files, including names that extend, precede or resemble the run's own",
     "Tests overwrite one file of one format in an otherwise empty directory.",
     [U + "sorchaArguments.py", C + "run.py"], [{"name": "removal of stale outputs", "where": C + "run.py"}], ["files in the output directory"])
prop("P10", "Concurrent runs do not influence each other",
     "Runs with different output names that execute at the same time, sharing any of inputs, cache and output directory, each deliver exactly the files they deliver alone, even when one of them is killed, fails or has its disk writes fail.",
     ["schedules", "crash_points", "configurations"], "every interleaving of 2-4 runs, every crash of one of them",
     "No test runs two processes at once.",
     [S + "sorcha.py", U + "sorchaArguments.py", U + "sorchaGetLogger.py", S + "ephemeris/simulation_setup.py"],
     [{"name": "no shared mutable files apart from the cache", "where": S + "sorcha.py"}], ["output files", "exit status"])
prop("P11", "A run never modifies what it was given",
     "No run or subcommand ever changes, truncates, renames or removes an input file, whatever options are combined, wherever outputs are placed and whatever fails.",
     ["configurations", "fault_sequences", "crash_points"], "every option combination including outputs placed among the inputs under colliding names, every fault",
     "Tests keep inputs and outputs apart and never compare inputs before and after.",
     [C + "run.py", U + "sorchaArguments.py", U + "createResultsSQLDatabase.py"],
     [{"name": "outputs that would replace an input are refused", "where": U + "sorchaArguments.py"}], ["input files"])
prop("P12", "File formats carry the same content",
     "The choice among the supported formats for the catalogue, the ephemeris and the results never changes which rows are delivered nor, to printing precision, any value in them; identifiers survive as text.",
     ["inputs", "configurations"], "every combination of catalogue, ephemeris and output format over the same content",
     "Tests read and write each format once with one friendly table.",
     [S + "modules/PPOutput.py", S + "readers/CSVReader.py", S + "readers/HDF5Reader.py", S + "readers/EphemerisReader.py", S + "readers/DatabaseReader.py"],
     [{"name": "readers and writers per format", "where": S + "readers"}], ["output files"])
prop("P13", "The statistics table describes the delivered detections",
     "The statistics file has one row for every delivered object and filter and no other, in every chunking, and each row's counts, extremes and flags are exactly those of the delivered detections of that object and filter.",
     ["inputs", "configurations"], "every workload, chunking and filter setting", "Tests compute the statistics of one fixed table in isolation from the run that delivers the detections.",
     [S + "modules/PPStats.py", S + "sorcha.py"], [{"name": "statistics appended chunk by chunk", "where": S + "modules/PPStats.py"}], ["statistics file", "output files"])
prop("P14", "A written ephemeris reproduces the run that wrote it",
     "An ephemeris written by a run, given back as external ephemeris with the same catalogue, configuration and seed, reproduces that run's detections and statistics; this holds in every format and chunking.",
     ["inputs", "configurations"], "every workload with generated ephemerides, every ephemeris format, every pair of chunk sizes for the random-free case", "Tests never feed a written ephemeris back.",
     [S + "ephemeris/simulation_driver.py", S + "readers/EphemerisReader.py", S + "readers/HDF5Reader.py", S + "sorcha.py"], [{"name": "ephemeris writer and reader", "where": S + "ephemeris/simulation_driver.py"}], ["written ephemeris", "output files"])
prop("P15", "Log checking tells completed runs from the others",
     "Over any tree of runs that completed, failed, were killed at any instant or are still going, the log checker lists every run log and calls a run successful exactly if it completed; when it cannot read part of the tree or write its report it exits non-zero, and it never replaces an existing report unless told to.",
     ["crash_points", "fault_sequences", "histories", "schedules"], "every mixture of run endings, every instant of death, every failing operation of the checker", "Tests check two canned log files.",
     [U + "check_output_logs.py", C + "outputs.py", S + "sorcha.py"], [{"name": "completion line is the last thing a run logs", "where": S + "sorcha.py"}, {"name": "last-line classification", "where": U + "check_output_logs.py"}], ["checker output", "report file"])
prop("P16", "Merging results delivers every row or says it did not",
     "The results-merging command, when it exits with status 0, has produced a database whose tables hold exactly the union of the rows of the selected result databases, with every value under its own column, and exactly the rows of the input tables with identifiers as written. "
     "Repeating it, after success, crash or failure, gives the same tables, and it never modifies the databases and tables it reads.",
     ["fault_sequences", "crash_points", "histories", "configurations"], "every result tree, every placement of the output, every repetition, crash and failing operation", "Tests merge one database once.",
     [U + "createResultsSQLDatabase.py", C + "outputs.py"], [{"name": "tables dropped and rebuilt", "where": U + "createResultsSQLDatabase.py"}], ["merged database", "exit status"])
prop("P17", "Bootstrapping converges and reports honestly",
     "Whatever downloads fail, stall or are cut short, and wherever the process is killed, the bootstrap command either leaves a complete and correct cache and exits with status 0 or exits non-zero, and repeating it once the network works always yields a complete and correct cache. "
     "Files that are already complete are not downloaded again unless forced.",
     ["fault_sequences", "crash_points", "histories"], "every assignment of network faults to the downloads, every crash point, every prior cache state, every order of the download threads", "Tests have no network and skip the command altogether.",
     [C + "bootstrap.py", U + "retrieve_ephemeris_data_files.py", S + "ephemeris/simulation_data_files.py", U + "generate_meta_kernel.py"],
     [{"name": "checksummed downloads with retries", "where": S + "ephemeris/simulation_data_files.py"}, {"name": "parallel download of the file list", "where": C + "bootstrap.py"}], ["cache directory", "exit status"])
prop("P18", "The shared cache never serves a partial file",
     "Runs and bootstraps that share one cache directory, started at the same time on an empty, partial or interrupted cache, never use a partially written auxiliary file: each either fails cleanly or delivers exactly the result it delivers with a complete cache. "
     "Whatever is killed at whatever instant, the next run or bootstrap with a working network succeeds.",
     ["schedules", "crash_points", "fault_sequences"], "every interleaving of 2-3 processes over every initial cache content, every crash of one of them", "No test shares a cache between processes.",
     [S + "ephemeris/simulation_setup.py", U + "generate_meta_kernel.py", S + "ephemeris/simulation_data_files.py", U + "retrieve_ephemeris_data_files.py", C + "bootstrap.py"],
     [{"name": "files of the cache appear whole", "where": U + "fileAccessUtils.py"}], ["cache directory", "output files", "exit status"])
prop("P19", "The built-in ephemeris generator misses no object in the field",
     "For every pointing, every object whose position at that time lies within the configured field radius of the pointing centre appears in the generated ephemeris, at the position, range and time its trajectory gives; no object appears twice for one pointing.",
     ["inputs", "configurations"], "every set of trajectories within the supported rates, every sequence and order of pointings, every interpolation interval, pixel order and field radius", "Tests compare a handful of objects at chosen times with canned tables.",
     [S + "ephemeris/simulation_driver.py", S + "ephemeris/pixel_dict.py", S + "ephemeris/simulation_geometry.py", S + "ephemeris/simulation_parsing.py"],
     [{"name": "cached positions at regular times, interpolated pixels per night", "where": S + "ephemeris/pixel_dict.py"}, {"name": "candidates per pointing", "where": S + "ephemeris/simulation_driver.py"}], ["written ephemeris"],
     state=[{"name": "pixel cache", "meaning": "objects per sky pixel for an interval around the current time; replaced as pointings move on", "where": S + "ephemeris/pixel_dict.py"}])
prop("P20", "Delivered configuration and demo files are complete and usable",
     "Copying configuration or demo files never changes an existing file unless told to overwrite, reports success only if every announced file arrived complete whatever operation fails, and every delivered configuration file is accepted by the program it was delivered for.",
     ["fault_sequences", "crash_points", "configurations", "histories"], "every file choice, every pre-existing destination, every failing operation and crash", "Tests copy into an empty directory with nothing failing, and never run with the delivered DES configuration.",
     [C + "init.py", C + "demo.py", U + "sorcha_copy_configs.py", U + "sorcha_copy_demo_files.py", S + "data/survey_setups", S + "data/demo"],
     [{"name": "existence check before copying", "where": U + "sorcha_copy_configs.py"}], ["copied files", "exit status"])
prop("P21", "Random modules draw from independent streams",
     "For a fixed seed, switching a module that removes detections on or off never changes the values, or the selection by other modules, of the detections it lets through to later stages; switching measurement noise on or off does not change which detections random camera-gap and fading selection would draw.",
     ["configurations", "inputs"], "every workload, every pair of configurations that differ in one random module", "Tests exercise modules one by one with their own generators.",
     [U + "sorchaModuleRNG.py", S + "sorcha.py", S + "modules/PPFadingFunctionFilter.py", S + "modules/PPFootprintFilter.py", S + "modules/PPApplyFOVFilter.py"],
     [{"name": "per-module generator seeded by module name", "where": U + "sorchaModuleRNG.py"}], ["output files"])
prop("P22", "The order of input rows does not matter",
     "With the random modules off, reordering the rows of the physical-parameter table, of the catalogue, of an external ephemeris or of the pointing table never changes which detections are delivered nor any of their values, apart from the order in which objects are delivered.",
     ["inputs", "configurations"], "every permutation of every input table, every chunk size", "Tests use one sorted catalogue; a positional join gives right answers as long as the tables agree in order.",
     [S + "readers/CombinedDataReader.py", S + "readers/ObjectDataReader.py", S + "readers/EphemerisReader.py", S + "modules/PPReadPointingDatabase.py", S + "modules/PPMatchPointingToObservations.py"],
     [{"name": "joins on identifiers", "where": S + "readers/CombinedDataReader.py"}], ["output files"])
prop("P23", "A run uses exactly the auxiliary files its configuration names",
     "The generated ephemerides depend only on the content of the auxiliary files the configuration names: what earlier runs and bootstraps with other auxiliary files left in the shared cache never changes a result, and each named file is actually used. "
     "(As documented, changed kernel names need a meta-kernel name of their own.)",
     ["histories", "configurations"], "every sequence of runs and bootstraps with different auxiliary file names over one cache", "Tests use one set of auxiliary files in one cache.",
     [S + "ephemeris/simulation_setup.py", S + "ephemeris/simulation_data_files.py", S + "ephemeris/simulation_parsing.py", U + "generate_meta_kernel.py", U + "sorchaConfigs.py"],
     [{"name": "file names taken from the [AUXILIARY] section", "where": U + "sorchaConfigs.py"}, {"name": "meta-kernel lists the named kernels", "where": U + "generate_meta_kernel.py"}], ["written ephemeris", "output files", "cache directory"])

prop("P24", "Simulations in one session do not influence each other",
     "Simulations started one after the other through the Python interface in one interpreter each deliver what a fresh process delivers with the same inputs, configuration and seed: nothing carries over from earlier ones, also when one of them failed, when input files were "
     "exchanged under the same names or when a configuration object is used again. One that is asked to return tables returns the rows the written file would hold and leaves the output folder alone.",
     ["histories", "inputs", "configurations", "fault_sequences"], "every sequence of simulations, failures among them, and every mixture of writing and returning",
     "Tests run one simulation per configuration; carried-over state needs a second, different simulation in the same interpreter.",
     [S + "sorcha.py", S + "des.py", S + "modules/PPOutput.py", S + "modules/PPReadPointingDatabase.py", S + "readers/CombinedDataReader.py", U + "sorchaArguments.py", U + "sorchaConfigs.py"],
     [{"name": "return_only branch", "where": S + "sorcha.py"}, {"name": "readers and kernels set up per run", "where": S + "sorcha.py"}], ["returned tables", "output files", "output directory"])
prop("P25", "A run delivers exactly the detections its inputs and configuration imply",
     "With the random modules off, every object and visit in the ephemeris is delivered exactly once if it passes the configured filters (observing filters, camera footprint, limits, saturation, distance and motion cuts, linking) and not at all otherwise. "
     "Each value equals its documented formula: phase curve, colours, trailing losses, vignetting, uncertainties, detector and linking columns.",
     ["inputs", "configurations", "fault_sequences"], "every catalogue, visit table, survey, camera model, phase function, filter set, limit and linking criterion, every chunk size and environment",
     "Unit tests check each module on a few rows; that the modules in sequence, over all chunks, filters and joins, deliver every implied detection with the right values needs an independent model of the whole run.",
     [S + "sorcha.py", S + "des.py", S + "modules/PPCalculateApparentMagnitude.py", S + "modules/PPFootprintFilter.py", S + "modules/PPMiniDifi.py", S + "modules/PPAddUncertainties.py", S + "modules/PPTrailingLoss.py",
      S + "modules/PPVignetting.py", S + "modules/PPBrightLimit.py", S + "modules/PPVisitsFootprintFilter.py", S + "modules/DESDiscoveryFilter.py", S + "modules/PPReadPointingDatabase.py"],
     [{"name": "post-processing sequence of a chunk", "where": S + "sorcha.py"}, {"name": "point in detector polygon", "where": S + "modules/PPFootprintFilter.py"}, {"name": "tracklets and discovery windows", "where": S + "modules/PPMiniDifi.py"}],
     ["output files"])
prop("P26", "Randomised results follow the stated probability laws",
     "Reported magnitudes and positions scatter around the true ones as independent normal variables with the reported uncertainties, and detections and objects survive the camera fill factor, the fading function and the linking efficiency independently with the configured probabilities. "
     "This holds over rows, columns, visits, objects, chunks and seeds.",
     ["inputs", "configurations", "histories"], "every catalogue, chunk size, seed and efficiency setting, within the resolution of some thousand observations per case",
     "Tests compare a few drawn values with recorded ones; a wrong width, a repeated stream or a correlation only shows in many draws.",
     [S + "modules/PPRandomizeMeasurements.py", S + "modules/PPFadingFunctionFilter.py", S + "modules/PPDetectionProbability.py", S + "modules/PPDropObservations.py", S + "modules/PPApplyFOVFilter.py", S + "modules/PPDetectionEfficiency.py",
      S + "modules/DESDetectionProbability.py", S + "modules/PPMiniDifi.py", U + "sorchaModuleRNG.py"],
     [{"name": "noise drawn per row and column", "where": S + "modules/PPRandomizeMeasurements.py"}, {"name": "survival drawn per row", "where": S + "modules/PPDropObservations.py"}, {"name": "discovery drawn per opportunity", "where": S + "modules/PPMiniDifi.py"}],
     ["output files"])

prop("P27", "An orbit may be written in any supported form",
     "A catalogue describing the same trajectories as Keplerian or cometary elements or Cartesian states, heliocentric or barycentric, at any epochs, gives the same ephemerides and detections. "
     "This holds for bound, circular, parabolic and hyperbolic orbits, for angles and perihelion times shifted by whole turns and periods, and for every chunk size and with or without the culling of faint objects.",
     ["inputs", "configurations", "histories"], "every valid orbit and equivalent way of writing it, alone or among others",
     "Tests convert a few recorded orbits of one format; a mixture of epochs, an open orbit or a barycentric element set goes through other code.",
     [S + "ephemeris/orbit_conversion_utilities.py", S + "ephemeris/simulation_parsing.py", S + "ephemeris/simulation_setup.py", S + "modules/PPFaintObjectCullingFilter.py", S + "readers/OrbitAuxReader.py"],
     [{"name": "conversions", "where": S + "ephemeris/orbit_conversion_utilities.py"}, {"name": "state per orbit format", "where": S + "ephemeris/simulation_parsing.py"}, {"name": "perihelion estimate", "where": S + "modules/PPFaintObjectCullingFilter.py"}],
     ["output files", "ephemeris files"])

prop("P28", "A configuration means what it says, or is refused with its reason",
     "Configurations that the documentation makes equivalent (order, case, notation, spelled-out defaults, other spellings of the survey) deliver the same files. "
     "One with a missing, unknown, duplicated, ill-typed, out-of-range or contradictory setting or argument ends promptly and unsuccessfully with a message naming it, before any output is written and without changing an existing file.",
     ["configurations", "inputs", "fault_sequences"], "every valid configuration and every single defect of it, for all surveys, camera models and ephemeris sources, under any division of reads and writes",
     "Tests check single options against the validators; that every wrong setting stops the whole run in time, and that every right one means the same however it is written, needs whole runs of many configurations.",
     [U + "sorchaConfigs.py", U + "sorchaArguments.py", U + "sorchaCommandLineParser.py", "src/sorcha_cmdline/run.py", S + "modules/PPApplyFOVFilter.py", S + "modules/PPOutput.py"],
     [{"name": "checks of every section", "where": U + "sorchaConfigs.py"}, {"name": "arguments checked before the run", "where": "src/sorcha_cmdline/run.py"}], ["exit status", "messages", "output directory", "output files"])

prop("P29", "A table means what it says, or is refused, never half used",
     "Input tables written in equivalent ways (line ends, column order, padding, notation of numbers, quotes) deliver the same detections. "
     "One with a column, line, cell or orbital element that is missing, surplus, unreadable or impossible, cut off or in another notation, ends the run promptly and unsuccessfully, unless its results are those of the undamaged table.",
     ["inputs", "fault_sequences"], "every valid set of tables and every single damage to one of them, for all formats, chunk sizes and ephemeris sources, under any division of reads",
     "Tests read small intact tables and a few broken ones through single readers; whether damage in any place is noticed before it shows in the results depends on chunks, joins and filters of whole runs.",
     [S + "readers/CSVReader.py", S + "readers/ObjectDataReader.py", S + "readers/OrbitAuxReader.py", S + "readers/CombinedDataReader.py", S + "readers/EphemerisReader.py", S + "modules/PPReadPointingDatabase.py"],
     [{"name": "checks of tables and identifiers", "where": S + "readers/CombinedDataReader.py"}], ["exit status", "messages", "output files"])



def main():
    have = {f[:3].upper() for f in os.listdir(os.path.join(ROOT, "checks")) if f[0] == "p" and f[1:3].isdigit() and f.endswith(".py")}
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            assert p["statement"].count(". ") <= 2
            a = {"files": p["files"], "mechanism": p["mechanism"], "state": list(p["state"]), "observe_at": p["observe"], "hook_needed": None}
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    import importlib
    checks, na = [], []
    for p in P:
        if p["id"] in have:
            name = next(f[:-3] for f in os.listdir(os.path.join(ROOT, "checks")) if f.startswith(p["id"].lower()) and f.endswith(".py"))
            m = importlib.import_module("checks." + name)
            note = ("Seeded search over simulated executions of the real code: " + m.RULE + ". Holds on the explored executions only. Trusted: the system-call seam (sim/simio.c), the stubs ("
                    + "; ".join(m.STUB) + ")" + ("; assumes " + "; ".join(m.ASSUMPTIONS) if getattr(m, "ASSUMPTIONS", None) else "") + ".")
            checks.append({"property": p["id"], "quick_cmd": f"./check.py {p['id']} --tier quick", "thorough_cmd": f"./check.py {p['id']} --tier thorough", "evidence_file": f"evidence/{p['id']}.json",
                           "technique": "deterministic simulation with fault injection (seeded schedule, fault and workload search)", "level": getattr(m, "LEVEL", "exploration"), "level_note": note})
        else:
            na.append({"property": p["id"], "reason": p["na"] or "check not built yet"})
    man = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the seam is the C library boundary (LD_PRELOAD shim compiled by every check from sim/simio.c), plus stand-ins for the third-party packages assist, rebound, spiceypy and the HTTP transport."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
