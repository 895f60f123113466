# id, title, statement, over, quantifier text, why tests can't, files, mechanisms [(name, where)]
D = []


def P(i, title, statement, over, qtext, why, files, mech):
    D.append(dict(id=i, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech))


B = "beep/structure/base.py"

P("C01", "Interpolated cycle data lie on the measured curves",
  "For every regular cycle of a run, structuring yields, for each charging and each discharging step, exactly the requested number of "
  "points, whose abscissa is the evenly spaced grid of the requested (or documented default) range and whose other columns are the "
  "linear interpolation of that step's own samples at that abscissa, with no value where the step was not measured. "
  "Excluded and diagnostic cycles contribute nothing, and every row names the cycle, step type and direction it came from.",
  ["inputs", "configurations"],
  "all runs (any number of cycles and steps, irregular sampling, missing values), all interpolation axes, ranges and resolutions",
  "tests compare a few rows of one or two recorded files (most of which are not even in the repository) at one resolution; a wrong "
  "range, a mixed-up step or an off-by-one grid elsewhere is not sampled",
  [B], [("interpolate_step / interpolate_cycles", B), ("interpolate_df", "beep/utils/__init__.py")])

P("C02", "Each step is structured once, in the direction its charge moved",
  "Every step of every regular cycle is treated as charging when its charge throughput rose, as discharging when its discharge throughput "
  "rose, and by the run's stated default when neither moved; it is never structured in both directions, nor dropped. "
  "A smaller simultaneous rise, or a single spurious jump, of the opposite counter does not change the verdict.",
  ["inputs", "configurations"],
  "all step shapes with at least two samples, either default for indeterminate steps, any neighbouring steps",
  "the tests see the steps of a handful of recorded files; short steps, rests and disturbed counters are not sampled",
  [B], [("step_is_chg_state", B), ("iterate_steps_in_cycle", B)])

P("C03", "The cycle summary equals the aggregates of each cycle's samples",
  "Each row of the cycle summary describes exactly one regular cycle in ascending order, and each of its columns (final capacities and "
  "energies, efficiency, throughputs accumulated from the start of the run, temperatures, resistance, times, pauses, fast-charge "
  "duration, constant-voltage time and current) is the stated aggregate of that cycle's own samples. "
  "Diagnostic cycles and cycles the run did not finish are left out, and summary values of one cycle never come from another.",
  ["inputs", "configurations"],
  "all runs, with gaps, missing sensor values, pauses, missing cycles, any nominal capacity and any fast-charge threshold",
  "tests compare a few cells of the summary of a few files; alignment errors that appear only with gaps, pauses or diagnostic cycles are not sampled",
  [B], [("summarize_cycles", B), ("get_max_paused_over_threshold", B), ("get_CV_segment_from_charge", B)])

P("C04", "Diagnostic cycles are separated, interpolated per step and summarised",
  "With a diagnostic configuration set, every configured cycle present in the run appears in the diagnostic tables and no other cycle "
  "does; each contiguous stretch of a step is interpolated separately, numbered in order, against voltage when its voltage varies and "
  "against time when it is flat, on the measured curve. "
  "The diagnostic summary holds the per-cycle aggregates and type of exactly those cycles.",
  ["inputs", "configurations"],
  "all runs mixing regular and diagnostic cycles, recurring step indices (pulse trains), all resolutions and type maps",
  "tests use two or three recorded diagnostic runs and check row counts and a few values",
  [B, "beep/structure/diagnostic.py"],
  [("interpolate_diagnostic_cycles", B), ("summarize_diagnostic", B)])

P("C05", "A cycle has at most one diagnostic type, found by the stated rules",
  "A diagnostic configuration refuses a map that gives one cycle two types, reports for every cycle the one type it was given, and "
  "survives conversion to dictionary, text and file. "
  "Matching a run's cycles against a pattern of steps selects exactly the cycles that contain (or consist of) those steps.",
  ["inputs", "configurations"],
  "all type-to-cycles maps, disjoint and overlapping; all step tables and all contains/exact patterns",
  "tests build two configurations and match one file",
  ["beep/structure/diagnostic.py"], [("DiagnosticConfig", "beep/structure/diagnostic.py")])

P("C06", "A structured run survives saving and loading",
  "Saving a run to disk (plain or compressed, with or without raw data) and loading it back, by class or automatically, yields the same "
  "tables, values and types of values, metadata, diagnostic configuration, structuring parameters, structured state and derived answers "
  "(cycle life, capacities reached), however often it is repeated.",
  ["inputs", "configurations", "histories"],
  "all structured and unstructured runs, with and without diagnostic cycles, missing values and raw data",
  "tests round-trip one or two structured files and compare a few columns",
  [B, "beep/structure/cli.py"], [("as_dict / from_dict / to_json_file / from_json_file", B), ("auto_load_processed", "beep/structure/cli.py")])

P("C07", "Structuring never alters raw data and depends only on data and settings",
  "However structuring, summarising, interpolating, unstructuring, validating, saving and querying are interleaved, on one or several runs, "
  "the raw data and metadata stay as loaded, and each result equals what a freshly loaded run gives with the same settings. "
  "Operations on one run never change another run.",
  ["histories"],
  "all sequences of operations with any parameters over several runs",
  "tests call each operation once on a fresh object",
  [B], [("structure / unstructure", B), ("StructuringDecorators", B)])

P("C08", "Validation accepts a run exactly when every schema rule holds",
  "Validating a table against a schema succeeds if and only if each named column satisfies its type rule, its inclusive limits, its "
  "must-reach limits and its monotonicity rule, wherever in the table the offending value lies, and on failure the reason names an offending column. "
  "Validation never changes the table.",
  ["inputs", "configurations"],
  "all tables and schemas, including values exactly on, just inside and just outside each limit",
  "tests validate a few recorded files against one schema each",
  ["beep/structure/validate.py"], [("SimpleValidator.validate", "beep/structure/validate.py")])

P("C09", "Maccor files load with every sample, true UTC times and per-cycle totals",
  "Loading a Maccor export keeps every sample with its voltage, current, time, resistance, step and cycle; the time "
  "stamp is the same instant in UTC, daylight saving included; and the charge and discharge capacities and energies at each sample are what the "
  "cycle has accumulated so far, including waveform steps. "
  "Counters restart at each cycle, even if the file is cut off in mid-step; barcode, channel, protocol and schema come from the file's own header and name.",
  ["inputs"],
  "all Maccor exports: any sequence of step states and end codes over any cycles, any start instant, complete or truncated",
  "tests load two recorded files and compare a few totals",
  ["beep/structure/maccor.py"], [("MaccorDatapath.from_file / quantity_sum", "beep/structure/maccor.py"), ("correct_timestamp", "beep/structure/maccor.py")])

P("C10", "Arbin, Neware, Indigo and Battery Archive files load without distortion",
  "Loading such a file, directly or by automatic choice from its name, picks the right loader and keeps every sample: cycle, step, time, "
  "voltage, current, temperature and resistance, with capacities in Ah, energies in Wh, times in seconds and time stamps as the same "
  "instant in UTC; metadata comes from the accompanying file when there is one. "
  "Each loaded run can be structured, and unknown file names are refused.",
  ["inputs", "configurations"],
  "all files of the four formats: any samples, column orders, missing values, names and metadata",
  "the recorded files for these formats are largely absent from the repository; only one Arbin and one Indigo test run",
  ["beep/structure/arbin.py", "beep/structure/neware.py", "beep/structure/indigo.py", "beep/structure/battery_archive.py", "beep/structure/cli.py"],
  [("from_file of each class", "beep/structure/*.py"), ("auto_load", "beep/structure/cli.py")])

P("C11", "Novonix and BioLogic files load without distortion",
  "Loading a Novonix or BioLogic export keeps every sample in Volt, Ampere, Ah, Wh and seconds whatever its column order; Novonix "
  "charge is credited to charging samples, discharge to discharging samples, and rests move neither; BioLogic cycle numbers come from the file "
  "or from simulating the given cycle-transition rules over it, and its local times become the same instant in UTC. "
  "Metadata fields hold their own header line's value, and unknown Novonix step types are refused.",
  ["inputs", "configurations"],
  "all exports of both formats: step sequences, discharge-only cycles, both dialects, all transition-rule files",
  "one Novonix formation file without discharge and one BioLogic file are loaded and their shape checked",
  ["beep/structure/novonix.py", "beep/structure/biologic.py"],
  [("NovonixDatapath.from_file", "beep/structure/novonix.py"), ("BiologicDatapath.from_file / get_cycle_index", "beep/structure/biologic.py")])

P("C12", "Impedance spectra load exactly and survive serialisation",
  "Loading a Maccor impedance file keeps every frequency point and its settings and start time; loading the spectra of a run finds all the "
  "files that belong to it and no others. "
  "A spectrum converted to a dictionary or text and rebuilt is the same spectrum.",
  ["inputs"],
  "all spectra, any number of spectrum files beside a run, files of other runs in the same folder",
  "the tests serialise a made-up three-row table and load one file",
  ["beep/structure/base_eis.py", "beep/structure/maccor.py"],
  [("MaccorEIS.from_file / load_eis", "beep/structure/maccor.py"), ("EIS.as_dict / from_dict", "beep/structure/base_eis.py")])

P("C13", "Cycle life and capacity-cycle conversions follow the summary",
  "For every structured run that ends at or below the stated fraction of its reference capacity (the median of its first cycles), the "
  "reported cycle life is the first cycle whose discharge capacity is at or below it; otherwise it is one more than the number of cycles. "
  "The cycle at which each capacity fraction is reached, and the capacity at each requested cycle (0 beyond the run), agree with the "
  "per-cycle summary for every range and interval, and none of these queries changes the run.",
  ["inputs", "configurations"],
  "all capacity histories (fade, dips, recoveries, values exactly on a threshold), cycle numbering, thresholds, ranges and intervals",
  "the tests query recorded runs at the default thresholds",
  [B], [("get_cycle_life / cycles_to_reach_set_capacities / capacities_at_set_cycles", B)])

P("C14", "Regular-cycle features are what their definitions say",
  "For every structured run and every hyperparameter setting, the cycle-comparison statistics, the early-life fast-charge features and "
  "the capacity-fade trajectory equal their published definitions evaluated on the run's own tables, each value under its own label, "
  "each taken from the requested cycles, direction and quantity only. "
  "Missing data give missing features, never made-up numbers, and a run too short for the requested cycles is refused.",
  ["inputs", "configurations"],
  "all structured runs, all choices and orders of statistics, quantities, comparison cycles and capacity ranges",
  "tests compare a few numbers of one recorded run at the default hyperparameters",
  ["beep/features/core.py", "beep/features/featurizer_helpers.py"],
  [("CycleSummaryStats, DeltaQFastCharge, TrajectoryFastCharge", "beep/features/core.py")])

P("C15", "Diagnostic-cycle features are what their definitions say",
  "For every run with diagnostics, fractional capacities and energies with their throughputs, the cycle or throughput at which a "
  "threshold is crossed (interpolated linearly between diagnostics, or extrapolated when asked), the statistics of differences "
  "between two diagnostics, the exclusion verdicts and the raw interpolated vectors equal their definitions evaluated on the run's "
  "tables for the requested cycle type, positions and quantities. "
  "A threshold that is not reached is refused unless extrapolation was requested.",
  ["inputs", "configurations"],
  "all diagnostic layouts, parameter tables, cycle types, metrics, thresholds, statistics and positions",
  "tests compare a few numbers of two recorded runs for one setting of each featurizer",
  ["beep/features/core.py", "beep/features/featurizer_helpers.py"],
  [("DiagnosticSummaryStats, DiagnosticProperties, ExclusionCriteria, RawInterpolatedData", "beep/features/core.py"),
   ("get_fractional_quantity_remaining_nx", "beep/features/featurizer_helpers.py")])

P("C16", "HPPC features follow from the individual pulses",
  "For every run with pulse diagnostics, each pulse resistance is the voltage change over the current change between the preceding rest "
  "and the pulse at the stated delay, per state-of-charge window and diagnostic; open-circuit, voltage-difference and diffusion features "
  "are computed from the steps of the very diagnostic they are named after. "
  "A run lacking the requested diagnostic is refused.",
  ["inputs", "configurations"],
  "all pulse trains: numbers of windows, currents, step numbering, positions, windows",
  "tests compare a few statistics of one recorded run",
  ["beep/features/featurizer_helpers.py", "beep/features/core.py"],
  [("HPPCResistanceVoltageFeatures", "beep/features/core.py"), ("get_hppc_r, get_hppc_ocv, get_v_diff, get_diffusion_coeff", "beep/features/featurizer_helpers.py")])

P("C17", "Featurizing is isolated, repeatable and survives saving",
  "Whatever sequence of featurizers is applied to one run, the run's tables, the hyperparameters passed in and the class defaults stay "
  "as they were, and each result equals the one obtained on a freshly loaded run. "
  "Features saved to a file or dictionary and loaded again are the same features with the same hyperparameters, source and metadata; "
  "incomplete hyperparameters and runs that are not structured are refused.",
  ["histories", "configurations"],
  "all sequences of featurizers with any hyperparameters, with saving and loading in between",
  "each test featurizes a fresh run once",
  ["beep/features/base.py", "beep/features/core.py"],
  [("BEEPFeaturizer", "beep/features/base.py"), ("core featurizers", "beep/features/core.py")])

P("C18", "Feature matrices put each value in the row of its file and its own column",
  "For every collection of featurized runs, the joined matrix holds each value exactly once, in the row of its source file and the column "
  "named after feature, featurizer and the featurizer's hyperparameters, and everything else is missing; the order of joining does not matter. "
  "Two settings of one featurizer get different columns and equal settings the same column, the operations joined are not altered, "
  "invalid or duplicate inputs are refused, and saving and loading gives back the same matrix and operations.",
  ["inputs", "configurations", "histories"],
  "all numbers, orders, files, hyperparameters and values of featurizers joined",
  "tests join a handful of featurizers and check the shape",
  ["beep/features/base.py"],
  [("BEEPFeatureMatrix", "beep/features/base.py")])

P("C19", "Linear models clean, fit, predict and score as documented",
  "For every feature and target matrix, training drops exactly the samples and features below the stated completeness, imputes and "
  "standardises as documented, and finds the optimum of the stated objective; predictions follow that model for the same files and "
  "targets whatever the order, extra columns or missing entries of the matrix, and reported errors are the textbook metrics. "
  "Neither training nor prediction depends on other rows than documented, and a saved and loaded model predicts and scores the same.",
  ["inputs", "configurations", "histories"],
  "all matrices with missing and infinite entries, cleaning thresholds, models, hyperparameters, targets and prediction sets",
  "tests train on two recorded matrices and compare a few numbers",
  ["beep/model.py"],
  [("BEEPLinearModelExperiment", "beep/model.py")])

P("C20", "Data splitting keeps samples, groups and exclusions intact",
  "For every dataset, the samples and features kept are those documented (completeness thresholds, exclusions, known targets), every "
  "sample kept is in exactly one test fold, training and test sets are disjoint and cover all samples kept, and files that share a value "
  "of the grouping columns are never divided between training and test. "
  "A saved and loaded splitter or dataset gives the same data and folds.",
  ["inputs", "configurations", "histories"],
  "all datasets, groupings, exclusions, numbers of folds, thresholds and random states",
  "tests split one recorded dataset a few ways",
  ["beep/prediction/beep_data_splitter.py"],
  [("BEEPDataSplitter / BEEPDataset", "beep/prediction/beep_data_splitter.py")])

P("C21", "Procedure files are written as read and edits touch only what they name",
  "Every Maccor procedure that can be expressed is read back from the file written for it unchanged, with one step or many, any endings, "
  "reports, notes, characters and encodings, and writing does not alter the procedure. "
  "Editing a field of a shipped template changes that field's text and nothing else, and a dotted-path set, get or unset acts on exactly the "
  "named place of a nested structure.",
  ["inputs", "histories"],
  "all procedures, encodings, templates, edits and histories of path operations",
  "tests round-trip a few template files",
  ["beep/protocol/maccor.py", "beep/utils/__init__.py"],
  [("Procedure.from_file / to_file", "beep/protocol/maccor.py"), ("DashOrderedDict", "beep/utils/__init__.py")])

P("C22", "Generated procedures carry the requested parameters in the right steps",
  "For every set of cycling, diagnostic, driving and charging parameters, the generated Maccor procedure equals its template except that "
  "every step governed by a parameter has the value the parameter asks for (currents, cut-offs, durations of any length, loop counts, "
  "waveforms), also after writing and reading it. "
  "Generation does not alter the parameters it was given.",
  ["inputs", "configurations"],
  "all parameter values, durations, procedure kinds, templates and ways of giving the parameters",
  "tests generate a handful of procedures and compare a few fields",
  ["beep/protocol/maccor.py"],
  [("Procedure.generate_procedure_regcyc / diagcyc / drivingv1 / chargingv1", "beep/protocol/maccor.py")])

P("C23", "Waveforms play back the requested profile, scaled and limited",
  "For every power or current profile, driving schedule, velocity profile and fast-charging protocol, the waveform file played back second "
  "by second gives the requested values with the requested scaling, limits and end conditions, and the driving power and charging current "
  "follow the documented road-load and state-of-charge formulas. "
  "Impossible windows are refused, and generating a waveform changes neither the waveform nor the configuration given.",
  ["inputs", "configurations"],
  "all profiles, run lengths, settings, repeats, scalings, rates and windows",
  "tests convert one or two recorded profiles",
  ["beep/utils/waveform.py", "beep/protocol/maccor.py"],
  [("convert_to_mwf / convert_velocity_to_power_waveform / RapidChargeWave", "beep/utils/waveform.py")])

P("C24", "Batch generation makes one right file per row and reports the others",
  "For every parameter table, each supported row yields exactly one file, under the row's own name, holding the procedure that row alone "
  "would give, whatever the other rows are, and each unsupported row is reported as a failure without stopping the rest. "
  "Generating the same table again gives the same files.",
  ["inputs", "configurations", "histories"],
  "all tables, orders of rows, templates, diagnostic sets, directories and repetitions",
  "tests generate from two recorded tables and count files",
  ["beep/protocol/generate_protocol.py" ],
  [("generate_protocol_files_from_csv", "beep/protocol/generate_protocol.py")])

P("C25", "Arbin schedules are read and written without change",
  "Every Arbin schedule file is read into its sections and fields and written back as the same text, whatever the values contain, and an "
  "edited field changes its own line and no other. "
  "Setting parameters by step label or generating a fast-charge schedule changes exactly the named values and limits of the named steps.",
  ["inputs", "configurations", "histories"],
  "all schedules, field values, line ends and encodings, all sequences of edits",
  "tests read and write the one shipped schedule",
  ["beep/protocol/arbin.py"], [("Schedule.from_file / to_file / set_labelled_steps / set_labelled_limits / from_fast_charge", "beep/protocol/arbin.py")])

P("C26", "BioLogic settings are read and written without change",
  "Every BioLogic settings file is read into its header and its technique columns and written back as the same text, and inserting "
  "parameters or steps changes exactly the fields the parameters govern, leaving the template and the parameters as given. ",
  ["inputs", "configurations", "histories"],
  "all settings files, header lines, technique counts, parameter sets and sequences of edits",
  "tests read and write the one shipped settings file with one parameter set",
  ["beep/protocol/biologic.py"], [("Settings.from_file / to_file / formation_protocol_bcs", "beep/protocol/biologic.py")])

P("C27", "Arbin schedules made from Maccor procedures do the same",
  "Converting a Maccor procedure gives a schedule with one step per Maccor step in order, with the same control, values, end conditions, "
  "targets and logging, and with loops that reset, count and go back so that running both visits the same steps. "
  "The rest of the schedule file is that of the given shell with the given safety limits; the procedure is not altered, and one that has no "
  "translation is refused.",
  ["inputs", "configurations", "schedules"],
  "all procedures of supported steps, nested loops, end conditions, targets and durations, all choices of end conditions while running",
  "tests convert one template and look at a few labels and limit counts",
  ["beep/protocol/maccor_to_arbin.py"], [("ProcedureToSchedule.create_sdu / compile_to_arbin", "beep/protocol/maccor_to_arbin.py")])

P("C28", "BioLogic settings made from Maccor procedures do the same",
  "Converting a Maccor procedure gives BioLogic techniques whose sequences have the same control, values in equivalent units, limits, targets, "
  "records and loop counts, within the global limits, so that running both visits the same steps; all user mappings apply. "
  "A procedure that has no translation is refused and leaves no file.",
  ["inputs", "configurations", "schedules"],
  "all procedures of supported steps with plain and nested loops, values, durations, targets, global limits, mappings, and choices of end conditions while running",
  "tests convert two recorded procedures and compare the list of control types",
  ["beep/protocol/maccor_to_biologic_mb.py"], [("MaccorToBiologicMb.convert", "beep/protocol/maccor_to_biologic_mb.py")])

P("C29", "Cycle numbers recomputed from BioLogic data match the procedure",
  "For every converted Maccor procedure, the cycle index added to the data of its techniques from the written advancement rules is, at every "
  "row, the number of cycle advances the procedure would have made, through loops, loops of techniques and technique changes. "
  "A procedure whose cycles cannot be told from the data is refused.",
  ["inputs", "schedules", "histories"],
  "all procedures with cycle advances at any place of straight steps, loops and nested loops, any number of data rows per step",
  "tests only serialise one rule and read it back",
  ["beep/protocol/maccor_to_biologic_mb.py"],
  [("_create_cycle_advancement_rules / add_cycle_nums_to_csvs", "beep/protocol/maccor_to_biologic_mb.py")])

P("C30", "Maccor procedures made from BioLogic settings do the same",
  "Converting a BioLogic Modulo Bat settings file gives a procedure with one Maccor step per sequence in order, a Do before and a cycle advance "
  "and loop after each loop, with the same control, the same values in Maccor's units, and the same limits, jumps, records and cycle advances. "
  "Settings that have no such procedure are refused without touching the output.",
  ["inputs", "configurations"],
  "all settings of supported sequences with loops, empty loops and cycle advances, all values and units, limits, jumps and records",
  "tests convert one recorded file and single values in single units",
  ["beep/protocol/biologic_mb_to_maccor.py"], [("BiologicMbToMaccorProcedure.convert", "beep/protocol/biologic_mb_to_maccor.py")])

P("C31", "Two files of one Maccor run are joined without loss",
  "Joining two Maccor files writes the first file's first line, and every sample of both files in order with every recorded value; record, cycle, "
  "test time and loop counters of the second file carry on from the first where they would fall back and nothing else changes. "
  "The joined file loads like the uninterrupted run, and the inputs are left alone.",
  ["inputs"],
  "all pairs of files, whether each counter restarts, carries on or starts part way, and all values and states",
  "tests join one recorded pair",
  ["beep/utils/splice.py"], [("MaccorSplice.run_splice", "beep/utils/splice.py"), ("MaccorSplice.column_increment", "beep/utils/splice.py")])


P("C32", "The command line treats each file as alone and reports the truth",
  "The structure, featurize, protocol and inspect commands do to every file what the library does to it alone with the given options: one bad file "
  "changes nothing for the others, inputs are untouched, and each result goes to its own file in the place asked for. "
  "The status report states for every file what happened, with the right outputs and hashes. "
  "Impossible commands, errors under --halt-on-error and interruptions end with a non-zero exit code.",
  ["inputs", "configurations", "fault_sequences"],
  "all batches of good, invalid, damaged and unknown files, all options and their combinations, all points of failure or interruption",
  "tests of the command line are skipped; they run a few fixed commands",
  ["beep/cmd.py", "beep/structure/cli.py"],
  [("structure", "beep/cmd.py"), ("featurize", "beep/cmd.py"), ("protocol", "beep/cmd.py"), ("inspect", "beep/cmd.py")])

P("C33", "Model commands use the options given and report the truth",
  "The train and predict commands train the model, and make the predictions, that the library would with the settings named by the options and its "
  "defaults for the others, write them where asked and leave their inputs alone. "
  "The status report states whether it worked, with files, hashes and scores; unusable options and errors under --halt-on-error end with a non-zero exit code.",
  ["inputs", "configurations"],
  "all matrices, all combinations of options, all failures",
  "tests of the command line are skipped; they train and predict once with defaults",
  ["beep/cmd.py", "beep/model.py"], [("train", "beep/cmd.py"), ("predict", "beep/cmd.py")])

P("C34", "A run gets the parameters of its own project and number",
  "The parameters found for a run file are exactly the row with its number in the table of its own project, whatever other tables are there, and none if "
  "there is no such table or row; a project with two tables is refused. "
  "The structuring parameters made from them are the row's nominal capacity, the widest voltage range of the project, and the diagnostic with every cycle "
  "at which one starts; the caller's values stand for what the table lacks. "
  "Diagnostic limits are those of the parameter set asked for.",
  ["inputs", "configurations"],
  "all directories of tables, project names, run names and layouts of diagnostics",
  "two projects are looked up in one directory, and no structuring parameters are derived",
  ["beep/deprecated/parameters_lookup.py"],
  [("get_protocol_parameters", "beep/deprecated/parameters_lookup.py"), ("get_diagnostic_parameters", "beep/deprecated/parameters_lookup.py"),
   ("determine_structuring_parameters", "beep/deprecated/parameters_lookup.py")])

P("C35", "Electrode analysis: a cell is the difference of its electrodes, and fits say so",
  "A full cell made from half-cell curves is the positive minus the negative electrode after each is scaled to its capacity (or shrunk by its loss about its "
  "locked end), offset by the lost lithium and blended by shares of capacity, cut to 2.7-4.2 V and zeroed at its start. "
  "Each diagnostic is fitted on its own measured charge with the error of the representation chosen (V-Q, dV/dQ or dQ/dV), which vanishes at a cell's own "
  "parameters; the reported parameters are the best found, and the electrode voltages, states of charge and capacities are those of that cell at 4.2, 4.1 ... 2.7 V. "
  "The electrode featurizers give these values for every usable diagnostic of the chosen type (or the first two), and refuse runs without them.",
  ["inputs"],
  "all half-cell curves, electrode capacities, offsets, losses and blends, all measured profiles",
  "all tests of the electrode analysis need files that are not there and fail",
  ["beep/features/intracell_analysis_v2.py", "beep/features/intracell_analysis.py", "beep/features/intracell_losses_v2.py", "beep/features/intracell_losses.py"],
  [("IntracellAnalysisV2", "beep/features/intracell_analysis_v2.py"), ("IntracellAnalysis", "beep/features/intracell_analysis.py"),
   ("get_electrode_info_ah", "beep/features/intracell_analysis_v2.py"), ("IntracellCyclesV2", "beep/features/intracell_losses_v2.py")])

P("C36", "Principal components explain, rebuild and flag as stated",
  "The pivoted table has one row per file and chosen cycle, in order, holding the discharge values of that cycle on the common grid. "
  "Embedding and rebuilding project any rows onto the leading components of the standardised training table; the number of components reported is the least "
  "that explains more than the threshold, reconstruction errors are mean absolute differences, and rows are flagged exactly when they leave the training quantiles "
  "(or exceed the stated multiple of the worst training error). "
  "Neither tables nor the fit are altered by use, and a saved decomposition loads with the same results.",
  ["inputs", "configurations"],
  "all training and new tables, component numbers, thresholds and quantiles; all structured runs",
  "the tests check shapes, and one number of one file",
  ["beep/features/principal_components.py"],
  [("PrincipalComponents", "beep/features/principal_components.py"), ("pivot_data", "beep/features/principal_components.py")])

P("C37", "Objects kept in S3 are found, fetched and moved whole",
  "Structuring with a bucket uses, for each argument in order, the local file of that path if there is one, else the objects whose key it names or matches, each read "
  "with its own content and written to its own output; inputs that are nowhere or that would overwrite one another are refused. "
  "Listing and downloading give exactly the bucket's objects. "
  "Moving a project copies each of its objects, byte for byte but for the project's name in the name and the first line, to the intended bucket, and one refused upload stops no other.",
  ["inputs", "fault_sequences"],
  "all buckets, arguments, options and object contents; all refused uploads",
  "the only test of S3 needs the network and is skipped; moving projects has no test",
  ["beep/cmd.py", "beep/utils/s3.py", "beep/utils/project_transfer.py"],
  [("structure", "beep/cmd.py"), ("list_s3_objects", "beep/utils/s3.py"), ("download_s3_object", "beep/utils/s3.py"), ("ProjectTransfer", "beep/utils/project_transfer.py")])
