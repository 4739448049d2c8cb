"""Source of properties.jsonl and not_applicable.json (run by hand: python3 tools/props.py)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], {}
SB, SR, ST = "instancespace/stage_builder.py", "instancespace/stage_runner.py", "instancespace/stages/stage.py"
IS, MO, SE = "instancespace/instance_space.py", "instancespace/model.py", "instancespace/_serialisers.py"
SG = "instancespace/stages/"


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, na=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
    if na:
        NA[id] = na


p("C01", "Every set of stages runs once each in a legal order, or is refused up front",
  "For every set of stages, built-in or plugin, resolving them either raises an error without running any stage, or gives a pipeline in which a complete run executes every stage exactly once, after the stages that produce its inputs, in the order every RunBefore and RunAfter demands, and with a stage that rewrites an argument running before the other stages that become ready with it and read that argument. Each stage, and the final data, gets the value of the last producer in that order. An error is raised exactly when an input can never become available, restrictions cannot be met, or two stages that become ready together would output (or both rewrite) the same argument.",
  ["programs", "configurations"], "every set of stages with any inputs, outputs, ordering restrictions and rewritten arguments, in every registration order and every set iteration order",
  "Tests resolve a dozen fixed stage sets, each under whatever set order that process's hashes give; the quantifier is over all sets of stages and all iteration orders.",
  [SB, SR, ST], [("ready-set resolution rounds", SB), ("mutating-stage rule and ambiguity check", SB), ("RunBefore/RunAfter restrictions", SB), ("runnability check and argument lookup", SR)],
  [("stage order", "list of steps of stages that may run together", SR)], ["StageBuilder.build", "StageRunner.run_all"])
p("C02", "A pipeline's result does not depend on registration, set or hash order",
  "The same set of stages gives the same outcome - the same refusal, or the same values handed to every stage and the same final data - whatever order the stages are added in, whatever order Python's sets iterate in and whatever the interpreter's hash seed is. In particular, stages that become ready together never see each other's outputs, whichever of them happens to run first. Building a pipeline never changes what was given to it, so building again gives the same pipeline.",
  ["schedules", "programs"], "every set of stages and every registration order, hash seed and iteration order of the sets the resolver uses",
  "A test process sees one hash seed and one registration order; a dependence on set order shows only under another seed.",
  [SB, SR], [("per-round ready set computed before any of it runs", SB), ("arguments taken from the state before the step", SR)], None, ["StageBuilder.build", "StageRunner.run_all"])
p("C03", "Any history of runs, reruns and iteration uses only current results",
  "In every history of run_all, run_iter, run_until_stage and run_stage on one runner, each stage that executes gets for each input the override given for it or else the current value from the stages scheduled before it (or the initial arguments of the current run); rerunning a stage discards the results of all later-scheduled stages, and an operation whose prerequisites are not there is refused without running anything. run_until_stage runs the named stage last and everything it needs, and an iteration that ends without an error has run every stage once; whatever is returned is exactly the current data. Runners built separately do not affect each other.",
  ["histories"], "every sequence of operations, including abandoned and interleaved iterators, overrides and several runners",
  "Tests call each operation once or twice from a fresh runner; stale data needs particular sequences of reruns.",
  [SR, IS], [("rollback of later results", SR), ("prerequisite check", SR), ("arguments rebuilt from initial arguments and stage outputs", SR)],
  [("stage output data", "current output of each stage", SR), ("initial arguments", "arguments of the current run", SR)], ["StageRunner.run_all", "StageRunner.run_iter", "StageRunner.run_stage", "StageRunner.run_until_stage"])
p("C04", "A failure or interrupt during a run is reported and leaves nothing half-applied",
  "When a stage raises, or an interrupt or memory error strikes anywhere inside a runner operation, the exception reaches the caller, and the runner afterwards behaves as if the operation had either not happened or got as far as a whole number of completed stages. Everything run before the failed stage stays usable: retrying the stage, or any other operation, works and gets the same inputs as if the failure had not happened. No partial output of a failed stage is ever seen.",
  ["fault_sequences", "histories"], "every stage failure at any point of any stage, and every asynchronous exception at any line of the library, in any history of operations",
  "No test makes a stage fail or interrupts the runner and then goes on using it.",
  [SR, IS], [("state replaced in one assignment after the stage has finished", SR)], None, ["StageRunner.run_all", "StageRunner.run_stage", "StageRunner.run_iter"])
p("C05", "What a stage does to its inputs in place is seen by nobody else",
  "Whatever a stage does in place to the values it is given - arrays, frames, lists, option objects - no other stage, no later rerun, no data already handed to the caller and none of the caller's own metadata, options or initial arguments changes. A rerun of a stage gets the values its inputs were made with. This holds also when the stage fails midway.",
  ["histories", "fault_sequences"], "every history of operations over stages that overwrite, pass on or keep references to their inputs, with failures",
  "Tests use stages that do not mutate, or look only at the stage's own result.",
  [SR, IS], [("inputs deep-copied for each execution", SR)], None, ["Stage inputs", "values returned by the runner", "Metadata and options of the caller"])
p("C06", "InstanceSpace.model is always exactly the latest complete build",
  "InstanceSpace.build returns a model holding, field by field, the outputs of one complete run of all its stages on its metadata and options as they are when it is called, and .model then returns the model of the latest successful build. A build that fails raises and leaves no model mixed from two runs; .model is refused with an error as long as no run was complete. Running single stages, partial runs and other InstanceSpaces never make .model a mixture of runs.",
  ["histories", "fault_sequences"], "every history of build, model, run_stage, run_until_stage and run_iter on one or more InstanceSpaces, with stage failures and interrupts",
  "Tests build once and read the model once.",
  [IS, MO, "instancespace/data/model.py"], [("model made from the runner's final data", IS), ("field mapping", "instancespace/data/model.py")],
  [("cached model and final output", "what .model returns", IS)], ["InstanceSpace.build", "InstanceSpace.model"])
p("C07", "TRACE gives the same footprints whatever the threads, workers and clock do",
  "For given inputs, TRACE returns exactly the same space, good, best and hard footprints and summary, each at its own algorithm's position, for every number of worker threads (parallel n_cores and machine CPU count), every interleaving of the workers, every completion order and every behaviour of the system clock. It always ends, and leaves no worker thread running.",
  ["schedules", "configurations"], "every worker count, thread interleaving, completion order and clock (jumps, stalls, backwards) for any inputs",
  "Tests run TRACE once under the machine's own scheduling and never compare worker counts or force a preemption inside a worker.",
  [SG + "trace.py"], [("thread pool over algorithms, results placed by index", SG + "trace.py")], None, ["TraceStage outputs", "threads alive afterwards"])
p("C08", "A failing TRACE worker is always reported, never dropped or hung on",
  "If any worker of TRACE fails at any point (an exception in its computation, or failure to start a thread), the TRACE stage raises that failure to its caller; it never returns footprints in which a failed algorithm silently has an empty or wrong footprint, never hangs, and leaves no worker thread running. Running TRACE again afterwards gives the normal result.",
  ["schedules", "fault_sequences"], "every worker failing at any line under every interleaving, including several failing at once and thread start failures",
  "No test makes a TRACE worker fail.",
  [SG + "trace.py"], [("future.result() re-raises in the caller", SG + "trace.py"), ("executor context manager joins workers", SG + "trace.py")], None, ["TraceStage outputs or exception", "threads alive afterwards"])
p("C09", "A build is a pure function of metadata and options",
  "With the same metadata and options, building an InstanceSpace gives exactly the same model every time: it does not depend on the state of Python's or NumPy's global random generators, the interpreter's hash seed, the clock, the time computations take, the number of CPUs, the working directory, or on what was built, run or failed earlier in the same process. This holds for every option that changes how stages work (numerical or analytic PILOT, grid or Bayesian search, polynomial or Gaussian kernels, weights, small-scale subsets, genetic feature selection).",
  ["schedules", "configurations", "histories"], "every ambient random state, hash seed, clock, CPU count and earlier history in the process, for any metadata and options",
  "Tests compare one run per option set against recorded numbers within tolerances, in one ambient state.",
  [SG + "prelim.py", SG + "sifted.py", SG + "pilot.py", SG + "cloister.py", SG + "pythia.py", SG + "trace.py", IS], [("seeded generators in each stage", SG), ("fixed random_state of splitters, searches and models", SG)], None, ["every field of the Model returned by InstanceSpace.build"])
p("C10", "Parallel processing changes speed only, and worker loss is reported",
  "SIFTED's genetic feature selection and PYTHIA's parameter search give exactly the same result with parallel processing on, for any number of cores, as with it off, whatever order the worker processes start, interleave and finish in. If a worker process dies or an evaluation of the genetic selection fails, the stage raises an error instead of returning a result computed without it.",
  ["schedules", "fault_sequences", "configurations"], "every number of cores and order of worker execution and completion, and worker death at any task",
  "Tests run with parallel processing off, or once with real processes whose order they do not control.",
  [SG + "sifted.py", SG + "pythia.py"], [("pygad process pool", SG + "sifted.py"), ("n_jobs of the parameter search", SG + "pythia.py")], None, ["SiftedOutput", "PythiaOutput"])
p("C11", "A save that returns has written every file, complete and true to the model",
  "When save_to_csv, save_for_web, save_graphs or save_to_mat returns without reporting an error, every file it is to write is in the directory, complete, readable and equal to the model's data (each row under its own instance's label and each column under its own feature's or algorithm's name), and every image decodes. If the disk is full or any open, write or close fails or is short, the save raises, or for save_to_mat prints, the error. This holds for every model a build can produce, including builds that dropped instances or features.",
  ["fault_sequences", "configurations"], "every I/O fault (no space, I/O error, short or torn write, failed open or close) at any operation, and every model a build can produce",
  "Tests save one recorded model to a healthy disk and compare a few files.",
  [MO, SE, "instancespace/data/model.py"], [("CSV writers", SE), ("figure writers", SE), ("mat writer", SE)], None, ["files in the output directory", "exceptions and printed errors"])
p("C12", "A save interrupted by a crash or error can be repeated to a clean result",
  "After a save is cut short anywhere - process killed, power lost with unwritten data dropped, or an I/O error - saving the same model again into the same directory succeeds once the fault is gone, and leaves exactly the files a first save into an empty directory would have left, without remnants, temporary files or locks. The model, reloaded or still in memory, is not needed in any special state. Files that were in the directory and that a save does not write are untouched.",
  ["crash_points", "fault_sequences"], "every I/O operation as crash point, with any subset of unflushed data lost, for each kind of save",
  "No test interrupts a save.",
  [MO, SE], [("files opened for truncating write by fixed names", SE)], None, ["files in the output directory after the second save"])
p("C13", "Saving has no side effects on the model or the process",
  "Saving a model in any format, any number of times, in any order, successfully or failing midway, leaves every value of the model, the caller's pyplot figures and current figure, matplotlib's settings, the working directory, the random generators and the set of open files as they were. Therefore the files written do not depend on what was saved before.",
  ["histories", "fault_sequences"], "every sequence of saves with I/O faults and exceptions at any point",
  "Tests save once and do not look at the model or at pyplot afterwards.",
  [SE, MO], [("figures made without registering them with pyplot", SE), ("copies of summaries renamed", SE)], None, ["Model fields", "matplotlib.pyplot state", "open file handles"])
p("C14", "Loading gives complete data or None, never partial data or a stray error",
  "Loading metadata or options, or an InstanceSpace from files or a directory, returns objects holding everything the files hold, or prints the reason and returns None when a file is missing, cannot be opened or read (at any point of the read) or does not decode as text; such an error never escapes as an exception and never gives an object from part of a file. After the fault has gone, loading the same files again gives the complete object. No file is left open, and loading changes no file.",
  ["fault_sequences", "inputs"], "every failure of an open, read or close at any point, short reads, and undecodable bytes at any position",
  "Tests load a missing file and a malformed one; none fails in the middle of a read.",
  ["instancespace/data/metadata.py", "instancespace/data/options.py", IS], [("exception handlers of the loaders", "instancespace/data/metadata.py"), ("exception handlers of the loaders", "instancespace/data/options.py"), ("None propagation", IS)], None, ["from_csv_file", "from_json_file", "instance_space_from_files", "instance_space_from_directory"])
p("C15", "save_zip archives every saved file byte for byte, or raises",
  "When save_zip returns, the named archive is a valid zip that holds exactly the files in the output directory, byte for byte, under output/, except .gitignore files and the archive itself, also when the archive existed before. If reading or writing any file fails, or the disk is full, save_zip raises. No other file in the directory is changed, and repeating the call after a failure or crash gives a good archive.",
  ["fault_sequences", "crash_points"], "every I/O fault or crash at any operation, any directory listing order and any files present",
  "Tests zip one directory on a healthy disk.",
  [MO], [("ZipFile context manager over a directory walk", MO)], None, ["the archive", "files in the output directory"])

# ---- pure functions of their input: no schedule, fault, clock or history in them
PURE = "a pure function of its input: it has no schedule, clock, I/O, fault or history for a simulator to decide, so simulating it would only be input generation under another name"
T = "The recorded MATLAB cases test a handful of inputs within tolerances; the quantifier is over all inputs."
p("C16", "PRELIM marks good, best and beta-easy performance as the options define",
  "For every performance matrix and options, good performance, the best algorithm, the number of good algorithms and beta-easiness are those the options define (maximise or minimise, absolute or relative, epsilon, beta threshold). Bounding and normalising change only processed values, never the raw ones.",
  ["inputs"], "every performance matrix and performance option", T, [SG + "prelim.py"], [("binarisation", SG + "prelim.py")], na=PURE)
p("C17", "Preprocessing keeps exactly the chosen columns and drops only as documented",
  "Preprocessing keeps exactly the selected features and algorithms in order, and removes exactly the instances and features with too many missing values, keeping labels, sources, features and performances of each instance together.",
  ["inputs"], "every table and selection", T, [SG + "preprocessing.py"], [("selection and removal", SG + "preprocessing.py")], na=PURE)
p("C18", "Density filtering keeps an instance for every one it drops",
  "Filtering by density keeps a subset such that every dropped instance has a kept instance within the minimum distance under the chosen filter type, and keeps at least one instance.",
  ["inputs"], "every instance set, distance and filter type", T, ["instancespace/utils/filter.py"], [("greedy filter", "instancespace/utils/filter.py")], na=PURE)
p("C19", "PILOT's projection reproduces its own reported coordinates and errors",
  "The coordinates PILOT returns are the features times the projection it returns, and its reported error and R2 are those of the returned matrices; of several tries it returns the best.",
  ["inputs"], "every feature and performance matrix", T, [SG + "pilot.py"], [("analytic and numerical solvers", SG + "pilot.py")], na=PURE + "; that the result does not depend on ambient randomness is C09")
p("C20", "Footprints satisfy their own purity, density and disjointness numbers",
  "Every footprint's area, density and purity are those of its polygon, pieces below the purity threshold are removed, and best footprints of two algorithms overlap only where neither is purer.",
  ["inputs"], "every set of points and options", T, [SG + "trace.py"], [("polygon fitting and contradiction removal", SG + "trace.py")], na=PURE + "; its threads are C07 and C08")
p("C21", "CLOISTER's boundary contains every projected instance",
  "The boundary CLOISTER returns encloses the projection of every point within the features' bounds, and the correlation-pruned boundary is within it.",
  ["inputs"], "every feature matrix and projection", T, [SG + "cloister.py"], [("correlation and hull", SG + "cloister.py")], na=PURE)
p("C22", "PYTHIA's metrics and selections follow from its predictions",
  "Accuracy, precision, recall, the confusion matrix and the selector's choice are those that PYTHIA's own predictions imply.",
  ["inputs"], "every labelled instance space", T, [SG + "pythia.py"], [("metrics and selection", SG + "pythia.py")], na=PURE)
p("C23", "Options files set exactly the fields they name, and defaults fill the rest",
  "Every option named in an options file, in any letter case or documented alias, sets its own field and no other, all others take their defaults, and unknown or doubly named options are refused.",
  ["inputs"], "every options object", "Tests load a handful of option files.", ["instancespace/data/options.py"], [("field mapping and validation", "instancespace/data/options.py")], na=PURE + "; loading under read faults is C14")

# ---- whole builds under failures and from several threads
p("C24", "A failure in any built-in stage surfaces and leaves the space usable",
  "When any step of a built-in stage fails while stages run - an exception of any kind raised at any point, in the calling thread, in a TRACE worker or in a fitness evaluation of the genetic selection - build, run_iter and the other operations raise that failure; they never return a result made without the failing step. (Degenerate geometry that a stage handles itself, such as CLOISTER's hulls, is no failure.) Afterwards .model still gives the latest successful build if there was one, no worker thread is left running, and building again once the failure is gone gives exactly the model that an undisturbed build gives.",
  ["fault_sequences", "configurations"], "every line of every built-in stage as the point of failure, every execution of it, and every kind of exception, for any metadata and options",
  "Tests make a few stages fail on invalid input, and never look at what a failed build leaves behind.",
  [SG + "preprocessing.py", SG + "prelim.py", SG + "sifted.py", SG + "pilot.py", SG + "cloister.py", SG + "pythia.py", SG + "trace.py", IS], [("no handler around a stage's computations", SG), ("model replaced only after a complete run", IS)], None, ["InstanceSpace.build", "InstanceSpace.run_iter", "InstanceSpace.model"])
p("C25", "Spaces and models used from several threads do not affect each other",
  "Building or running the stages of separate InstanceSpaces, loading metadata, and saving separate models into separate directories from several threads at the same time gives each thread exactly what it gets alone: no result, saved file or error depends on what other threads do with their own InstanceSpaces and models. This also holds when the InstanceSpaces share the metadata and options objects they were made from.",
  ["schedules", "configurations"], "every interleaving of several threads' builds, stage runs, loads and saves at lines of the library, for any metadata, options and formats",
  "Tests use one thread.",
  [SG + "sifted.py", SG + "pilot.py", SG + "pythia.py", SG + "trace.py", IS, "instancespace/stage_runner.py", SE, MO], [("state kept per object, none per class or module", IS), ("one genetic selection at a time, as pygad uses global generators", SG + "sifted.py"), ("figures not shared through pyplot", SE)], None, ["InstanceSpace.build", "InstanceSpace.run_iter", "files of a save"])

p("C26", "Building leaves the process and what it was handed as they were",
  "Making an InstanceSpace, loading metadata and options, and building - whole, stage by stage, in parallel, ending in a failure of any kind, or abandoned halfway - leave everything else in the caller's process as it was, already whenever run_iter hands control back: Python's and NumPy's global random generators, NumPy's, pandas', matplotlib's and scikit-learn's settings, figures, warning filters, the root logger, the working directory, the environment, signal handlers, standard streams, open files, threads, and files in the working and temporary folders. The data frame, metadata and options handed in keep their values, and so do the arrays, series and lists handed to a stage that is run by itself. (Worker processes that joblib keeps idle for later use, and caches and loggers inside other libraries, do not count.)",
  ["fault_sequences", "histories", "configurations"], "every point of failure, every stage to stop after, every metadata, options and state of the caller's process",
  "Tests never look at the process around a build, nor at what a failed or abandoned one leaves behind.",
  [SG + "sifted.py", SG + "pythia.py", SG + "prelim.py", SG + "pilot.py", SG + "cloister.py", SG + "trace.py", IS, "instancespace/stage_runner.py", "instancespace/data/metadata.py", "instancespace/data/options.py"], [("global generators given back after a genetic selection", SG + "sifted.py"), ("stages compute on arrays of their own", SG)], None, ["InstanceSpace.build", "InstanceSpace.run_iter", "Metadata.from_data_frame", "from_csv_file", "from_json_file"])

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
json.dump(NA, open(os.path.join(here, "tools", "not_applicable.json"), "w"), indent=1)
