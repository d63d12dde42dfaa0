prop("F01", "Exit 0 means that every output file was completely written",
     "Whatever errors the operating system reports while output directories and files are created, written, flushed and closed (full disk, "
     "quota, I/O error, permission, partial write, write-back lost at close), the program exits 0 only if every output file of the "
     "conversion is on disk with exactly the contents it has when no error occurs. Otherwise it exits with a non-zero status.",
     ["fault_sequences", "inputs", "configurations"],
     "every study, output format and option set; every operation on an output file or directory failing once, persistently or partially, "
     "alone or together with another",
     "The tests convert a few decks on a healthy disk and never make a write, close or mkdir fail.",
     WRT + [CL, MAIN],
     [("stream state checked after the last write and close", "Nastran/NastranWriter.cpp, Systus/SystusWriter.cpp, Aster/AsterWriter.cpp: writeModel"),
      ("negative MED library status turned into an error", "Aster/MedWriter.cpp"),
      ("WritingException mapped to an exit status", "Commandline/VegaCommandLine.cpp: process")],
     ["exit status of vegapp", "bytes of the files in the output directory"],
     "deterministic simulation of vegapp on a simulated file system, seeded output faults, refinement against the fault-free run",
     "Sampling: quick places ~14 faults per study x writer from the trace of its fault-free run. Trusts the simulated kernel's error model; libmed/libhdf5 are real.")

prop("F02", "Exit 0 means that every input file was completely read",
     "Whatever errors the operating system reports while the study, its include files, the test result file and the configuration file are "
     "looked up, opened and read, the program exits 0 only if its output is exactly what it writes when no error occurs. A file that exists but cannot be read "
     "to its end is never converted as if it ended where the error struck, or as if it were absent.",
     ["fault_sequences", "inputs", "configurations"],
     "every study with includes, results and configuration; every lookup, open and read of every input failing once or persistently at any position "
     "(a configuration file that cannot be opened is a documented warning)",
     "The tests read intact files from a healthy disk.",
     RD + [CL],
     [("stream badness checked at end of input", "Abstract/Tokenizer.cpp, Nastran/NastranTokenizer.cpp: readLineSkipComment"),
      ("open failure of study, include or result file raised", "Nastran/NastranParser.cpp, Optistruct/OptistructParser.cpp, ResultReaders/ResultReaders.cpp")],
     ["exit status of vegapp", "bytes of the files in the output directory"],
     "deterministic simulation of vegapp on a simulated file system, seeded input faults, refinement against the fault-free run",
     "Sampling of operations x error codes x transfer sizes; an error that a correct program may ignore (optional lookups) only has to leave the outputs unchanged.")

prop("F03", "Running out of memory never yields exit 0 with incomplete or altered output",
     "If any single memory allocation fails, or all from some point on, the program exits 0 only if every output file has exactly the contents it has "
     "when no allocation fails. Otherwise it ends with a non-zero status in a bounded number of steps.",
     ["fault_sequences", "inputs", "configurations"],
     "every study, output format and option set; the k-th allocation (C++ or C) failing, once or from then on, for every k",
     "The tests never make an allocation fail.",
     WRT + RD + [MAIN],
     [("out-of-memory handler ends the process", "Commandline/vegamain.cpp: main"),
      ("MED library status checked", "Aster/MedWriter.cpp")],
     ["exit status of vegapp", "bytes of the files in the output directory"],
     "deterministic simulation of vegapp on a simulated heap, seeded allocation failures, refinement against the failure-free run",
     "Sampling of k; half of the samples favour late allocations, where formatting and writing happen.")

prop("D01", "Output depends on input files and options only",
     "Two conversions of the same input files with the same options exit with the same status and write byte-identical output files, whatever the memory layout "
     "and stale memory contents, the order in which directories enumerate, the sizes in which reads and writes are transferred, the clock, the random source, "
     "the console and unrelated environment variables are. Only the documented time stamps (date line of the SYSTUS data file, HDF5 object times of the MED file) follow the clock.",
     ["schedules", "inputs", "configurations"],
     "every study, output format and option set; every pair of environments",
     "A test run samples one heap layout, one clock and one set of stale bytes; a dependence on an address or an uninitialised byte rarely shows there.",
     WRT + RD + ["Abstract/Model.cpp", "Abstract/Mesh.cpp", "Abstract/Object.cpp", CL],
     [("containers ordered by reference, not by address", "Abstract/Model.h, Abstract/Object.h, Abstract/Reference.h"),
      ("constructors initialise every member", "Abstract/*.h"),
      ("C locale forced", "Commandline/vegamain.cpp: main")],
     ["exit status of vegapp", "bytes of the files in the output directory"],
     "deterministic simulation of vegapp under varied seeded environments (heap, stack, stale bytes, clock, directory order, transfer sizes), refinement against a reference environment",
     "Sampling of environments; the heap is the simulator's own (four placement modes, five fill modes), so address-dependent order and uninitialised reads become visible.")

prop("D02", "A conversion is not influenced by earlier conversions in the same process",
     "A conversion made after any sequence of other conversions in the same process, successful or failed, ends with the status it has when made alone and writes the same output "
     "files up to the values of integers (automatically assigned numbers continue from one conversion to the next). No conversion, successful or failed, leaves a file "
     "descriptor open.",
     ["histories", "fault_sequences", "inputs"],
     "every finite sequence of conversions (studies, formats, options, injected errors in all but the last)",
     "Each test binary makes a fixed, short sequence of conversions and checks only that they succeed.",
     [CL, "Abstract/Model.cpp", "Abstract/Mesh.cpp", "Abstract/Dof.cpp", "Abstract/CoordinateSystem.cpp"] + WRT,
     [("per-conversion model, parser and writer objects", "Commandline/VegaCommandLine.cpp: convertStudy, process"),
      ("writer maps cleared or rebuilt per model", "Systus/SystusWriter.cpp"),
      ("file closed when writing fails", "Aster/MedWriter.cpp")],
     ["status returned by VegaCommandLine::process", "files of the last conversion", "open descriptors after each conversion"],
     "deterministic simulation of conversion sequences in one simulated process with seeded faults, refinement against the conversion made alone",
     "Sampling of histories of 2-5 conversions; integers are masked in the comparison because numbering is process-global by design.")

prop("C01", "After a crash at any point, running the conversion again gives a clean result",
     "Whatever an earlier conversion of the same study left in the output directory when it was killed, crashed or stopped by an error at any point, or an older "
     "version of the study wrote there under the same names, running the conversion again ends with the same status and the same output files as in a clean directory. "
     "Input files are never changed or lost at any crash point, and a killed conversion never reports exit 0.",
     ["crash_points", "histories", "fault_sequences", "inputs"],
     "every study and format; every operation as crash point, repeated crashes, torn last writes, full disk, and leftovers of every length",
     "The tests start from a fresh or a successfully written directory and are never interrupted.",
     WRT + [CL, MAIN],
     [("outputs truncated when opened", "Nastran/NastranWriter.cpp, Systus/SystusWriter.cpp, Aster/MedWriter.cpp"),
      ("copies made under a temporary name and renamed", "Aster/AsterWriter.cpp: copy of the study and result file"),
      ("existing output directory accepted", "Commandline/VegaCommandLine.cpp: process")],
     ["exit status of both runs", "bytes of the files in the output and input directories"],
     "deterministic simulation with seeded crash points, torn writes and leftovers on a simulated file system, refinement against the run in a clean directory",
     "Process crashes, not power loss (vega never syncs). Temporary files of a killed run are not compared.")

prop("C02", "The exit status tells what happened to the conversion",
     "vegapp ends with the status of the conversion for every interleaving with its child process and every interrupted wait: 0 on success, 2 without an input "
     "file, 3 if the output directory cannot be created, 4 for a wrong option, value or format, and otherwise the documented status of the failure. It ends with 8 if the conversion crashes or is killed at any point, and with "
     "9 if no child process can be created. It never ends with 0 when the status of the conversion could not be obtained.",
     ["schedules", "crash_points", "fault_sequences", "configurations"],
     "every command line, every crash point of the child, every interleaving of parent and child, interrupted or failing fork, wait and mkdir, SIGCHLD ignored or not",
     "The tests call the conversion directly, without the parent process, and never kill it, interrupt a wait or make fork fail.",
     [MAIN, CL, "Commandline/VegaCommandLine.h"],
     [("conversion in a child process, status decoded by the parent", "Commandline/vegamain.cpp: main"),
      ("exceptions mapped to statuses", "Commandline/VegaCommandLine.cpp: process")],
     ["exit status of vegapp"],
     "deterministic simulation of parent and child processes with seeded scheduling, crashes and system call faults, against a status model",
     "The model takes the status of a conversion without crash from the same conversion called directly in one process; --verbosity DEBUG/TRACE rethrows errors by design and is modelled as a crash.")

prop("R01", "Damaged inputs end in a documented status within bounds",
     "Whatever storage faults, interrupted copies or lost blocks did to the study, its include files, its test result file or its configuration file, the program "
     "ends within a number of steps, operations and bytes of memory bounded in the size of the inputs, with a documented exit status. It changes none of its input files.",
     ["inputs", "fault_sequences", "configurations"],
     "every study, format and option set, and every damage that does not make a number or a range of the study bigger",
     "Each test reads one intact file, or one prepared wrong one.",
     RD + [CL, MAIN],
     [("tokenizer stops at the end of input", "Nastran/NastranTokenizer.cpp, Abstract/Tokenizer.cpp"),
      ("parsing errors turned into statuses", "Nastran/NastranParser.cpp: handleParsingError; Commandline/VegaCommandLine.cpp: process")],
     ["exit status of vegapp", "end of the run within step, operation and memory bounds", "bytes of the input files"],
     "deterministic simulation of vegapp on inputs damaged by seeded storage faults, bounded termination and status as invariants",
     "Bounds are multiples of what the undamaged study takes plus a term in the file size; a run over them is repeated with 15 times larger bounds before it is reported.")

prop("C03", "Concurrent conversions do not disturb each other",
     "Several vegapps that run at the same time and share the input directory, include files, the output directory, or the study itself (in another "
     "format or into another directory) each end with the status and write the output files they have when they run alone, for every interleaving of "
     "their operations. This also holds when some of them fail or are killed.",
     ["schedules", "crash_points", "inputs", "configurations"],
     "every set of conversions whose output files differ in name, every interleaving of their file operations, every crash point of one of them",
     "The tests never run two vegapps at the same time in one directory under a controlled schedule.",
     WRT + [CL, MAIN],
     [("output directory accepted when another process creates it", "Commandline/VegaCommandLine.cpp: process"),
      ("output names begin with the study's name; copies made under unique temporary names", "Aster/AsterModel.cpp, Systus/SystusModel.cpp, Aster/AsterWriter.cpp")],
     ["exit status of every vegapp", "bytes of all output and input files"],
     "deterministic simulation of 2-3 concurrent vegapps under a seeded scheduler with seeded crashes, refinement against each running alone",
     "Two conversions of the same study in the same format into the same directory are excluded: they write the same files.")

prop("I01", "Nothing but the study's own files in the output directory is touched",
     "Whatever happens (success, any error, a crash, a solver run), vegapp creates, changes and removes only files of its own study in its output directory. "
     "Input files, files of other studies (also those whose names begin alike) in the output directory, and everything outside it stay as they were.",
     ["fault_sequences", "crash_points", "histories", "configurations"],
     "every study, format, option set and directory layout, every neighbouring file, every operation failing or being the crash point, with and without --run-solver",
     "The tests work in directories of their own and look only at the files they expect.",
     WRT + RUN + [CL],
     [("output names derived from the output directory and the study's name", "Aster/AsterModel.cpp, Systus/SystusModel.cpp, Nastran/NastranWriter.cpp: getOutputFileName, getNasFilename"),
      ("results of the study recognised by name before they are removed", "Systus/SystusRunner.cpp: isFileOf; Abstract/SolverInterfaces.cpp: deletePreviousResultFiles")],
     ["every path of the simulated file system before and after"],
     "deterministic simulation of vegapp among files of other studies with seeded faults and crashes, file-system frame condition as invariant",
     "Files of the study are recognised by its name followed by . or _; SYSTUS*.DAT that are not data of a study count as work files of the solver.")

prop("S01", "With --run-solver the exit status tells how the solver ended",
     "After a good translation vegapp ends with 0 exactly if the solver ended with 0, left its results, and no test result (NOOK) or listing (SYSTUS: ERROR) "
     "reports a failure; otherwise with 100 if the solver could not be found or started, 102 if a signal killed it, 101 for exit status 4 of Code_Aster, 103 for another "
     "failure, 104 if results are missing, 105 if a test failed. After a failed translation it ends with the status of the translation.",
     ["histories", "configurations", "schedules"],
     "every way a solver can end (exit status, signal, listing, results) for each format, product, number of data sets and option set",
     "No solver is installed where the tests run, so they never start one.",
     RUN + [CL],
     [("wait status decoded", "Abstract/SolverInterfaces.cpp: convertExecResult"),
      ("results and listing examined", "Aster/AsterRunner.cpp, Systus/SystusRunner.cpp: execSolver")],
     ["exit status of vegapp"],
     "deterministic simulation of vegapp and a simulated solver with seeded outcomes, against a status model",
     "The solver is a stub behind a model of sh; statuses 129-165 count as killed and 127 as not found, as the code documents. The listing of a NASTRAN run is not examined by vega.")

prop("S02", "Stale, missing or unreadable solver results never count as a success",
     "With --run-solver, exit 0 means that the solver started by this run ended well and that the results and listings examined are this run's and were read completely. Results "
     "left by an earlier run, results that can't be removed, looked up or read, a solver that can't be started, and a crash at any point never lead to exit 0.",
     ["histories", "fault_sequences", "crash_points"],
     "every history of earlier solver runs in the directory, every outcome of this one, every operation on results and listings failing",
     "The tests never run a solver, never have results of an earlier run, and never make reading results fail.",
     RUN,
     [("results of an earlier run removed first", "Abstract/SolverInterfaces.cpp: deletePreviousResultFiles; Systus/SystusRunner.cpp"),
      ("read errors of results and listings raised", "Aster/AsterRunner.cpp, Systus/SystusRunner.cpp: execSolver")],
     ["exit status of vegapp", "starts of the simulated solver"],
     "deterministic simulation of histories of vegapp and solver runs with seeded faults and crashes, against a model of the solver's outcome",
     "Faults are placed on the operations between the translation and the end; the solver is a stub that writes its results before it ends.")

prop("S03", "The solver is started once, on the complete translation",
     "With --run-solver the solver is started exactly once per data set of this translation, in the output directory, with a file it finds there, and only after every "
     "file of the translation is completely written. It is never started when the translation failed, nor on data of another study or of an earlier translation, whatever "
     "characters the names of the study and the output directory contain.",
     ["fault_sequences", "inputs", "configurations", "histories"],
     "every study, format, product and option set, every operation of the translation failing, every neighbouring file and every name",
     "The tests never start a solver.",
     RUN + WRT + [CL],
     [("solver started only after ExitCode::OK", "Commandline/VegaCommandLine.cpp: process"),
      ("words quoted for the shell", "Abstract/SolverInterfaces.cpp: shellQuoted"),
      ("data sets of an earlier translation removed", "Systus/SystusWriter.cpp: writeModel")],
     ["program, arguments, working directory and directory contents at every start of the simulated solver"],
     "deterministic simulation of vegapp and a simulated shell and solver with seeded output faults, invariant at every solver start",
     "The shell is a model of sh (words, quotes, variables, redirections, cd, && || ;).")

na("N01", "The translated mesh is the input mesh",
   "Every node and element of the input study appears in the output with the same position, connectivity and group membership.",
   ["Abstract/Mesh.cpp", "Nastran/NastranParser.cpp", "Aster/MedWriter.cpp"], [("mesh model", "Abstract/Mesh.cpp")],
   "Holds for every deck; tests compare a few.",
   "A pure function of the input deck: no schedule, clock, fault or interleaving takes part in it (errors while reading or writing it are F01-F03).")
na("N02", "Materials, properties, loads and constraints are translated faithfully",
   "Every material, element property, load, boundary condition and analysis of the study is expressed in the target format with equivalent values.",
   ["Abstract/Model.cpp", "Nastran/NastranParser.cpp"] + WRT, [("model of materials, element sets, loadings", "Abstract/Model.cpp")],
   "Holds for every deck; tests compare a few.",
   "A pure function of the input deck; deciding it needs a semantic model of three solvers and no nondeterminism is involved.")
na("N03", "Coordinate systems are resolved correctly",
   "Positions, loads and displacements given in local (also nested, cylindrical, spherical) coordinate systems are expressed correctly in the output's frame.",
   ["Abstract/CoordinateSystem.cpp"], [("coordinate system chain", "Abstract/CoordinateSystem.cpp")],
   "Holds for every chain of systems; tests compute a few.",
   "Numeric function of the input alone.")
na("N04", "Small-, large- and free-field cards mean the same",
   "A card written in short, long or free field format, with any legal continuation, is read as the same card.",
   ["Nastran/NastranTokenizer.cpp"], [("tokenizer", "Nastran/NastranTokenizer.cpp")],
   "Holds for every card; tests have a few examples.",
   "Pure function of the text; no fault or schedule is involved (read errors inside a card are F02).")
na("N05", "Strict, best-effort and mesh-at-least modes do what they promise",
   "In strict mode an unknown keyword stops the translation, in best-effort mode it is skipped, and in mesh-at-least mode an incompletely understood study is translated as a mesh.",
   ["Nastran/NastranParser.cpp", CL], [("translation mode", "Abstract/ConfigurationParameters.h")],
   "Holds for every deck and keyword.",
   "Pure function of input and options.")
na("N06", "A NASTRAN study survives a round trip",
   "Converting a NASTRAN study to NASTRAN and converting the result again gives an equivalent study.",
   ["Nastran/NastranWriter.cpp", "Nastran/NastranParser.cpp"], [("writer and parser of the same format", "Nastran/")],
   "Holds for every deck.",
   "Pure function of the input; no nondeterminism to simulate.")
na("N07", "Model references are resolved and the model is consistent after finishing",
   "After a model is finished every reference between its objects resolves, superposed constraints are emulated without changing the mechanical problem, and unassigned parts are removed only if nothing refers to them.",
   ["Abstract/Model.cpp"], [("finish, emulation and validation passes", "Abstract/Model.cpp: finish")],
   "Holds for every model.",
   "Pure function of the model built by the parser.")
