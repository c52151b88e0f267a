# executed by gen.py with its globals
TXT, TXTP, BASE = "lib/en_tb/hdl/en_tb_fileio_text_pkg.vhd", "lib/en_tb/hdl/en_tb_fileio_text_private_pkg.vhd", "lib/en_tb/hdl/en_tb_base_pkg.vhd"
prop("H08", "Pipelined VHDL components keep data, metadata and valid aligned for any history",
     "For every sequence of reset and valid inputs, each pipelined rounding, saturation and resize component outputs the correctly processed data together with its own metadata exactly the documented number of clock cycles after the input, and signals valid for exactly the inputs that were valid. "
     "A reset empties the whole pipeline, whatever was in it, and the number of stages is zero, the recommended number, or the full number, according to the selected register mode.",
     ["histories", "configurations", "inputs"], "all input histories within a window longer than the pipeline, all modes, register modes, metadata widths and small formats",
     "The testbenches only call the functions; the clocked components are not simulated by any test.",
     ["hdl/en_cl_fix_round.vhd", "hdl/en_cl_fix_saturate.vhd", "hdl/en_cl_fix_resize.vhd", PKG],
     [("register stage and bypass", "hdl/en_cl_fix_round.vhd"), ("register stage and bypass", "hdl/en_cl_fix_saturate.vhd"), ("composition of the two", "hdl/en_cl_fix_resize.vhd")],
     ["out_valid, out_meta, out_data of the three components"],
     technique="explicit-state model of the pipeline stepped in lock step with the simulated component over de Bruijn input histories (every window of control symbols)",
     state=[("pipeline registers", "valid, metadata and data of each registered stage", "hdl/en_cl_fix_*.vhd")],
     note="Every control window of length 5 (6 thorough) and every window of 3 control x payload symbols occurs; outputs are judged from the first reset on, data and metadata only while valid.")
RTL = [PKG, PRIV, "hdl/en_cl_fix_round.vhd", "hdl/en_cl_fix_saturate.vhd", "hdl/en_cl_fix_resize.vhd"]
prop("H09", "The RTL is VHDL-93 and computes the same when compiled to that standard",
     "The VHDL library in hdl/ is accepted by a strict VHDL-93 compiler, as the documentation promises. "
     "Compiled to that standard, every function and every pipelined component gives the same exact results as the VHDL-2008 build, for every value, format, mode, and input history.",
     ["configurations", "inputs", "histories"], "the language standard x all inputs, formats, modes and histories of H01-H08",
     "The suite compiles everything as VHDL-2008 with GHDL; only another simulator, which is not run, would compile the library as VHDL-93.",
     RTL, [("all functions", PKG), ("formats of the private package", PRIV), ("components", "hdl/en_cl_fix_resize.vhd")],
     ["all public functions and components of the VHDL-93 build"],
     technique="strict VHDL-93 analysis, then bounded exhaustive enumeration of inputs x formats x modes (functions) and of reset/valid/data histories (components) on the VHDL-93 build against the reference model",
     note="GHDL 4.1 (--std=93) stands for the compilers that accept VHDL-93 only; bounds are those of H01-H08.")
prop("H10", "What is synthesized from the VHDL computes what is specified",
     "Every documented function of the VHDL package with static formats and modes, and every pipelined component in every mode and register mode, can be synthesized. "
     "The synthesized circuit gives the exact rounded, saturated and wrapped result for every input pattern, and its pipeline keeps data, metadata and valid aligned for every history of inputs and resets.",
     ["inputs", "configurations", "histories"], "all operand bit patterns of small formats (corner values to 100 bits) x modes x result formats; all control windows of the components",
     "Tests simulate the source only; synthesis interprets loops, metavalues, sensitivity lists and pragmas on its own and is never run.",
     RTL, [("arithmetic, rounding and saturation functions", PKG), ("pipeline stages", "hdl/en_cl_fix_round.vhd"), ("pipeline stages", "hdl/en_cl_fix_saturate.vhd"), ("pipeline stages", "hdl/en_cl_fix_resize.vhd")],
     ["netlists of functions and components"],
     technique="exhaustive simulation of synthesized netlists: every input pattern of every function instance against the reference model, every control window of every component against the pipeline automaton",
     note="ghdl --synth stands for the synthesis tools; assertions (warnings) do not exist in a netlist; components have at least one metadata bit.")
prop("B01", "Python and VHDL are bit-identical for every chain of operations",
     "Applying the same chain of operations with the same formats and modes to the same data gives identical bits in the Python model and in VHDL, for every chain up to the bound, every intermediate format it produces, and data crossing the boundary between narrow and wide representations on the way.",
     ["programs", "inputs"], "all chains of up to three operation instances x start formats x operand values",
     "Co-simulation compares one operation at a time, for a few small formats each.",
     PY + [PKG, PRIV], [("bit-true model", TOP), ("synthesisable functions", PKG)], ["cl_fix_* results in both languages"],
     technique="bounded exhaustive enumeration of operation sequences, differential execution of both real implementations",
     note="Quick tier: all pairs of operation instances and a third of the triples; thorough: all triples. Values only.")
prop("M02", "Every form of an argument gives the same answer in the Python model",
     "The same data, shift counts, selectors, shapes, format components and mode numbers give the same result (values, shape, representation, warning) in every form in which callers and the MATLAB bridge pass them: arrays in any memory order, transposed or read-only, nested sequences, buffers, scalars, integers or floats. "
     "The mode numbers by which MATLAB names rounding and saturation modes mean those modes in Python.",
     ["inputs", "configurations"], "all argument forms of every function x small formats and formats at the representation frontier, all pairs of forms of two operands",
     "The tests pass native arrays only; the bridge passes buffers, floats and Fortran order, and cannot run without MATLAB.",
     [TOP, NARROW, WIDE, TYPES, "bittrue/models/matlab/cl_fix_constants.m"], [("argument normalisation", TOP), ("format and mode constructors", TYPES)], ["cl_fix_* results and warnings", "FixFormat, FixRound, FixSaturate"],
     technique="bounded exhaustive enumeration of argument forms, differential execution of the real implementation against its native form",
     note="Forms outside the domain: Python lists of wide integers, list-valued shift counts, integer data types as narrow data.")
prop("V01", "The Python model refuses every request outside its rules, and only those",
     "Every invalid number format, every result format a rounding or saturation cannot have, every width-less operand of a format function, every integer outside its format, every saturation or rounding mode a function does not support, and every data argument of the wrong type or shape is refused with an exception and returns nothing; every valid request is accepted. "
     "This holds for the functions and for both number classes, for arrays and scalars and wherever in an array the offending value is.",
     ["inputs", "configurations"], "all pairs of small formats and neighbours of formats at the representation frontier, all modes, data types and shapes",
     "The tests use valid requests only.",
     PY + [PYD + "matlab_interface.py"], [("argument checks", TOP), ("argument checks", TYPES), ("argument checks", NARROW), ("argument checks", WIDE)], ["cl_fix_*", "FixFormat", "NarrowFix", "WideFix", "to_uint64_array", "from_uint64_array"],
     technique="bounded exhaustive enumeration of valid and invalid requests, execution of the real implementation against the rule that separates them",
     note="Only requests that the documentation or an assertion rules out are expected to be refused.")
prop("V02", "The VHDL library refuses every request outside its rules, and only those",
     "Every result format a rounding or saturation cannot have (in a function, pipelining query or clocked component), every unsupported saturation mode or relation, every malformed format or mode text, and every read beyond the end of a file, past the last number of a row or from a file that does not exist stops the simulation and returns nothing; every valid request is carried out.",
     ["inputs", "configurations", "histories"], "all pairs of small formats and neighbours of formats at representation frontiers, all modes; all small edits of texts; all small file shapes and read sequences",
     "The test benches use valid requests only, since a refusal ends the simulation.",
     [PKG, PRIV, "hdl/en_cl_fix_round.vhd", "hdl/en_cl_fix_saturate.vhd", TXT, TXTP], [("assertions", PKG), ("text parsing", PRIV), ("file readers", TXT)], ["cl_fix_round", "cl_fix_saturate", "cl_fix_recommended_pipelining", "cl_fix_from_real", "cl_fix_compare", "cl_fix_*_from_string", "read_file", "read"],
     technique="bounded exhaustive enumeration of valid and invalid requests, one simulation of the real code per invalid one, against the rule that separates them",
     note="Missing digits inside a format text, operands whose length does not match their format and numbers that do not fit the type read into are not judged.")
prop("T01", "Every VHDL test bench passes exactly when library and data set agree",
     "On every data set that holds the documented results, whatever its length, order, modes and formats, each co-simulation test bench ends and reports success. "
     "It reports failure whenever a single result in the data set is wrong or missing, whenever a mode, format or shift count in the data set is one that gives other results, and whenever a clocked component puts out one wrong data or metadata bit or loses a valid output, at any sample of any test point and in any register mode.",
     ["inputs", "configurations"], "all single faults of data sets that together contain every mode: wrong values and missing values at every position, list entries, component outputs",
     "The benches are the judges of the regression and nothing judges them: they only ever see a library and data sets that agree.",
     ["tb/cl_fix_%s_tb.vhd" % x for x in ("abs", "add", "addsub", "compare", "from_real", "mult", "neg", "resize", "round", "saturate", "shift", "sub")],
     [("data set against library", "tb/cl_fix_add_tb.vhd"), ("component outputs", "tb/cl_fix_round_tb.vhd"), ("relations", "tb/cl_fix_compare_tb.vhd")], ["exit status and VUnit results of each simulation"],
     technique="bounded exhaustive fault enumeration: one simulation of the real test bench per single fault of a data set or component, against the rule that separates agreement from disagreement",
     note="One fault at a time; results left over at the end of a file, texts that do not fit their format, and outputs during reset are not judged.")
prop("M01", "MATLAB wrappers agree with the Python model",
     "Each MATLAB function returns exactly what the Python function of the same name returns for the same data, formats and modes, for narrow and wide data.",
     ["inputs", "configurations"], "all inputs, formats and modes",
     "The MATLAB tests sample a few values and cannot run without MATLAB.",
     ["bittrue/models/matlab"], [("call forwarding and data conversion", "bittrue/models/matlab")], ["MATLAB cl_fix_* functions"],
     na="The wrappers run only in MATLAB with its Python bridge, which is not installed (nor is Octave with a Python bridge); nothing here can execute them. The Python side of the bridge is decided by N09 (word packing) and M02 (argument forms, mode numbers).")

FFIX = "tb/util/en_cl_fix_fileio_pkg.vhd"
RUN1, RUN2 = "sim/cosim_runner.py", "lib/en_tb/sim/cosim_runner.py"
prop("F01", "VHDL text I/O writes and reads every value exactly, in every base",
     "A value of any data type and width written to a text line or file appears in the chosen base (binary, decimal, hexadecimal) behind whatever the line already holds, and reading text yields exactly the numbers it denotes, in row and column order, with the requested lines skipped. "
     "For every sequence of reads from an open file, each read returns the next line after the lines it was asked to skip and closes the file exactly when asked; line and column counts are those of the file.",
     ["inputs", "histories", "configurations"], "all values x widths x data types x bases x signedness x index ranges; all file shapes; all sequences of reads within the bound",
     "The single testbench round-trips a few vectors per type; decimal values at digit boundaries, wide words, multi-column rows and skip/close combinations are not enumerated.",
     [TXT, TXTP], [("decimal conversion of any width", TXTP), ("typed readers and writers", TXT)], ["read/write on lines and files", "read_file", "write_file", "file size functions"],
     technique="bounded exhaustive enumeration of values, file shapes and read sequences on the real VHDL against an exact text model",
     note="Runs the real packages under GHDL with a stand-in for VUnit. Unsigned decimal text must start with a digit; binary and hexadecimal columns are separated by white space.")
prop("F02", "Fixed-point data and format files exchange losslessly, VHDL and Python",
     "Fixed-point data and formats written to a file by VHDL or by Python are read back unchanged by VHDL (and data by Python) for every format, base, header and number of entries, and rounding and saturation modes exchanged as numbers mean the same mode in both languages. "
     "Reading from an open file follows the requested skip and close options for every sequence of reads.",
     ["inputs", "configurations", "histories"], "all formats within the bound and extreme ones, all values of small formats, boundary values of wide ones, all sequences of reads",
     "Co-simulation files exist for a few small formats only; wide data, negative numbers of bits and option sequences are not exchanged by any test.",
     [FFIX, TOP, TYPES], [("typed wrappers", FFIX), ("format writer", TOP), ("mode numbers", TYPES)], ["cl_fix_read*", "cl_fix_write*", "cl_fix_write_formats"],
     technique="bounded exhaustive enumeration of formats, values and read sequences, cross-language round trips on the real code",
     note="Python writes integer data with numpy.savetxt, as the co-simulation scripts do.")
prop("F03", "VHDL array helpers preserve order and array checks fail iff arrays differ",
     "Flattening an array of any supported element type puts element i at bit position i times the element width, unflattening is its inverse for any index range of the vector, and the number of elements is the total number of bits. "
     "Comparing two arrays or bit vectors with the check procedures fails exactly when they differ in length or in any bit.",
     ["inputs", "configurations"], "all contents of small arrays, every bit of larger ones, all array types, every single-bit and length difference",
     "No test calls these helpers with unequal arrays or checks the bit positions.",
     [BASE], [("flatten / unflatten", BASE), ("array checks", BASE)], ["Flatten", "Unflatten", "Numel", "check_equal"],
     note="Runs the real package under GHDL; VUnit's scalar checks are replaced by a stand-in that stops the simulation.")
prop("S01", "A co-simulation script runs exactly once under any thread schedule",
     "Whatever the interleaving of threads, a co-simulation runner that is asked to run executes its script at most once successfully, no caller continues before that execution has completed, executions do not overlap, and a disabled runner never executes. "
     "Runners constructed concurrently from equally named scripts each get their own script and configuration, failures reach the caller that caused them, and every call returns with the module search path as it was.",
     ["schedules", "fault_sequences"], "all schedules of up to three threads within a preemption bound, at line and at bytecode granularity, with failing runs and broken scripts",
     "Tests run with whatever schedule the operating system happens to choose, usually a single thread.",
     [RUN1, RUN2], [("per-runner lock and double check", RUN1), ("global lock around script loading", RUN1)], ["run", "get_config", "construction"],
     technique="stateless model checking of the real code: depth-first enumeration of all schedules up to a preemption bound under a controlled scheduler",
     state=[("enable", "whether the script is still to be executed", RUN1), ("module search path", "temporarily extended while loading", RUN1)],
     note="Scheduling points: every source line (or bytecode) of the runner and the scripts, and every lock operation. Scenarios with two and three threads.")
prop("S02", "Loading and running co-simulation scripts leaves no trace, for any history",
     "For every sequence of constructing runners (plain, equally named, broken, missing, path-changing scripts), querying configurations and running, each runner executes only its own script with its own global state, once unless it failed, and returns the configuration the script defines or none. "
     "Loading and querying never execute the run function, and the module search path afterwards is what it was plus what the scripts themselves added; working directory, program arguments, environment and loaded modules are as they were.",
     ["histories", "fault_sequences"], "all operation sequences up to the bound",
     "The runner is only used in one fixed order by the run scripts.",
     [RUN1, RUN2], [("temporary extension of the search path", RUN1), ("configuration access", RUN1)], ["run", "get_config", "sys.path"],
     technique="explicit enumeration of all operation sequences up to a depth on the real code against a reference model",
     note="All histories of four (thorough: five) operations over ten kinds of script, executed on the real runners; single-threaded (threads: S01).")
COS = "bittrue/cosim/cosim_utils.py"
prop("C01", "Co-simulation data sets are complete, exact and history-independent",
     "Running a co-simulation script leaves in its data directory, for every combination of the formats and modes it lists, exactly the files its test bench reads: one entry per test point in each format and mode list, and in each result file the exact result for every operand value (or pair of values) in the order in which the test bench applies them. "
     "The outcome is the same whatever the directory held before (missing, stale, nested content), run as a script or through the runner, and nothing outside it changes; the shared helpers enumerate every value of a format in counting order, repeat arrays as named and report progress up to completion exactly once.",
     ["histories", "inputs", "configurations"], "all 13 scripts, every test point and every line of every file; all contents of the directory within the bound; helpers over all small formats, lengths and counts",
     "The scripts are the tests' own oracle: a wrong or stale expected value is only noticed if the VHDL disagrees, missing test points never are, and tests start from an empty directory.",
     [COS, "bittrue/cosim/*/cosim.py", "lib/en_tb/bittrue/cosim/en_tb_fileio/cosim.py", TOP], [("directory reset, operand generation, repetition", COS), ("format lists", TOP), ("test-point loops", "bittrue/cosim/*/cosim.py")],
     ["files below each data directory", "get_data", "repeat_each_value", "repeat_whole_array", "clear_directory", "ProgressReporter"],
     technique="exhaustive execution of the real scripts from every listed directory state; every test point compared with the reference model",
     note="Scripts run in a scratch copy with file-system changes outside it refused by an audit hook. What ranges a script lists is its own choice; all combinations within them must be present.")
RS, RE = "sim/run.py", "lib/en_tb/sim/run.py"
prop("R01", "Run scripts set up every test bench right for every option and environment",
     "For every combination of simulator, command-line options and environment variables, the run scripts register every test bench with exactly its intended configurations (name and generics agree, none twice), and each configuration prepares the data of its own test bench, once however many configurations share it and in whatever order they are prepared, and not at all when co-simulation is disabled. "
     "A missing or unknown simulator or a missing path is refused before anything is set up; otherwise the selected simulator, its path, its VHDL standards, coverage and flow options are the ones used, whether given as option or by environment (options win), and coverage is collected after the run exactly when asked for.",
     ["configurations", "histories"], "all simulators and unknown names x option/environment/both x path x co-simulation x coverage x GUI x existing library x number of test sets; rotations and swaps of the preparation order",
     "The tests run the scripts with one simulator and one set of options.",
     [RS, RE, "sim/common.py", "lib/en_tb/sim/common.py", RUN1, RUN2], [("registration of configurations", RS), ("options and environment", "sim/common.py")],
     ["tests, generics and callbacks registered with VUnit", "VUNIT_* variables", "source files and standards", "simulator options"],
     technique="exhaustive enumeration of option and environment combinations on the real scripts against a reference model of the registration, with a recording stand-in for VUnit tied to the real one by the list of tests",
     note="Real VUnit and GHDL are run once per suite (--list) to confirm that the stand-in registers the same tests. Simulators other than GHDL are not started; their settings are judged.")
prop("S03", "The Python model gives every thread what it would get alone",
     "Whatever the interleaving of two threads that call the Python model's functions, methods and operators, also on the same data, number objects and format objects and from the very first call after import, each call returns exactly the result and raises exactly the warnings it would have alone, and operands and formats are unchanged.",
     ["schedules", "inputs"], "all line-level schedules of any two calls of the menu within a preemption bound, starting from a freshly imported package",
     "Co-simulation scripts run the model from VUnit's worker threads; tests run with whatever schedule the operating system happens to choose.",
     PY + [PYD + "matlab_interface.py"], [("no state shared between calls", TOP), ("no state shared between calls", NARROW), ("no state shared between calls", WIDE), ("no state shared between calls", TYPES)], ["cl_fix_*", "FixFormat", "NarrowFix", "WideFix", "to_uint64_array", "from_uint64_array"],
     technique="stateless exploration of the real code: all thread schedules up to a preemption bound under a controlled scheduler, each from the state after import",
     state=[("package state", "globals, class and function attributes and containers of the package, reset before every schedule", "bittrue/models/python/en_cl_fix_pkg")],
     note="Quick: one preemption at any source line for 644 pairs of calls; thorough: all pairs of 69 calls, two preemptions and bytecode granularity for pairs of the same operation. Random values are judged by range only.")
prop("N10", "Generated Python data are valid, complete and unbiased",
     "Every element of generated random data is a value of the requested format in the representation of that format, in the requested shape; every value of the format, the extreme ones included, can be generated at every position, equally often and independently of the other elements, at any width. Generated zeros are zero in every format and shape.",
     ["fault_sequences", "inputs"], "all sequences of choices of the random generators for small formats and arrays, boundary choices for formats of any width",
     "Random data only drive the tests; no test asks which numbers can occur.",
     [TOP], [("random data", TOP), ("zeros", TOP)], ["cl_fix_random", "cl_fix_zeros"],
     technique="exhaustive exploration of the choice tree of the real code: the random generators are replaced by a chooser that enumerates every outcome, with exact probabilities",
     note="Covers the generators of numpy and of Python's random module; a generator of another origin leaves only the validity of results judged.")
