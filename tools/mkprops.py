#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording is reviewed in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "A returned operating point solves the circuit, whatever the solver met",
  "Every operating point the simulator returns satisfies the equations of the circuit that was asked for - all its elements, with every independent source at its full specified value - to within the configured tolerances, no matter which starting guess, convergence aid, matrix back end or option setting was used and which linear solves failed on the way. If no such point can be found the analysis reports failure instead of returning other numbers. A solver failure that only hits some of the enabled convergence aids does not prevent a solvable circuit from being solved. What is reported along with a point - voltage, current, power, charge or flux of each resistor, capacitor, inductor and independent source, and the total power dissipation - is that of the point.",
  ["inputs", "configurations", "fault_sequences"],
  "for every circuit of resistors, inductors, capacitors, independent and controlled sources, diodes, switches and MOS transistors; every option setting, guess and x0; every pattern of failing linear solves and Newton failures",
  "The tests solve about 40 fixed circuits with default options; none makes a solve fail at a chosen point, so gmin stepping, source stepping, the sparse back end and the give-up paths are reached rarely or never.",
  ["ahkab/dc_analysis.py", "ahkab/dc_guess.py", "ahkab/utilities.py", "ahkab/circuit.py", "ahkab/components/", "ahkab/diode.py", "ahkab/switch.py", "ahkab/results.py"],
  [("Newton loop and convergence check", "dc_analysis.mdn_solver, utilities.convergence_check"),
   ("standard / gmin stepping / source stepping ladder", "dc_analysis.dc_solve, set_next_solve_method"),
   ("solve with Gmin, then without", "dc_analysis.op_analysis")],
  ["op result returned by run(): values per variable, or None"])

p("C02", "A DC sweep reports exactly the requested points, and leaves the source alone",
  "A DC sweep returns one row per requested sweep value, in order and with both end values included, and each row is the operating point of the circuit with the swept source set to exactly that value. A value whose solution fails is left out (or, when skipping is disabled, ends the sweep as a failure); no other row is lost, repeated or altered by that. After the sweep - completed, failed, or aborted by an exception or interrupt at any instant - the swept source has its original value again.",
  ["inputs", "configurations", "fault_sequences", "crash_points"],
  "for every circuit, swept source, linear or logarithmic grid (also descending), every set of sweep points whose solution fails, and every instant at which an exception or interrupt strikes",
  "Tests sweep a handful of circuits once, without failing points, and never look at the circuit after an aborted sweep.",
  ["ahkab/dc_analysis.py", "ahkab/utilities.py", "ahkab/results.py", "ahkab/ahkab.py"],
  [("sweep loop, skip-or-stop decision and restore of the source value", "dc_analysis.dc_analysis"),
   ("sweep grid", "utilities.lin_axis_iterator / log_axis_iterator")],
  ["dc result returned by run()", "dc value of the swept source after the analysis"])

p("C03", "A transient result covers the requested interval or is reported as failed",
  "A transient analysis that reports success returns strictly increasing time points that start after the requested start time, never advance by more than the requested step, and reach the requested stop time - exactly with step control, and with the requested uniform step without it. If it cannot get there (repeated non-convergence, step below the minimum, iteration limit), it reports failure rather than returning a truncated waveform as a success. With step control on, a few transient solver failures do not prevent the analysis of a well-posed circuit with smooth excitation from completing.",
  ["inputs", "configurations", "fault_sequences"],
  "for every circuit, interval, step, integration method, step-control setting and every pattern of failed or rejected time steps",
  "Tests run a few transients in which steps practically never fail; the rejection, retry and give-up branches are not exercised at chosen instants.",
  ["ahkab/transient.py", "ahkab/dc_analysis.py", "ahkab/trap.py", "ahkab/gear.py", "ahkab/implicit_euler.py"],
  [("time loop, a-posteriori rejection and step reduction", "transient.transient_analysis, check_step"),
   ("history buffer", "transient.dfbuffer")],
  ["tran result returned by run(): time column, or None"])

p("C04", "A transient waveform is the true response, whatever steps were rejected",
  "On the time points it reports, a transient result equals - to within solver tolerances - what the requested integration method yields on those points from the requested initial state, independently of how many steps were tried, rejected, or had failing solves in between. With step control active the result of a linear, damped circuit also stays as close to its exact response as local errors of the configured tolerance per step allow. Initial capacitor voltages and inductor currents requested by the user are honoured at the start, for every polarity and grounding of the element.",
  ["inputs", "configurations", "fault_sequences"],
  "for every linear or nonlinear circuit, excitation, initial state, integration method, step-control setting and every pattern of failing solves or rejected steps",
  "Tests compare five fixed circuits to stored waveforms with loose tolerances and without injected failures; the initial-condition code is exercised by one element orientation only.",
  ["ahkab/transient.py", "ahkab/trap.py", "ahkab/gear.py", "ahkab/implicit_euler.py", "ahkab/dc_analysis.py", "ahkab/ahkab.py"],
  [("differentiation formulas and local-error estimate", "trap.get_df, gear.get_df, implicit_euler.get_df"),
   ("step control", "transient.transient_analysis"),
   ("initial conditions", "dc_analysis.modify_x0_for_ic, build_x0_from_user_supplied_ic")],
  ["tran result returned by run()", "initial state objects returned by new_x0 / icmodified_x0"])

p("C05", "An AC sweep gives the exact phasors at the requested frequencies, or fails",
  "A successful AC analysis returns, at every frequency of the requested grid (both ends included), the complex solution of the circuit linearised at its operating point, the same whichever matrix back end, result accessor or phase unit setting is in use. If the solution at any frequency, or the linearisation point, cannot be computed, the analysis reports failure.",
  ["inputs", "configurations", "fault_sequences"],
  "for every circuit, linear or logarithmic grid, matrix-size and phase-unit setting, and every position at which a solve fails",
  "Tests compare seven circuits to stored curves with default options and no failing solve.",
  ["ahkab/ac.py", "ahkab/dc_analysis.py", "ahkab/results.py", "ahkab/utilities.py"],
  [("frequency loop", "ac.ac_analysis"), ("magnitude/phase storage and complex reconstruction", "results.ac_solution")],
  ["ac result returned by run()"])

p("C06", "A periodic steady state really is periodic and belongs to the circuit",
  "Each periodic steady state the simulator reports for a circuit with periodic excitation repeats after exactly one period and agrees with the state a long enough transient of the same circuit settles to, for every available method, point count and start vector and whatever solves failed on the way. Otherwise the analysis reports failure.",
  ["inputs", "configurations", "fault_sequences"],
  "for every stable circuit driven with the given period, both methods, any number of points, any start vector, and any pattern of failing solves",
  "Three tests cover one circuit each for one method and no failure; the brute-force method's test is broken in this environment.",
  ["ahkab/shooting.py", "ahkab/bfpss.py", "ahkab/pss.py", "ahkab/transient.py"],
  [("shooting Newton iteration", "shooting.shooting_analysis"), ("brute-force collocation", "bfpss.bfpss")],
  ["pss result returned by run()"])

p("C07", "A killed simulation leaves every accepted point, and only those, on disk",
  "At every instant of a sweep or transient that saves to a file, the bytes on disk are a header followed by exactly the rows of the points accepted so far, in order - a process killed at any moment loses at most the point being written, and the complete rows that remain are a prefix of what the undisturbed run would have produced. A new analysis never mixes its rows with those of an older file of the same name.",
  ["crash_points", "inputs", "histories"],
  "for every analysis that streams rows (DC, AC, transient), every crash point between and inside its file operations, every torn final write, and every stale content of the output file",
  "No test kills a simulation; result files are only compared after normal completion.",
  ["ahkab/csvlib.py", "ahkab/results.py", "ahkab/transient.py", "ahkab/dc_analysis.py", "ahkab/ac.py"],
  [("append-per-row writer", "csvlib.write_csv"), ("first-write/append switch", "results._mutable_data")],
  ["the result file in the file system"])

p("C08", "A disk error is never turned into silently missing or wrong results",
  "If writing or reading result data fails at any operation - open error, full disk, I/O error, short write - the caller gets an exception from that analysis or access, or the data is complete and correct nonetheless. No analysis reports success with rows missing or damaged, and no accessor returns a default, a missing key or different numbers because the medium failed. After the fault has cleared, repeating the analysis gives the correct result.",
  ["fault_sequences", "inputs"],
  "for every analysis and accessor, every file operation at which an error or short transfer can strike, transient or persistent",
  "No test injects an I/O error.",
  ["ahkab/csvlib.py", "ahkab/results.py", "ahkab/printing.py", "ahkab/ahkab.py"],
  [("file open/flush/close helpers", "csvlib._get_fp, _close_fp"), ("accessors mapping load errors to KeyError or default", "results.solution.__getitem__, get")],
  ["exceptions seen by the caller", "values returned by result objects"])

p("C09", "Result objects return what was computed, however they are accessed",
  "For every result object, all ways of reading it - by name in any case, get, items, keys, values, iteration, array conversion, x axis - agree with each other and with the computed values, in any order and interleaving of accesses, including several iterations of the same object in progress at once. Unknown names are refused with KeyError or the given default. Reading never changes what later reads return.",
  ["histories", "schedules", "inputs"],
  "for every kind of result and every interleaving of accessor calls and partially consumed iterators",
  "Tests read each result once or twice in a straight line; they never interleave two iterations or mix accessors.",
  ["ahkab/results.py", "ahkab/csvlib.py"],
  [("accessors and iterator state", "results.solution and subclasses"), ("header lookup", "csvlib.get_headers_index")],
  ["values returned by result objects"])

p("C10", "Results depend only on circuit, request and settings, not on what ran before",
  "Running an analysis gives the same result, to within solver tolerances, as running it first thing in a fresh process with the same circuit, request, temperature and options, whatever analyses (successful, failed or aborted), circuits, temperature changes or netlist decks came before it in the process. Running analyses does not change the circuit, the analysis request objects, the supplied start vectors, or any option. Results already handed out do not change when further analyses run, unless they were directed to the same named file.",
  ["histories", "inputs", "fault_sequences"],
  "for every sequence of operations on any number of circuits in one process, with failures and aborts at arbitrary positions in it",
  "The test runner gives each test file its own process precisely because state leaks between tests; no test compares a result against a fresh process after an arbitrary history.",
  ["ahkab/ahkab.py", "ahkab/dc_analysis.py", "ahkab/transient.py", "ahkab/diode.py", "ahkab/switch.py", "ahkab/mosq.py", "ahkab/ekv.py", "ahkab/utilities.py", "ahkab/results.py"],
  [("module-level queue and stored operating points", "ahkab._queue, ahkab._run"), ("device memo caches and remembered states", "utilities.memoize, diode.last_vd, switch.is_on"), ("copy of analysis descriptions", "ahkab.run, ahkab.queue")],
  ["results of run() and main()", "circuit elements, request dictionaries and options before and after"])

p("C11", "Simulations in concurrent threads do not disturb each other",
  "When several threads each simulate a circuit of their own, with their own analysis requests, every thread obtains exactly the results it would have obtained running alone, under every interleaving of the threads. This includes a transient started from the operating point computed in the same request list.",
  ["schedules", "inputs"],
  "for every set of circuits and analysis lists in two or three threads and every thread schedule at line granularity",
  "No test uses threads.",
  ["ahkab/ahkab.py", "ahkab/transient.py", "ahkab/gear.py", "ahkab/printing.py", "ahkab/utilities.py", "ahkab/csvlib.py", "ahkab/results.py"],
  [("hand-over of the computed operating point to later analyses", "ahkab.run, ahkab._run"), ("integration methods and their order", "transient.transient_analysis, gear.Gear")],
  ["results obtained in each thread"])

p("C12", "An interrupt at any instant leaves the simulator usable and the circuit intact",
  "If an analysis is interrupted by the user at any instant, the interrupt reaches the caller, the circuit has the element values it had before, the numerical print settings and the options are as before, and any later analysis of the same circuit gives the same result, to within solver tolerances, as if the interrupted one had never been started. No file handle stays open.",
  ["crash_points", "inputs", "histories"],
  "for every analysis, circuit and every executed line at which the interrupt can strike, also several interrupts in a row",
  "No test interrupts an analysis.",
  ["ahkab/dc_analysis.py", "ahkab/transient.py", "ahkab/printing.py", "ahkab/csvlib.py", "ahkab/diode.py", "ahkab/ahkab.py", "ahkab/transient.py"],
  [("temporary change of the swept source", "dc_analysis.dc_analysis"), ("temporary change of print options", "printing.printoptions"), ("temporary change of a diode model parameter", "diode.diode_model._obj_irs_prime")],
  ["exception seen by the caller", "circuit state, print options, open files, later results"])

p("C13", "Queued and listed analyses run exactly once each, in order, on the given circuit",
  "Every analysis that was queued or listed runs exactly once, in order, on the circuit given, and its result is returned under its type; requests are taken as they were when queued, later changes to them have no effect. If one queued analysis fails with an exception, the ones queued after it are neither lost nor run twice: they remain queued and run at the next request; a list given to run() directly ends with the exception and leaves the queue alone. An analysis that asks to start from the operating point uses the one computed just before it for the same circuit.",
  ["histories", "fault_sequences", "inputs"],
  "for every history of queue, run and request-modification calls over several circuits, with failures injected in any analysis",
  "Tests run fixed lists without failures and almost never use the queue.",
  ["ahkab/ahkab.py"],
  [("queue and run loop", "ahkab.queue, ahkab.run"), ("operating point hand-over", "ahkab._run, ahkab._handle_netlist_ics")],
  ["results of run()", "analyses observed to run"],
  state=[("_queue", "analyses waiting to be run", "ahkab/ahkab.py"), ("_queue_left", "start vectors of an unfinished run of the queue", "ahkab/ahkab.py")])

p("C14", "A netlist means the same however its bytes arrive, and read errors surface",
  "A deck yields the same circuit and analyses whether it is read from a file, from standard input, from a symbolic link or another directory, with any line-ending style, split into continuation lines, or distributed over included files, and in whatever sizes the reads deliver it. A missing file, failing read or truncated subcircuit is reported as an error; no partial circuit is returned. Reading a netlist leaves no file open.",
  ["inputs", "fault_sequences", "configurations"],
  "for every deck, every way of splitting and delivering it, and every read or open operation that fails",
  "Tests parse about 35 decks from plain files only, without includes, standard input or errors.",
  ["ahkab/netlist_parser.py", "ahkab/ahkab.py", "ahkab/__main__.py"],
  [("file and standard-input reader, include handling, line joining", "netlist_parser.parse_circuit, join_lines")],
  ["circuit and analysis list returned by the parser", "exceptions", "open file handles"])

p("C15", "The simulator cleans up its temporary files and touches no other file",
  "When no output file is named, every file a simulation creates is gone after the interpreter exits, normally or by exception, and the results stay readable until then. When an output file is named, only files with that name plus a documented suffix are created or changed. No other file, in particular none in the working directory, is created, changed or removed.",
  ["histories", "inputs", "fault_sequences"],
  "for every sequence of analyses with and without named output, in every working directory, with failures and interrupts in it",
  "No test looks at left-over files.",
  ["ahkab/ahkab.py", "ahkab/results.py", "ahkab/shooting.py", "ahkab/printing.py", "ahkab/csvlib.py"],
  [("temporary file creation and exit hooks", "ahkab.new_op and the other new_* functions"), ("inner transient of the shooting method", "shooting.shooting_analysis")],
  ["file system before, during and after the process"])

p("C16", "Results sent to standard output are complete and contain nothing but results",
  "When results are directed to standard output, the stream carries exactly the header and the rows of the analysis, in order and complete - readable as the same table the file output would hold - with no progress indication, warning or error text mixed in, also when points fail or convergence aids are used on the way. Diagnostics go to standard error. A closed or failing output stream is reported and does not corrupt later results.",
  ["inputs", "configurations", "fault_sequences"],
  "for every streaming analysis, circuit and pattern of failing points or solver failures, and every failing or short write of the stream",
  "No test captures standard output.",
  ["ahkab/csvlib.py", "ahkab/results.py", "ahkab/dc_analysis.py", "ahkab/transient.py", "ahkab/ac.py", "ahkab/printing.py", "ahkab/__main__.py"],
  [("silencing when the output file is stdout", "verbose = 0 in each analysis"), ("stdout handling of the writer", "csvlib._get_fp, _close_fp")],
  ["bytes on the process's standard output"])

p("C17", "The same run gives the same bytes on every machine state",
  "Two processes simulating the same circuit with the same requests and settings compute bit-identical numerical results, and equal symbolic results, whatever the hash seed, wall-clock time, time zone, process id, working directory, temporary-file names or file-system listing order. Only time stamps and file names in reports may differ.",
  ["schedules", "configurations", "inputs"],
  "for every circuit and analysis list (symbolic and pole-zero included), over all hash seeds, clock readings (also jumping ones) and environments",
  "Tests always run with one hash seed and compare numbers with tolerances.",
  ["ahkab/symbolic.py", "ahkab/pz.py", "ahkab/results.py", "ahkab/circuit.py", "ahkab/ahkab.py", "ahkab/transient.py"],
  [("ordered element and variable traversal", "circuit.Circuit, results.*"), ("symbol handling", "symbolic.symbolic_analysis")],
  ["numerical result files", "symbolic result expressions"])

p("C18", "A saved symbolic result is either the whole result or an error",
  "Loading a saved symbolic result returns exactly the expressions, variables and metadata that were computed, in any later process. If the save was cut short by a crash, a full disk or an I/O error, the save or the load reports an error; a damaged or partial result is never returned, and re-saving repairs it.",
  ["crash_points", "fault_sequences", "inputs"],
  "for every symbolic result (plain and transfer function), every crash point and torn write of the save, and every failing read",
  "One test round-trips one result without faults.",
  ["ahkab/results.py", "ahkab/symbolic.py"],
  [("pickle save and load", "results.symbolic_solution.save, load")],
  ["object returned by load, exceptions"])

p("C19", "Pole-zero analysis reports exactly the finite singularities, wherever it expands, or fails",
  "The poles reported are all the finite natural frequencies of the circuit linearised at the given point, and no others; with an input source and an output port, the zeros are all the finite zeros of that transfer and no others (a zero that coincides with a pole may be left out). This holds whatever shift was requested and however often the analysis moved its expansion frequency by itself, for coupled inductors, controlled sources and nonlinear circuits, for capacitor loops and transfers with no zeros, and for every documented way to name the ports. An inversion or an eigenvalue iteration that fails on the way ends in an error or is recovered from, never in wrong, missing or invented singularities; a well-posed circuit is not refused, and the matrices handed in are not changed.",
  ["inputs", "configurations", "fault_sequences"],
  "for every circuit, input, port, shift and linearisation point, and for every failure of an inversion or eigenvalue iteration on the way",
  "Three tests compare stored values on three linear circuits; none forces a change of the expansion point or a failure.",
  ["ahkab/pz.py", "ahkab/ahkab.py", "ahkab/results.py", "ahkab/dc_analysis.py", "ahkab/transient.py"],
  [("time-constant matrices and expansion point", "pz.calculate_singularities"), ("poles only", "pz.calculate_poles")],
  ["pz result (poles, zeros, named access)", "exceptions"])

p("C20", "Symbolic results are those of the circuit, whatever the symbol order, formulation and solver failures",
  "Every expression of a symbolic solution, evaluated at any element values and frequency, is the corresponding node voltage or branch current of that circuit; every transfer function, its DC gain, poles and zeros are those of the circuit from that source. All unknowns and, if a source is named, all transfers are present, and depend only on the circuit's elements. This holds for every hash order of the symbols, with any part of the elements kept numeric, with substitutions, in the resistance and the conductance formulation, with either solver, and whatever names nodes and elements share. If the algebraic solver fails or the analysis is interrupted the call fails, and a repetition is right.",
  ["inputs", "configurations", "schedules", "fault_sequences"],
  "for every linear or small-signal circuit the analysis accepts, every request and formulation, every ordering of symbols, and every failing call of the solver",
  "Tests compare a few circuits with stored expressions under one hash seed, all elements symbolic.",
  ["ahkab/symbolic.py", "ahkab/ahkab.py", "ahkab/results.py", "ahkab/components/Inductor.py"],
  [("symbolic MNA and solution", "symbolic.generate_mna_and_N, symbolic_analysis"), ("transfer functions", "symbolic.calculate_gains, get_roots"), ("substitutions", "symbolic._parse_substitutions")],
  ["symbolic results (expressions evaluated at numbers, poles, zeros)", "exceptions"])

# --- properties this technique cannot decide (pure functions of their input)
p("N01", "Device laws: currents match the documented equations, derivatives match currents",
  "Every semiconductor device model returns the documented current for its terminal voltages, temperature and parameters, and its conductances are the derivatives of that current.",
  ["inputs"], "for every parameter set and bias point",
  "Tests sample a few bias points.",
  ["ahkab/diode.py", "ahkab/mosq.py", "ahkab/ekv.py", "ahkab/switch.py", "ahkab/components/TunnelJunction.py"],
  [("model equations", "get_i/get_ids/get_gm functions")], ["element i() and g()"])
p("N04", "Fourier and FFT post-processing is exact",
  "Fourier coefficients, windowed spectra and distortion figures match their definitions for every waveform, window and format.",
  ["inputs"], "for every waveform and setting", "Tests check a few waveforms (one is broken here).",
  ["ahkab/fourier.py"], [("resampling and FFT", "fourier.fourier, spicefft")], ["returned arrays"])
p("N05", "Source waveforms match their definitions at every time",
  "Pulse, sine, exponential, SFFM, AM and piecewise-linear sources return the defined value at every time, including breakpoints and repetitions.",
  ["inputs"], "for every parameter set and time", "Tests sample a few points.",
  ["ahkab/time_functions.py"], [("time functions", "time_functions.*.__call__")], ["returned value"])
p("N06", "Netlist text and circuit objects correspond one to one",
  "Every element, model and directive line is parsed to exactly the element it denotes, unit suffixes included, and printing a circuit and parsing it again yields the same circuit.",
  ["inputs"], "for every netlist line", "Tests parse fixed decks and a sample of suffixes.",
  ["ahkab/netlist_parser.py", "ahkab/circuit.py"], [("line parsers", "netlist_parser.parse_elem_*, convert_units")], ["parsed circuit"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fp:
    for q in P:
        fp.write(json.dumps(q, ensure_ascii=True) + "\n")
