#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json: one place for what is claimed and what is not."""
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

PROPS = []
NOT = []


def prop(pid, title, statement, over, text, why, files, mechanism, observe, note=None,
         technique=None, state=()):
    item = {"id": pid, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files, "state": [
                {"name": a, "meaning": b, "where": c} for a, b, c in state],
                "mechanism": [{"name": a, "where": b} for a, b in mechanism],
                "observe_at": observe, "hook_needed": None}}
    assert len(title) <= 80, title
    PROPS.append((item, note, technique))


def na(pid, title, statement, text, why, files, mechanism, observe, reason):
    prop(pid, title, statement, ["inputs"], text, why, files, mechanism, observe)
    NOT.append({"property": pid, "reason": reason})


F, G, D, M, R, E = ("bfit/fit.py", "bfit/greedy.py", "bfit/density.py", "bfit/model.py",
                    "bfit/grid.py", "bfit/measure.py")
S, U = "bfit/_slater.py", "bfit/parse_ugbs.py"

prop("C01", "Concurrent calls in several threads do not disturb each other",
     "When several threads of one process call the library at the same time, on separate objects or "
     "sharing grids, densities, models, measures, atoms and (non-greedy) fit objects, each call "
     "returns exactly what it returns when made alone in a fresh process. This holds for every "
     "interleaving; a greedy fit object belongs to one thread at a time, but may run next to other "
     "fits on the same grid and density.",
     ["schedules", "inputs"],
     "all interleavings at source-line or bytecode granularity of 2-3 threads with 1-3 calls each "
     "of every public operation, on all kinds of shared objects",
     "No test starts a thread; only a controlled scheduler can choose the interleavings.",
     [F, M, R, E, D, S, U, G],
     [("evaluation works on local arrays only", "bfit/model.py evaluate, bfit/measure.py evaluate"),
      ("fits keep the running parameters in local variables", "bfit/fit.py run"),
      ("atoms are read into the object, no shared cache", "bfit/_slater.py load_slater_wfn")],
     ["return values and exceptions of every public call"],
     "Seeded search: each run is one exactly repeatable interleaving. Trusts that numpy and scipy "
     "themselves are thread safe; preemption happens at bytecode boundaries of the package.",
     "deterministic simulation: seeded thread scheduler over real threads, results compared with "
     "isolated executions",
     [("parameters of a running fit", "local to the call", "bfit/fit.py run")])

prop("C02", "A call that is cut short leaves every object as good as new",
     "When a call is cut short at any point, by Ctrl-C, MemoryError, SystemExit, an exception from a "
     "user-supplied grid, measure or model, or a failing write to stdout or read of a data file, "
     "that very exception reaches the caller. All later calls on the same and on shared objects "
     "give the same results as on freshly constructed objects.",
     ["crash_points", "fault_sequences", "histories"],
     "exceptions at any source line or bytecode of the package and at the n-th call of every "
     "plug-in or I/O operation, in any public call, followed by any calls on the surviving objects",
     "The tests never interrupt a call; the number of interruption points per call is in the "
     "thousands.",
     [F, G, M, D, S],
     [("fits write nothing to the object while running", "bfit/fit.py run"),
      ("a greedy run starts from the size the object was built with", "bfit/greedy.py run"),
      ("files are closed by with statements", "bfit/_slater.py, bfit/parse_ugbs.py")],
     ["exceptions seen by the caller", "results of later calls"],
     "Seeded enumeration of crash points at line and bytecode granularity. Points on with-headers "
     "and inside finally/except clauses are left out.",
     "deterministic simulation: crash and fault injection at seeded points, survivors compared with "
     "fresh objects",
     [("size of the greedy model", "number of s and p functions of the fit in progress",
       "bfit/greedy.py run")])

prop("C03", "The caller's data and the settings of the process stay untouched",
     "No call of the library, whether it succeeds, is refused or is cut short at any point, changes an "
     "array or list that the caller handed over (grid points, densities, weights, coordinates, "
     "initial parameters, extra choices) or a process-wide setting: numpy error state and print "
     "options, warning filters, working directory, environment, locale, signal handlers, random "
     "streams, standard streams, data files, recursion limit. Greedy fits are allowed to draw from "
     "numpy's global random stream.",
     ["inputs", "crash_points", "histories"],
     "all public operations with any valid or refused arguments and memory layouts, ended at any "
     "point, in any order",
     "The tests check returned values, not the arguments afterwards, and never after a failure.",
     [F, G, M, R, E, D],
     [("numpy error state is only changed inside a context manager", "bfit/measure.py evaluate"),
      ("parameters are copied before they are updated", "bfit/fit.py run"),
      ("files are opened for reading only", "bfit/_slater.py, bfit/parse_ugbs.py")],
     ["bytes of every array handed over", "process-wide settings"],
     "Seeded search over calls, endings and crash points; byte-for-byte comparison.",
     "deterministic simulation: fault injection with byte snapshots of caller data and process state")

prop("C04", "A stopped, killed or resumed fixed-point fit continues its exact course",
     "A Kullback-Leibler fixed-point fit of n iterations reaches the same parameters and the same "
     "per-iteration history when it is stopped at any iterations, killed at any point or interrupted "
     "by an exception, and continued from the last returned (checkpointed) coefficients and "
     "exponents, on the same object, a new object or in a new process. A run with a lower iteration cap or "
     "with looser thresholds is a prefix of the longer run.",
     ["crash_points", "histories", "inputs"],
     "all cuts of a fit into segments, all ways and points of dying between checkpoints, all "
     "option flags, models, grids and starts",
     "The tests run every fit once, from start to end, in one process.",
     [F],
     [("an update depends on the current coefficients and exponents only",
       "bfit/fit.py KLDivergenceFPI._update_params"),
      ("history of coefficients, exponents and errors per iteration",
       "bfit/fit.py KLDivergenceFPI.run")],
     ["returned coefficients, exponents and performance rows"],
     "Seeded crash points and schedules of segments; exact comparison of rows up to rounding.",
     "deterministic simulation: kill/interrupt/restart schedules compared with the uninterrupted "
     "run")

prop("C05", "Fixed-point fits conserve the electrons and never increase the divergence",
     "In every iteration of a Kullback-Leibler fixed-point fit that updates the coefficients of a "
     "normalised model, the coefficients add up to the number of electrons asked for (by default the integral "
     "of the density, as the grid in use defines it). With non-negative weights and a model that is positive "
     "on all points, the divergence never increases from one iteration of equal electron number to the next, and "
     "coefficients and exponents stay non-negative. The divergence and integrals reported for each iteration are "
     "those of the parameters of that iteration.",
     ["inputs", "histories"],
     "all densities, models (s and p, one or several centres), grids with non-negative weights and "
     "starts; all sequences of coefficient-only, exponent-only and joint segments",
     "The tests look at a few converged fits of 1-2 functions; the invariant is about every "
     "intermediate iterate.",
     [F, M, E, R],
     [("Lagrange multiplier from density and electron number",
       "bfit/fit.py KLDivergenceFPI.lagrange_multiplier"),
      ("ratio of density and model under the integral",
       "bfit/fit.py KLDivergenceFPI._update_params"),
      ("reported errors", "bfit/fit.py goodness_of_fit")],
     ["performance rows, coefficients and exponents of every iteration"],
     "Invariants recomputed with independent Gaussian formulas in extended precision at every "
     "iteration of seeded runs.",
     "deterministic simulation: seeded update schedules with restarts, invariants on every "
     "iteration")

prop("C06", "A fixed-point fit reports honestly how it ended, whatever integration does",
     "Even if the grid's integration returns NaN, infinite, zero, wrongly scaled or negative values or "
     "raises at any call, a Kullback-Leibler fixed-point fit ends within its iteration cap with one history row "
     "per iteration (the last row being that of the returned parameters), or raises the integrator's exception. A fit has converged once "
     "the divergence changed by no more than its threshold, or both the coefficients and the exponents did: success is reported only if "
     "it has converged to finite parameters, and stops before its cap only when it has converged (which is then reported as success) or broken down.",
     ["fault_sequences", "inputs"],
     "all sequences of integration faults at any calls, all thresholds, caps, flags, models",
     "No test feeds a fit a failing integrator; convergence reports are sampled on well-behaved "
     "problems.",
     [F],
     [("stopping conditions and iteration counter", "bfit/fit.py KLDivergenceFPI.run"),
      ("success flag", "bfit/fit.py KLDivergenceFPI.run")],
     ["success flag, history length, last row, exceptions"],
     "Judged against lower-cap executions of the same faulty run and recomputed thresholds.",
     "deterministic simulation: integrator fault injection, report checked against a reference "
     "model of the stopping rule")

prop("C07", "Optimizer fits pose the right problem and report exactly its outcome",
     "A scipy-based fit hands the optimizer the start it was given, positivity bounds for every "
     "optimised parameter, the weighted integral of the chosen measure with its true gradient, and the electron-number constraint exactly when asked "
     "for. Whatever the optimizer then does (succeed, stop early, fail, return NaN, raise), the returned "
     "coefficients, exponents, objective, gradient, message, success flag and performance are those of "
     "what the optimizer delivered, parameters held fixed keep their values, a failure is announced by a warning, and exceptions pass through.",
     ["fault_sequences", "inputs", "histories"],
     "all optimizer outcomes in consecutive fits on one object; all measures, weights, models, "
     "grids, methods, flags",
     "The tests only see an optimizer that succeeds on easy problems.",
     [F, E, M, R],
     [("objective and gradient", "bfit/fit.py ScipyFit.func"),
      ("constraint", "bfit/fit.py ScipyFit.const_norm"),
      ("fixed parameters", "bfit/fit.py ScipyFit.evaluate_model"),
      ("bounds, options, results", "bfit/fit.py ScipyFit.run")],
     ["the call of the optimizer", "the returned dictionary", "warnings"],
     "The optimizer is a scripted stand-in (or the real one between observations); objective, "
     "gradient and constraint are compared with independent formulas at random points.",
     "deterministic simulation: scripted faulty optimizer, handed-over problem checked against an "
     "independent model")

prop("C08", "The clock decides nothing, and reported times are true elapsed times",
     "No result, convergence decision or printed history depends on the clock: fits give the same "
     "results when the clock is slow, fast, or the wall clock jumps forwards or backwards at any moment. Fits that "
     "report a time report the elapsed time of that very optimisation: never negative, never "
     "influenced by wall clock jumps, and including the time spent waiting for integration or the optimizer.",
     ["schedules", "fault_sequences"],
     "all latencies of integration and optimizer, all wall clock jumps at any moments, consecutive "
     "fits",
     "Tests run on a well-behaved real clock and never look at the reported time.",
     [F, G],
     [("monotonic timer around the optimisation", "bfit/fit.py run (both fits)")],
     ["time entry of the results", "all other entries"],
     "All clocks of the process are simulated.",
     "deterministic simulation: simulated clock with latency and jumps")

prop("C09", "Displaying progress changes nothing, and a failing display is not ignored",
     "Fits give the same results and leave the same warnings with and without progress display, on "
     "any standard output (also a missing or ASCII-only one). If a write to standard output fails "
     "(full disk, broken pipe, Ctrl-C), the error reaches the caller and later fits are unaffected; "
     "with display off nothing is written.",
     ["fault_sequences", "histories"],
     "all fits and options, write failures at any write, any sequence of fits",
     "Tests call display mode once or twice on a working stdout and compare nothing.",
     [F, G],
     [("printing of iterations and of the optimizer's callback", "bfit/fit.py run"),
      ("table of the greedy fit", "bfit/greedy.py run")],
     ["results with and without display", "bytes written", "exceptions"],
     "Each fit is executed with and without display under each kind of stdout fault.",
     "deterministic simulation: stdout fault injection, displayed and silent runs compared")

prop("C10", "A greedy fit never accepts a worse, undefined or redundant step",
     "In the history a greedy fit returns, no accepted set of functions has a higher objective than "
     "the one before, each grows by the prescribed number of functions and has finite "
     "parameters, and the final set has no two functions of a kind with (almost) equal exponents. The returned parameters, counts of s and p "
     "functions, objective and performance rows are those of the last accepted set, even when "
     "random guesses, the inner optimizer or the integration misbehave.",
     ["fault_sequences", "inputs", "histories"],
     "all random draws, all behaviours of the inner optimizer, integration faults at any call, both kinds of "
     "greedy fit and all choice functions",
     "The tests run a handful of greedy fits on easy data with the real optimizer.",
     [G, F, E],
     [("comparison of best local and global values", "bfit/greedy.py run"),
      ("check_redundancies", "bfit/greedy.py remove_redundancies"),
      ("parameter splitting", "bfit/greedy.py _split_parameters")],
     ["the returned dictionary of a greedy fit"],
     "History judged with independent Gaussian formulas.",
     "deterministic simulation: scripted randomness, optimizer and integrator faults, history "
     "invariants")

prop("C11", "A greedy fit is reproducible from numpy's seed, run after run",
     "With the same inputs and the same seed of numpy's global random generator a greedy fit gives "
     "the same history whatever happened before: other runs, interrupted or refused runs on the same object, a second object, "
     "another clock, other state of Python's random module, another process with another string hash seed. Runs "
     "with fewer functions allowed or a larger threshold are beginnings of the longer run.",
     ["histories", "fault_sequences", "configurations"],
     "all sequences of disturbances before a run, all kinds and choice functions",
     "The tests run every greedy object once.",
     [G, F],
     [("state of the run is reset at its start", "bfit/greedy.py run"),
      ("random choices only from numpy's global generator",
       "bfit/greedy.py get_next_choices, get_two_next_choices, pick_two_lose_one")],
     ["history of the greedy fit"],
     "Histories compared after seeded disturbances.",
     "deterministic simulation: seeded randomness and histories of disturbances, replay comparison")

prop("C12", "A greedy fit always ends, with at most the allowed number of functions",
     "For every positive density (whose one-function start has a finite objective) and every threshold, limit and behaviour of random guesses and inner optimizer, a greedy fit ends after a "
     "number of steps linear in the limit (five rejected steps in a row or reaching the limit end it), "
     "never returns or optimises a set with more functions than allowed, and returns a result with an exit "
     "information that names the true reason of ending.",
     ["fault_sequences", "inputs"],
     "all limits, thresholds, magnitudes of the density, adversarial histories of the inner "
     "optimizer and of the random draws",
     "Termination cannot be shown by the few finished runs in the tests.",
     [G],
     [("loop condition and rejection counter", "bfit/greedy.py run"),
      ("exit information", "bfit/greedy.py _final_exit_info")],
     ["number of steps, sizes handed to the optimizer, exit information"],
     "Adversarial scripted optimizers under a step budget.",
     "deterministic simulation: adversarial optimizer scripts, bounded-progress check")

prop("C13", "A damaged data file never hangs a load nor silently loses electrons",
     "Reading a Slater file that was truncated at any byte ends and either raises or returns an atom "
     "with every subshell of its configuration, each with its energy, occupation and matching exponents "
     "and coefficients, all equal to the intact file except for rows missing at the very end of the last "
     "subshell. Reading a Slater file with corrupted bytes, holes or torn tails ends and either raises or "
     "returns every orbital with every basis function of the intact file, with the numbers on undamaged "
     "lines unchanged. Reading a damaged UGBS file ends. Loads of intact files before and after are exact.",
     ["fault_sequences", "inputs"],
     "every shipped and archived atom (neutral, anion, cation), every truncation point, seeded "
     "corruption; any order of damaged and intact loads",
     "Tests read intact files only.",
     [S, D, U],
     [("end-of-file, line and completeness checks", "bfit/_slater.py load_slater_wfn"),
      ("reading by element name", "bfit/parse_ugbs.py get_ugbs_exponents")],
     ["dictionary of the load, attributes of SlaterAtoms, exceptions"],
     "The format has no checksum: flipped digits and rows cut at the very end cannot be noticed by "
     "any reader and are exempt.",
     "deterministic simulation: simulated disk with truncation, corruption and torn writes")

prop("C14", "How the disk delivers the data files does not matter; its errors surface",
     "Loading an atom or UGBS exponents gives exactly the same data however the operating system delivers "
     "the file: short reads down to one byte, interrupted system calls, any latency, several loads interleaved in any way. "
     "If the disk fails (at open or at any read) the load raises instead of returning partial data, files are closed when it returns or raises, "
     "nothing is ever written, and later loads are unaffected.",
     ["fault_sequences", "schedules"],
     "all delivery patterns, all positions of errors, all interleavings of 1-3 threads of loads, "
     "all files",
     "Tests read from a healthy local disk, one file at a time.",
     [S, U, D],
     [("line-wise reading inside with statements", "bfit/_slater.py, bfit/parse_ugbs.py")],
     ["dictionary of the load, exceptions, open files"],
     "Faults below Python's io layer (read(2) and open(2)); the buffering code is real.",
     "deterministic simulation: simulated disk with short reads, EINTR, latency and errors")

prop("C15", "Returned results are snapshots, and calls do not depend on history",
     "A result returned by the library never changes later, whatever is called afterwards. The caller may modify "
     "results freely: neither that, nor any earlier successful or refused call, nor their order changes the result "
     "of a later call on the same objects, which equals that of fresh objects.",
     ["histories", "inputs"],
     "all sequences of public calls on shared objects, with results overwritten in between",
     "Each test makes its calls once, on its own objects, and never writes into results.",
     [F, G, M, E, D, S, U, R],
     [("results are new arrays", "all public methods"),
      ("no caches between calls", "bfit/_slater.py, bfit/density.py, bfit/model.py")],
     ["results of all public calls"],
     "Seeded histories compared with isolated executions in a fresh process.",
     "deterministic simulation: seeded call histories with scribbling caller, compared with fresh "
     "executions")

prop("C16", "Saved objects, restored in another process, carry on identically",
     "Grids, models, measures, atoms and fit objects that are pickled or copied (deeply or not) at any moment between calls, also "
     "after interrupted calls, and restored in a new process, or used next to the original, give the "
     "same results as fresh objects.",
     ["crash_points", "histories"],
     "all objects with any history, saved in any way and restored after process death",
     "No test pickles or copies an object.",
     [F, G, M, E, D, R],
     [("plain attributes only", "all classes")],
     ["results after restoring"],
     "Process death and restart are simulated by forked interpreters.",
     "deterministic simulation: process death with only pickled state surviving, compared with "
     "fresh objects")

prop("C17", "A resized model is exactly the model of its current size, also in fits",
     "After any sequence of size changes of an atomic Gaussian model (including changes that are "
     "refused, go back to an earlier size or keep the total), of evaluations, and of complete, refused or failing fits that share it, every evaluation and "
     "every fit gives what a freshly constructed model of the current size gives.",
     ["histories", "fault_sequences"],
     "all sequences of sizes and calls, with integration failing at any call",
     "Tests resize a model at most once and do not run fits across resizes.",
     [M, F, G],
     [("sizes are kept in two attributes, everything else is derived",
       "bfit/model.py change_numb_s_and_numb_p, nbasis"),
      ("fits ask the model for its size at every run", "bfit/fit.py run")],
     ["results of evaluations and fits after resizes"],
     "Seeded histories compared with fresh objects.",
     "deterministic simulation: seeded resize histories with failing fits, compared with fresh "
     "models")

prop("C18", "Ambient settings of the process do not leak into results",
     "Every call gives the same result whatever the ambient state of the process is: working "
     "directory (even a deleted one), environment variables, numpy print options and error state, warning filters, "
     "decimal context, recursion depth, garbage collector, state of random generators (greedy fits excepted) and "
     "number of previous calls. A setting that turns warnings or floating-point conditions into errors may make a call "
     "raise that error, but never changes a returned result.",
     ["configurations", "histories"],
     "all combinations and changes of ambient settings between and during sequences of calls",
     "Tests run under one ambient configuration.",
     [F, G, M, E, D, S, U],
     [("data files are found next to the module", "bfit/_slater.py, bfit/parse_ugbs.py"),
      ("numpy error state set locally where divisions by zero are expected", E)],
     ["results and exceptions of all public calls"],
     "Seeded ambient settings changed between calls; compared with a default process.",
     "deterministic simulation: seeded ambient configurations, compared with a default process")

prop("C19", "Calls made in the middle of another call disturb neither of them",
     "While a call is under way, the same thread may make other calls of the library on the same and on "
     "shared objects: from a user-written grid, measure or model that is being called, from a user-written "
     "stdout, or from a signal handler or finalizer that runs between any two steps. The inner and the outer "
     "call return exactly what each returns when made alone (a greedy fit is not started again on its own object while it runs), and "
     "later calls are not affected. User-written measures and models may hand out the same arrays, with new contents, "
     "every time they are called.",
     ["schedules", "inputs"],
     "all places in all calls at which any other call is made, by any kind of plugin or handler",
     "No test calls the library from a plugin, a handler or a finalizer, let alone at every line.",
     [F, M, R, E, D, S, U, G],
     [("no state of a running call outside of its local variables", "bfit/fit.py run, bfit/model.py evaluate"),
      ("derived quantities are computed anew in each call", "bfit/fit.py, bfit/density.py")],
     ["return values and exceptions of inner and outer calls"],
     "Seeded search over places; inner calls happen at lines or bytecodes of the package and at "
     "plugin calls, not inside one numpy call.",
     "deterministic simulation: seeded nested calls from plugins, stdout and handlers, compared with "
     "isolated executions")

prop("C20", "A process that keeps making calls does not grow or slow down",
     "However many calls a process has made, on the same objects or on ever new ones, with ever new numbers, "
     "finished, refused, interrupted or failing in plugins, disk or stdout: neither the memory held by the package and its objects, nor the "
     "number of objects, open files and threads grows with the number of calls (bounded caches aside), and a call takes as many "
     "steps as it took at first.",
     ["histories", "fault_sequences"],
     "all unbounded sequences of calls and faults",
     "Tests make a handful of calls per process and never look at what stays behind.",
     [F, M, R, E, D, S, U, G],
     [("nothing is registered or cached per call", "all modules")],
     ["memory reachable from the package and its objects, number of objects, files, threads; executed lines"],
     "Growth is measured over 75 rounds after 150 rounds; caches of up to 150 entries count as bounded.",
     "deterministic simulation: long seeded histories with faults in one process, growth of resources "
     "and of executed steps measured")

prop("C21", "Worker processes forked at any moment work, and the parent goes on",
     "A worker process may be forked at any moment, also while another thread of the parent is in the middle of a "
     "call of the library. Calls made in the worker, on the inherited or on new objects, end and give the same results as in a fresh process "
     "(no lock, half-done change or shared file position is inherited), and the interrupted call and "
     "later calls of the parent give the same results as without the fork.",
     ["schedules", "crash_points"],
     "all moments of forking in all calls, all calls in the worker and the parent",
     "No test forks; locks and shared file positions only show if the fork comes in the middle of a call.",
     [F, M, R, E, D, S, U, G],
     [("no locks, no module-level open files, no state of running calls", "all modules"),
      ("data files are opened anew in each call", "bfit/_slater.py, bfit/parse_ugbs.py")],
     ["results of calls in workers and in the parent"],
     "Seeded moments (lines, bytecodes, plugin calls, writes); POSIX fork.",
     "deterministic simulation: processes forked at seeded points of calls, compared with fresh processes")

# ------------------------------------------------------------------------------------------------
PURE = ("A pure function of its arguments: no scheduling, clock, I/O, randomness, crash or history "
        "takes part, so there is nothing for a simulator to inject or schedule; ")
na("N01", "Gaussian models evaluate to the documented sum of s and p functions",
   "For all parameters and points the atomic and molecular models equal the documented sum of s- and "
   "p-type Gaussians around their centres.", "all parameters, points, centres",
   "Tests sample a few parameter sets.", [M],
   [("evaluate", "bfit/model.py AtomicGaussianDensity.evaluate")], ["returned values"],
   PURE + "input testing or proof would decide it. (C05, C07 and C10 use independent formulas and "
   "notice errors of this kind on their way, but do not claim it.)")
na("N02", "Derivatives of models are their true derivatives",
   "The derivatives w.r.t. coefficients and exponents are those of the returned function.",
   "all parameters and points", "Tests sample a few.", [M],
   [("evaluate(deriv=True)", "bfit/model.py")], ["returned derivatives"],
   PURE + "C07 compares the gradients handed to the optimizer with finite differences, as part of "
   "its own statement.")
na("N03", "Normalised Gaussians integrate to one",
   "A normalised basis function integrates to one over all space.", "all exponents",
   "Tests sample a few exponents.", [M], [("prefactor", "bfit/model.py prefactor")],
   ["integral of a basis function"], PURE + "an analytical identity.")
na("N04", "Measures have their documented values, derivatives and masking",
   "Squared difference, Kullback-Leibler and Tsallis divergences and their derivatives follow the "
   "documented formulas, with masked points treated as documented.", "all densities and models",
   "Tests sample a few arrays.", [E], [("evaluate", "bfit/measure.py")], ["returned arrays"],
   PURE + "input testing would decide it.")
na("N05", "Grids integrate with their documented quadrature",
   "Uniform, Clenshaw-type and cubic grids have the documented points and weights.",
   "all grid parameters", "Tests sample a few.", [R],
   [("integrate", "bfit/grid.py"), ("from_molecule", "bfit/grid.py")], ["points and integrals"],
   PURE + "input testing would decide it.")
na("N06", "Slater densities follow from the orbitals of the file",
   "Density, kinetic energy density and derivative of an atom are those of the orbitals, "
   "coefficients and occupations read from its file.", "all atoms and points",
   "Tests compare some atoms at some points.", [D, S],
   [("atomic_density, phi_matrix", "bfit/density.py")], ["returned arrays"],
   PURE + "the file part that depends on I/O is C13 and C14.")
na("N07", "The published tables agree in both formats",
   "The JSON and NPZ tables of published results hold the same numbers.", "all elements",
   "Not tested.", ["bfit/data/kl_fpi_results.json", "bfit/data/kl_slsqp_results.json"],
   [("tables", "bfit/data")], ["contents of the tables"],
   "Constant data that no code of the package reads: no behaviour to simulate.")
na("N08", "Greedy choice generators propose only valid neighbours",
   "The generators of initial guesses put new exponents below, between and above the present ones by the given "
   "factor and keep the present ones.", "all parameters and factors", "Tests sample a few.", [G],
   [("get_next_choices, get_two_next_choices, pick_two_lose_one", "bfit/greedy.py")],
   ["returned lists"],
   PURE + "the randomness only fills in coefficients; its effect on fits is C10-C12.")
na("N09", "Invalid arguments are refused with a clear exception",
   "Arguments of wrong type, shape or range are refused with TypeError or ValueError before "
   "anything is computed.", "all invalid arguments", "Tests sample some.", [F, G, M, R, E, D],
   [("checks at construction and call", "all modules")], ["exceptions"],
   PURE + "what refused calls leave behind is C03, C15 and C17.")


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w", encoding="utf8") as handle:
        for item, _, _ in PROPS:
            handle.write(json.dumps(item) + "\n")
    checks = []
    for item, note, technique in PROPS:
        pid = item["id"]
        if pid.startswith("N"):
            continue
        module = importlib.import_module(f"dst.props.{pid.lower()}")
        checks.append({"property": pid, "quick_cmd": f"./check.sh {pid} quick",
                       "thorough_cmd": f"./check.sh {pid} thorough", "technique": technique,
                       "evidence_file": f"evidence/{pid}.json",
                       "level": module.LEVEL, "level_note": note})
    manifest = {
        "version": 1, "setup_cmd": "./check.sh --selftest",
        "hooks": {"guard": "BFIT_DST",
                  "enable": "not needed: every seam (time and timeit, scipy.optimize.minimize, "
                            "numpy.random, builtins.open, sys.stdout, threading, user-supplied "
                            "grids, measures and models) exists already; the simulator binds them "
                            "before importing the package from /repo",
                  "source_commits": []},
        "checks": checks, "not_applicable": NOT,
        "notes": "See DESIGN.md. fix: commits in /repo are listed in KNOWN_FINDINGS.txt."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w", encoding="utf8") as handle:
        json.dump(manifest, handle, indent=1)
        handle.write("\n")


if __name__ == "__main__":
    main()
