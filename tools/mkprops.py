#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
A = "ADOL-C/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=[A+f for f in files],
                          mechanism=[dict(name=n, where=A+w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m) for n, m in state]
    P.append(d)

prop("P01", "Results do not depend on where or how the trace is stored",
 "For every recorded program, every evaluation (zero-, first- and higher-order, scalar and vector, forward and reverse, dependency patterns) returns the same numbers and return codes whether the operation, location, value and Taylor data of the trace stay in memory or spill to the tape files, for every legal combination of buffer sizes. "
 "Those numbers are the values and Taylor/adjoint coefficients of the recorded program at the given arguments.",
 ["programs", "configurations"], "all programs of overloaded operations, all buffer sizes from a handful of entries upwards (set through .adolcrc or trace_on), all evaluation modes, any order of repeated evaluations",
 "The tests record tiny functions with the default 512K-entry buffers, so no test ever writes or re-reads a tape file; block boundaries, backward re-reading and the mixed memory/file layout are never executed.",
 ["src/valuetape/valuetape.cpp", "src/valuetape/tapeinfos.cpp", "include/adolc/valuetape/tapeinfos.h", "src/uni5_for.cpp", "src/fo_rev.cpp", "src/ho_rev.cpp"],
 [("operation/location/value block writing while recording", "include/adolc/valuetape/tapeinfos.h: put_op, put_loc_block, put_val_block"),
  ("forward and backward block re-reading", "include/adolc/valuetape/tapeinfos.h: get_*_block_f / get_*_block_r"),
  ("Taylor stack spilling and backward fetch", "src/valuetape/tapeinfos.cpp: put_tay_block, get_tay_block_r, write_taylor, get_taylors")])

prop("P02", "A reverse sweep uses exactly the state of the latest kept forward sweep",
 "In every sequence of calls on a trace, a successful reverse call returns the adjoints belonging to the most recent forward evaluation (or keeping recording) that retained enough Taylor coefficients for it. "
 "If no such retained state exists - nothing was kept, the kept order or direction count does not match, or parameters were changed since - the reverse call reports failure and does not return numbers. "
 "Evaluations that keep nothing do not alter retained state or the recorded function.",
 ["histories", "inputs"], "all interleavings of keeping and non-keeping forward calls of any order, reverse calls of any kind, repeated reverse calls, parameter updates, at arbitrary points",
 "The tests run one forward and one reverse on a freshly recorded trace; they never mix orders, repeat reverses, or ask for a reverse that must be refused.",
 ["src/uni5_for.cpp", "src/fo_rev.cpp", "src/ho_rev.cpp", "src/valuetape/tapeinfos.cpp", "src/valuetape/valuetape.cpp"],
 [("keep bookkeeping", "src/valuetape/valuetape.cpp: taylor_begin, taylor_close, taylor_back"),
  ("reverse admission checks", "src/fo_rev.cpp, src/ho_rev.cpp: sweep prologue")])

prop("P03", "Traces never influence one another; re-recording fully replaces a trace",
 "Recording, re-recording or evaluating one trace never changes the result of any evaluation of another trace, including when recordings are nested inside each other. "
 "Re-recording under an existing identifier gives the same results as recording the new program under a fresh identifier, whatever was recorded or evaluated there before.",
 ["histories", "programs"], "all histories over several traces of create, record (nested or not), re-record with larger or smaller programs and different keep flags, evaluate, with and without spilling",
 "Tests use one or two traces each recorded once; leftovers of an earlier, larger or spilled recording under the same tag are never observed.",
 ["src/valuetape/valuetape.cpp", "src/tape_interface.cpp", "include/adolc/tape_interface.h", "src/valuetape/tapeinfos.cpp", "src/valuetape/globaltapevarscl.cpp"],
 [("tape selection and nesting", "src/tape_interface.cpp: trace_on, trace_off, setCurrentTape"),
  ("reinitialisation of a tape for a new recording", "src/valuetape/valuetape.cpp: initTapeInfos_keep, start_trace, stop_trace")])

prop("P04", "Threads with their own traces do not disturb each other",
 "When several threads each create, record and evaluate their own traces concurrently, every call in every thread returns exactly what it returns when that thread runs alone, under every interleaving. "
 "This holds for all drivers and evaluation modes, with traces in memory or spilled to files.",
 ["schedules", "histories"], "all interleavings of 2-4 threads running arbitrary histories of recording, sweeps, drivers, checkpointing and fixed-point or external functions on thread-private traces",
 "The OpenMP tests run two or three fixed kernels under whatever schedule the machine happens to produce, so a window of a few instructions in shared static storage is hit only by luck.",
 ["include/adolc/tape_interface.h", "src/tape_interface.cpp", "src/interfaces.cpp", "src/drivers/taylor.cpp", "src/lie/adolc_lie_c.cpp", "src/fixpoint.cpp", "src/checkpointing.cpp"],
 [("thread-local tape registry", "src/tape_interface.cpp"),
  ("function-level working storage of the convenience interfaces", "src/interfaces.cpp, src/drivers/taylor.cpp, src/lie/adolc_lie_c.cpp"),
  ("per-thread file naming", "src/valuetape/persistanttapeinfos.cpp")])

prop("P05", "Disk faults never silently corrupt results",
 "If opening, writing, reading, seeking or closing a tape file fails or comes up short at any moment of recording or evaluation, the affected call reports an error (an exception or an error return). "
 "A call that reports success returns exactly what it returns on a healthy disk; no disk fault leads to a wrong number or a crash.",
 ["fault_sequences", "histories"], "every I/O operation of every recording/evaluation as a fault point: open refused, full disk, partial write, write error surfacing only at flush or close, read error, truncated file, failing seek",
 "No test makes an I/O call fail, and no test reaches the tape files at all.",
 ["src/valuetape/valuetape.cpp", "src/valuetape/tapeinfos.cpp", "include/adolc/valuetape/tapeinfos.h", "src/valuetape/persistanttapeinfos.cpp", "src/adolcerror.cpp"],
 [("block writers and readers", "include/adolc/valuetape/tapeinfos.h"),
  ("tape finalisation", "src/valuetape/valuetape.cpp: close_tape, stop_trace")])

prop("P06", "The library stays usable after a failed call once faults stop",
 "After any call has reported an error - refused misuse, disk fault, or an exception thrown by user code inside a recording or callback - other traces keep giving their previous results. "
 "Once faults have stopped, recording and evaluating under the affected identifier, as well as under new ones, again give correct results.",
 ["fault_sequences", "histories"], "any failing call at any point of any history over several traces, followed by fault-free calls on every trace",
 "Tests check at most that a bad call throws; none continues to use the library afterwards.",
 ["src/valuetape/valuetape.cpp", "src/uni5_for.cpp", "src/fo_rev.cpp", "src/ho_rev.cpp", "src/tape_interface.cpp", "src/adolcerror.cpp"],
 [("work-mode and file-handle state across exceptions", "src/valuetape/valuetape.cpp: init_sweep, end_sweep, init_rev_sweep"),
  ("tape stack across exceptions", "src/tape_interface.cpp")])

prop("P07", "Memory exhaustion is reported, never turned into a crash or a wrong result",
 "If any single memory request made while recording or evaluating fails, the call reports an error by exception or error code. "
 "It does not crash and does not report success with a wrong result, and traces that were complete before remain correct.",
 ["fault_sequences", "histories"], "every allocation of every library call in any history as the failing one",
 "No test can make an allocation fail.",
 ["src/adalloc.cpp", "src/adolcerror.cpp", "src/storemanager.cpp", "src/valuetape/valuetape.cpp", "src/uni5_for.cpp", "src/fo_rev.cpp", "src/ho_rev.cpp"],
 [("checked allocation helpers", "src/adalloc.cpp"), ("store growth", "src/storemanager.cpp: grow")])

prop("P08", "Checkpointed time stepping equals plain taping",
 "A time-stepping loop recorded through the checkpointing facility gives, for every number of steps and every number of checkpoints, the same function values, tangents and adjoints as the same loop recorded step by step. "
 "This also holds for several checkpointed loops in one or several traces, for repeated and re-ordered evaluations, and when the traces involved spill to disk.",
 ["configurations", "histories", "programs"], "all step counts, checkpoint counts, state sizes, step functions, and sequences of forward/reverse evaluations over several checkpointed loops",
 "The tests cover one or two fixed (steps, checkpoints) pairs and one evaluation each; the binomial schedule has a different action sequence for each pair.",
 ["src/checkpointing.cpp", "src/revolve.cpp", "include/adolc/checkpointing.h"],
 [("checkpoint schedule", "src/revolve.cpp"), ("checkpoint stack and step taping", "src/checkpointing.cpp")])

prop("P09", "External differentiated functions are called once, in order, with the right data",
 "Each evaluation of a trace calls the matching callback of every external function recorded in it exactly once, in recording order for forward and in exactly reversed order for reverse evaluations, passing the current argument values, tangents or adjoints. "
 "The numbers the callback delivers enter the overall result exactly as the derivatives of that call would, and a callback that reports failure makes the evaluation report failure.",
 ["programs", "histories", "fault_sequences"], "all programs with any number of external calls of all three flavours interleaved with ordinary operations, argument overlap, spilling, callback failures at any call, nested use of the library inside callbacks",
 "The tests use one external call in a tiny trace with callbacks that always succeed and never touch the library.",
 ["src/externfcts.cpp", "src/externfcts2.cpp", "include/adolc/edfclasses.h", "src/uni5_for.cpp", "src/fo_rev.cpp", "src/ho_rev.cpp"],
 [("call recording and argument marshalling", "src/externfcts.cpp, src/externfcts2.cpp"), ("replay", "src/uni5_for.cpp, src/fo_rev.cpp: ext_diff cases")])

prop("P10", "Fixed-point iterations give the implicit-function derivatives",
 "A fixed-point iteration recorded through the library returns the converged value of its own iteration and, to the requested tolerance, the implicit-function-theorem tangents and adjoints. "
 "This holds for every evaluation of every trace that contains such iterations, however many of them are registered and in whatever order they are evaluated.",
 ["programs", "histories"], "all contractive iterations, several per trace and over several traces, any sequence of evaluations",
 "The tests register a single fixed-point problem once per process, so look-ups among several registered problems are never exercised.",
 ["src/fixpoint.cpp", "include/adolc/fixpoint.h"],
 [("registry of iterations", "src/fixpoint.cpp: fpi_stack"), ("adjoint iteration", "src/fixpoint.cpp: fp_fos_reverse")])

prop("P11", "Control-flow changes are reported by the return code",
 "Re-evaluating a trace at an argument where a recorded comparison would come out differently is reported by a negative return code. "
 "A nonnegative code is returned otherwise, with 0, 1, 2 and 3 classifying ties of comparisons, ties of min/max/abs, switched min/max/abs selections and locally analytic evaluations as documented; whenever the code is nonnegative the returned value equals running the program at that argument.",
 ["inputs", "programs", "histories"], "all programs with comparisons, min/max/abs/ceil/floor and conditional assignments, all re-evaluation points including exact ties, any history of evaluations in between",
 "Tests check single operators at one point; combinations and repeated evaluation at different points are not covered.",
 ["src/uni5_for.cpp", "src/adouble.cpp"],
 [("branch checks during a forward sweep", "src/uni5_for.cpp: eq_zero, neq_zero, le_zero, gt_zero, ge_zero, lt_zero, min_op, abs_val, ceil_op, floor_op"),
  ("recording of comparison outcomes", "src/adouble.cpp: comparison operators")])

prop("P12", "Parameters can be changed without re-recording",
 "After setting new parameter values on a trace, every subsequent evaluation returns what recording the program anew with those values would return, until the next change. "
 "Previously retained reverse state becomes unusable, a parameter vector of the wrong length is refused without changing anything, and parameters of other traces are unaffected.",
 ["histories", "programs"], "all programs with any number of parameters (including more than fit one value block), any sequence of parameter updates and evaluations, several traces, spilled or not",
 "The tests set parameters once on one in-memory trace.",
 ["src/pdouble.cpp", "src/valuetape/valuetape.cpp", "src/valuetape/tapeinfos.cpp", "src/uni5_for.cpp"],
 [("parameter storage and update", "src/valuetape/valuetape.cpp: set_param_vec, save_params, read_params"), ("discarding parameters in the value stream", "src/valuetape/tapeinfos.cpp: discard_params_r")])

prop("P13", "Sparse drivers return the right matrix for every call history",
 "Sparse Jacobian and Hessian drivers return exactly the nonzero entries of the dense derivative (within the sparsity pattern, in valid coordinates), and dependency patterns contain every true dependency, in every supported option combination. "
 "Calls that reuse a pattern from an earlier call give the same entries as a fresh call at the same argument, whatever was evaluated on this or other traces in between.",
 ["programs", "histories", "configurations"], "all programs, all option combinations, all sequences of fresh and pattern-reusing calls over several traces at changing arguments",
 "Tests call each driver once or twice on fixed functions.",
 ["src/sparse/sparsedrivers.cpp", "src/sparse/sparsedrivers_c.cpp", "src/sparse/sparse_fo_rev.cpp", "src/valuetape/sparseinfos.cpp", "src/uni5_for.cpp", "src/fo_rev.cpp"],
 [("cached pattern/colouring per trace", "src/valuetape/sparseinfos.cpp"), ("bit-pattern and index-domain propagation", "src/uni5_for.cpp, src/fo_rev.cpp")])

prop("P14", "Active variables keep their own storage over any creation/destruction history",
 "At any time every live active variable, vector and parameter object owns storage distinct from every other live one and keeps its value until it is assigned, across growth, block allocation, moves, release in any order and enabled or disabled reuse. "
 "Storage of destroyed variables becomes available again, so a bounded number of live variables needs bounded storage however long the history.",
 ["histories"], "all sequences of creation, copy, move, assignment, block allocation, destruction of variables over several traces, from inside and outside recordings",
 "Tests create a handful of variables in stack order.",
 ["src/storemanager.cpp", "include/adolc/storemanager.h", "include/adolc/adtb_types.h", "src/valuetape/globaltapevarscl.cpp", "include/adolc/valuetape/valuetape.h"],
 [("free-list management", "src/storemanager.cpp: next_loc, free_loc, ensure_block, grow, consolidateBlocks")])

prop("P15", "Tape files are private, kept on request, cleaned up otherwise",
 "A trace only ever creates, overwrites or removes its own tape files inside the configured directory; files are removed at normal process end when nothing asked to keep them; they survive it when writing them was forced at the end of recording and skipping the cleanup was requested. "
 "Files left behind by an earlier process, however it ended, never influence recordings or evaluations of a later one.",
 ["histories", "crash_points", "configurations"], "all histories over several traces and threads with any keep request, process end or kill at any I/O operation, restart in the same directory",
 "No test produces tape files, ends a process in the middle, or restarts in a directory with leftovers.",
 ["src/valuetape/persistanttapeinfos.cpp", "src/valuetape/valuetape.cpp", "src/valuetape/tapeinfos.cpp"],
 [("file naming and removal", "src/valuetape/persistanttapeinfos.cpp"), ("stale-file removal when spilling starts", "src/valuetape/tapeinfos.cpp, include/adolc/valuetape/tapeinfos.h")])

prop("P16", "Configuration input never changes results or crashes",
 "Whatever the configuration file contains - unknown keys, malformed or truncated lines, repeated keys, an unusable directory, or the file being unreadable - the process starts and computes correct results. "
 "Every well-formed setting in it takes effect and every other one falls back to its default.",
 ["configurations", "fault_sequences"], "all configuration file contents and read faults",
 "No test supplies a configuration file.",
 ["src/valuetape/valuetape.cpp", "include/adolc/internal/usrparms.h"],
 [("configuration reader", "src/valuetape/valuetape.cpp: readConfigFile")])

prop("P17", "High-level drivers are independent of what was called before",
 "Every driver that works on a recorded trace (gradients, Jacobians, Hessians and their vector products, linear solves, higher-order tensors and inverse tensors, Taylor and ODE series, Lie derivatives, dependency and nonlinearity patterns, piecewise-linear drivers) returns the same result for the same trace and arguments in every call history. "
 "The result equals the corresponding combination of exact derivatives of the recorded program.",
 ["histories", "programs"], "all sequences of driver calls with changing dimensions, orders and traces in one process",
 "Tests call each driver once per shape; cached working storage that survives from a call with other dimensions is never exercised.",
 ["src/drivers/drivers.cpp", "src/drivers/taylor.cpp", "src/drivers/odedrivers.cpp", "src/drivers/psdrivers.cpp", "src/interfaces.cpp", "src/lie/adolc_lie_c.cpp", "src/forward_partx.cpp"],
 [("static work arrays and index tables", "src/drivers/taylor.cpp, src/interfaces.cpp, src/lie/adolc_lie_c.cpp"), ("driver compositions of sweeps", "src/drivers/drivers.cpp")])

prop("P18", "Tapeless forward mode equals the taped derivatives",
 "For every expression the tapeless (traceless) number types produce the same values, directional derivatives and dependency sets as recording and evaluating the expression.",
 ["programs", "inputs"], "all expressions, numbers of directions and arguments",
 "Unit tests sample single operators.",
 ["include/adolc/adtl.h", "include/adolc/adtl_hov.h", "include/adolc/adtl_indo.h"],
 [("operator overloads", "include/adolc/adtl.h")])

prop("P19", "Binomial checkpoint schedules are optimal",
 "For every number of steps and checkpoints the schedule generator needs the minimal number of step re-evaluations and never exceeds the given number of checkpoints.",
 ["inputs"], "all pairs (steps, checkpoints)",
 "The tests do not look at the schedule.",
 ["src/revolve.cpp"], [("schedule", "src/revolve.cpp: revolve, numforw, maxrange")])

prop("P20", "The taped operations have the documented derivatives",
 "Each overloaded elementary function and operator yields the mathematically correct value and Taylor coefficients for every argument in its domain, including special values at the domain boundary.",
 ["inputs"], "all double arguments of all operations",
 "Tests sample a few arguments per operation.",
 ["src/adouble.cpp", "src/uni5_for.cpp", "src/fo_rev.cpp", "src/ho_rev.cpp"], [("operation semantics", "src/uni5_for.cpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
