"""The properties (see meta.py)."""
def A(files, mech, state=()):
    a = {"files": files.split(), "mechanism": [
        {"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    return a

PROPS = []
def P(id, title, statement, over, text, why, anchors, note):
    PROPS.append(dict(id=id, title=title, statement=statement,
                      quantifier={"over": over.split(), "text": text},
                      why_tests_cant=why, anchors=anchors, level_note=note))

P("P01", "Signal assignment edits projected waveforms as the standard prescribes",
  "After any sequence of signal assignments (transport, inertial with any "
  "rejection limit, several waveform elements, null transactions) to scalar "
  "and composite drivers, the values the signal takes and the times at which "
  "it takes them are exactly those given by the projected output waveform "
  "algorithm of IEEE 1076-2008 10.5.2.2, applied to each scalar subelement. "
  "No transaction is lost, duplicated, reordered or delivered at another "
  "time.",
  "inputs schedules histories",
  "all delays, rejection limits, waveform values and orders of assignments, up "
  "to the number of assignments in the bounds",
  "Each test fixes a few delays; which old transactions an assignment deletes "
  "depends on the relative order of every delay, limit and value.",
  A("src/rt/model.c", [("scheduling a driver update", "src/rt/model.c sched_driver"),
                       ("taking the pending transactions", "src/rt/model.c update_driver"),
                       ("splitting a nexus with pending transactions", "src/rt/model.c split_nexus")],
    [("waveform_t", "pending transaction of a source", "src/rt/structs.h")]),
  "Up to 5 assignments of up to 3 elements, symbolic delays in 0..40 fs and "
  "values; longer histories and drivers of other shapes are outside.")

P("P02", "Signal attributes agree with the history of the signal",
  "At every moment S'event, S'active, S'last_event, S'last_active, "
  "S'last_value, S'delayed(T), S'stable(T), S'quiet(T), S'transaction, "
  "S'driving and S'driving_value have the values IEEE 1076-2008 16.2.4 defines "
  "from the history of transactions and events on S.",
  "inputs schedules histories",
  "all times and values of the transactions on the prefix and all observation "
  "times within the bounds",
  "A test observes a few attributes at a few times of one history; the values "
  "depend on the order and coincidence of every transaction and observation.",
  A("src/rt/model.c src/lower.c src/jit/jit-exits.c",
    [("event and active marks", "src/rt/model.c update_driving"),
     ("implicit signals", "src/rt/model.c x_implicit_signal"),
     ("last_event, last_active", "src/rt/model.c x_last_event")],
    [("last_value", "value before the last event", "src/rt/model.c signal_last_value")]),
  "Up to 3 transactions with symbolic delays and values, observation at every "
  "time step of the history and at symbolic delays T.")

P("P08", "Integer and physical arithmetic is exact or reported",
  "For integer types of at most 32 bits, their subtypes, and physical types, "
  "the operators + - * / mod rem ** abs, unary minus, minimum, maximum and the "
  "relations give the mathematically exact result for all operands (constant "
  "or not), or the simulation stops with an error exactly when the result is "
  "undefined (zero divisor, negative exponent) or not in the range of the type "
  "or of the subtype of the target. Arithmetic of REAL gives the IEEE 754 "
  "binary64 result whenever that is finite.",
  "inputs programs",
  "all operand values, with the second operand variable, constant, or the "
  "same as the first",
  "There are 2^64 pairs of operands for each operator, and the cases that go "
  "wrong (MIN / -1, an elided range check, a folding rule) are isolated "
  "points of that space.",
  A("src/vcode.c src/lower.c src/mir/mir-node.c src/jit/jit-irgen.c "
    "src/jit/jit-interp.c src/jit/jit-optim.c src/jit/jit-exits.c",
    [("folding and bounds of results", "src/vcode.c emit_mul, emit_div, emit_abs"),
     ("trapping arithmetic", "src/mir/mir-node.c mir_build_trap_mul"),
     ("code generation", "src/jit/jit-irgen.c irgen_op_trap_add"),
     ("execution", "src/jit/jit-interp.c interp_mul")]),
  "32-bit operands over their whole range for + - relations; * / mod rem with "
  "one operand from a table of constants or small; ** with small or tabled "
  "exponents; overflow of 64-bit types is outside (see DESIGN.md).")

P("P03", "Processes resume exactly when their wait condition says",
  "A process suspended at a wait statement resumes in exactly the simulation "
  "cycle IEEE 1076-2008 10.2 defines: the first in which an event occurs on a "
  "signal of its sensitivity set (given, or implied by the condition) and the "
  "condition is true, or else when the timeout expires; and not otherwise. "
  "Processes with a sensitivity list, process (all) for signals read directly, "
  "and concurrent assignments are equivalent to the processes with the "
  "corresponding wait.",
  "inputs schedules histories",
  "all times and values of transactions, timeouts and wait conditions within "
  "the bounds",
  "Whether a wake-up is lost or spurious depends on coincidences of events, "
  "timeouts and deltas that a test has to choose.",
  A("src/rt/model.c src/lower.c src/simp.c",
    [("waking processes", "src/rt/model.c wakeup_one, wakeup_all"),
     ("sensitivity", "src/lower.c lower_wait, src/simp.c simp_build_wait")]),
  "Up to 4 transactions with symbolic delays and values, two signals, "
  "timeouts with symbolic delay; processes called through procedures.")

P("P04", "Resolved signals have the value the resolution function gives",
  "At every moment the value of a resolved signal is the result of its "
  "resolution function applied to the values of exactly its connected drivers "
  "(std_logic by the table of IEEE 1164), per element, record field or whole "
  "composite as declared; drivers covering only part of a composite contribute "
  "to that part alone. Null assignments and disabled guards disconnect "
  "drivers, BUS signals without connected drivers get the resolution of "
  "nothing, and REGISTER signals keep their value.",
  "inputs schedules histories",
  "all values of all drivers and all orders and times of assignment and "
  "disconnection within the bounds",
  "The resolved value is a function of all combinations of driver values, "
  "shapes and disconnections; tests fix a few.",
  A("src/rt/model.c",
    [("calling the resolution function", "src/rt/model.c call_resolution, calculate_driving_value"),
     ("memoised resolution", "src/rt/model.c call_resolution R_MEMO"),
     ("disconnection", "src/rt/model.c x_disconnect")]),
  "Up to 4 drivers of std_logic with all 9 values each (tables), vectors of "
  "up to 4 elements with partial drivers, user-defined resolution of scalars, "
  "records and arrays.")

P("P05", "Force and release override and restore signal values",
  "From the delta cycle after a force assignment until the release, the "
  "forced signal or element has the forced value whatever its drivers do, and "
  "after the release it has the value its drivers then give; parts that are "
  "not forced are never affected. Force in overrides the effective value "
  "alone and force out the driving value.",
  "inputs schedules histories",
  "all values and times of driver assignments, forces and releases within the "
  "bounds",
  "The interesting cases are interleavings of drivers, forces and releases of "
  "different parts, which tests cannot enumerate.",
  A("src/rt/model.c", [("force", "src/rt/model.c x_force, x_release, update_effective"),
                       ("kept in a split", "src/rt/model.c split_nexus")]),
  "Up to 4 events (drive, force, release) with symbolic times and values on "
  "scalars, elements and slices of up to 4, resolved and unresolved signals, "
  "ports of mode out and inout, external names.")

P("P06", "The simulation cycle orders time, deltas and phases correctly",
  "Simulated time never decreases, the next cycle is always at the earliest "
  "pending transaction or timeout, all transactions due at a moment take "
  "effect in the same cycle before any process runs, deltas are counted from "
  "zero at each time, and postponed processes run once in the last delta of a "
  "time step. Simulation ends when nothing is pending, at the stop time "
  "(completing cycles at that time and running none after it) or with an "
  "error exactly when the delta limit is exceeded.",
  "inputs schedules",
  "all delays of transactions and timeouts within the bounds",
  "The order of the event queue depends on every delay at once; tests fix "
  "them.",
  A("src/rt/model.c src/rt/heap.c src/rt/wheel.c",
    [("simulation cycle", "src/rt/model.c model_cycle, model_step"),
     ("event queue", "src/rt/heap.c heap_insert, heap_extract_min")]),
  "Up to 4 processes with symbolic delays 0..4 fs, delta chains up to 14, "
  "stop times 5 fs.")

P("P07", "Port maps carry every value unchanged through the hierarchy",
  "For every way of associating ports (whole, by element, slice or record "
  "field, in either direction, through aliases, generate statements, several "
  "levels, or with conversion functions and type conversions), an input port "
  "always equals the (converted) corresponding part of its actual, an actual "
  "always has the (converted) value its output port drives, and unassociated "
  "parts keep their defaults.",
  "inputs schedules histories programs",
  "all values and times of assignment to the signals within the bounds, over "
  "the list of kinds of association",
  "The mapping of parts is split lazily and depends on which parts are driven "
  "and read; a test that drives everything at once does not see a wrong part.",
  A("src/rt/model.c src/lower.c src/elab.c",
    [("connecting signals", "src/rt/model.c map_signals, x_map_signal, split_nexus"),
     ("conversions", "src/lower.c lower_port_map, lower_conversion_func")]),
  "Three designs of up to three levels with the kinds of association listed; "
  "up to 2 symbolic assignments of symbolic values to the actuals.")

P("P09", "Violations of ranges, indexes, lengths and null access are reported",
  "For all values, the simulation stops with an error exactly when an index or "
  "the bounds of a non-null slice are outside of the array; a value assigned "
  "to a variable or signal, passed, returned, allocated, converted, qualified "
  "or in an array aggregate is outside of its scalar subtype; an array in "
  "those places has another length than a constrained target; a null access "
  "value is dereferenced; a function ends without return; or a delay is "
  "negative. Otherwise the access, assignment or operation has exactly the "
  "effect on exactly the elements named.",
  "inputs programs",
  "all values of indexes, bounds of slices, lengths and operands",
  "Each check is made or left out by the compiler from bounds it infers; a "
  "test samples one bad index of one shape of access.",
  A("src/lower.c src/vcode.c src/mir/mir-node.c src/jit/jit-irgen.c src/jit/jit-exits.c",
    [("checks generated", "src/lower.c lower_check_scalar_bounds, lower_check_array_sizes"),
     ("checks left out", "src/vcode.c emit_bounds_check"),
     ("checks executed", "src/jit/jit-irgen.c irgen_op_range_check")]),
  "Indexes over the whole of INTEGER; slices and lengths from -2 to 8 on "
  "arrays of up to 6; the list of 78 kinds of access in the harness.")

P("P10", "Statements, choices and subprograms do what the standard says",
  "For all values, if and (matching) case statements, selected and "
  "conditional assignments, case and if expressions of variables, loops with "
  "exit and next and subprogram calls (including recursion, nested, with "
  "defaults, out and inout parameters of scalar, array and record types) "
  "execute exactly the statements, with exactly the parameter values and "
  "order of evaluation, the standard prescribes. Procedures that wait keep "
  "their variables and loop state across the wait.",
  "inputs programs",
  "all values of the selecting expressions, loop bounds and parameters in the "
  "bounds",
  "Case statements on arrays, enumerations and sparse integers are compiled "
  "to jump tables, hashes or trees; a test tries a few of the values, and "
  "most values take the default.",
  A("src/lower.c src/common.c src/jit/jit-irgen.c src/jit/jit-optim.c src/jit/jit-interp.c",
    [("choices of array case statements", "src/lower.c lower_case_array"),
     ("choices of integer case statements", "src/lower.c lower_case_scalar"),
     ("values of choices", "src/common.c get_case_choice_char"),
     ("calls of procedures that wait", "src/lower.c lower_pcall")]),
  "Selecting integers over their whole range, arrays of 2 to 70 elements "
  "with one or two symbolic elements, loops of at most 5 iterations.")

P("P11", "Predefined operations on arrays agree with their definitions by element",
  "For arrays of any length, direction, index type and element type, "
  "concatenation, slices (read, written, overlapping), aggregates (positional, "
  "named, ranges, others, slices, nested, multidimensional, of records, as "
  "targets), conversions, array attributes, the relations =, /=, <, <=, >, "
  ">=, ?=, the logical operators with arrays and elements, shifts and rotates "
  "in both directions, reductions, minimum and maximum give the bounds and "
  "the element values the standard defines.",
  "inputs",
  "all element values, lengths (including null arrays), bounds and shift "
  "counts in the bounds",
  "Each test tries one or two arrays; the operations are compiled to code that "
  "depends on what is known of bounds and element types, with special cases "
  "for null arrays, prefixes and negative counts.",
  A("src/lower.c src/vhdl/vhdl-predef.c src/simp.c src/jit/jit-irgen.c",
    [("array aggregates and concatenation", "src/lower.c lower_array_aggregate"),
     ("comparison of arrays", "src/lower.c lower_array_cmp_inner"),
     ("shifts and rotates", "src/vhdl/vhdl-predef.c predef_bit_shift"),
     ("aggregate targets", "src/lower.c lower_fill_target_parts")]),
  "Arrays of 0 to 6 elements (integers in -100..100, enumerations, bits, "
  "booleans, records, arrays), up to three dimensions, shift counts -6..6.")

P("P12", "Vector packages compute on bits as on numbers and by the logic tables",
  "For vectors of any lengths, numeric_std (UNSIGNED, SIGNED, with vector, "
  "NATURAL and INTEGER operands), std_logic_unsigned and std_logic_signed give "
  "for + - * / rem mod, relations, unary minus, abs, minimum, maximum, shifts, "
  "rotates, resize and conversions the binary representation of the "
  "mathematical result (truncated to the length the package prescribes), with "
  "'L' and 'H' read as '0' and '1', and 'X' or FALSE for metavalues. The "
  "operators, resolution and conversions of std_logic_1164 give the results "
  "of its tables for each element of vectors of any length.",
  "inputs",
  "all values of all elements of the operands, lengths around the number of "
  "elements the implementation handles at once",
  "Most operations are C code which works on 8 or 16 elements at once with "
  "special cases for lengths, metavalues and carries; tests compute a few sums.",
  A("src/jit/jit-intrin.c lib/ieee.08/numeric_std-body.vhdl", [
      ("packed addition", "src/jit/jit-intrin.c __ieee_packed_add"),
      ("sign extension", "src/jit/jit-intrin.c __resize_signed, __conv_signed"),
      ("vector operations", "src/jit/jit-intrin.c ieee_and_vector_sse41")]),
  "Lengths 1 to 9 and 17 for + - (all binary values), up to 45 elements for "
  "logic operators (two symbolic elements), up to 9 bits for * and relations, "
  "3 for / rem mod; integers over the whole range for conversions and +.")

P("P13", "Assertions, reports, their counts and the exit status agree",
  "Every assertion whose condition is false and every report statement gives "
  "exactly one message of its severity (unless disabled with "
  "SetVhdlAssertEnable) and is counted by GetVhdlAssertCount until "
  "ClearVhdlAssert; concurrent and postponed assertions are evaluated when "
  "their signals change and messages while the design is prepared do not "
  "count. A message of at least the exit severity ends the simulation at "
  "once; the exit status is 0 exactly if no assertion of at least that "
  "severity (by default error) failed or FINISH and STOP gave no status, "
  "and otherwise nonzero or the status given.",
  "inputs",
  "which assertions fail, severities, exit severity, the status passed to "
  "FINISH or STOP, and enabling and clearing between them",
  "Regressions that pass or fail by exit status depend on it and the tests "
  "only run a few fixed combinations.",
  A("src/rt/assert.c src/diag.c src/jit/jit-exits.c src/rt/model.c", [
      ("assertion exit", "src/jit/jit-exits.c x_assert_fail, x_report"),
      ("counts", "src/rt/assert.c get_vhdl_assert_count"),
      ("exit status", "src/rt/assert.c get_vhdl_assert_exit_status")]),
  "Up to six messages in one run over all severities and exit severities; "
  "status 0 to 255 for FINISH and STOP.")

P("P14", "PSL directives fail and match at the cycles the standard prescribes",
  "For any values of the signals, assert always, never and a plain property "
  "report a failure at exactly the clock cycles at which a requirement of the "
  "property is violated first (and at the end of simulation for strong "
  "operators that are not fulfilled), and cover matches at exactly the cycles "
  "at which the sequence completes. This holds for Boolean operators, ->, "
  "next[n], until, until_, before, before_ and their strong forms, "
  "eventually!, |->, |=>, sync_abort, prev, rose, fell, stable, and for "
  "sequences with ; : && [*n to m] [+] [->n] [=n] and nesting of them.",
  "histories",
  "every trace of three signals over four or five clock cycles",
  "A property is turned into a nondeterministic automaton with "
  "simplification and products, where an edge too many or too few only shows "
  "for particular traces.",
  A("src/psl/psl-fsm.c src/psl/psl-lower.c src/rt/model.c", [
      ("automaton", "src/psl/psl-fsm.c build_node, psl_simplify"),
      ("code", "src/psl/psl-lower.c psl_lower_state"),
      ("state update", "src/rt/model.c update_property, check_liveness_properties")]),
  "56 directives, each over all traces of three Boolean signals for 4 or 5 "
  "cycles; a single clock; the simple subset that nvc implements.")

NOT_APPLICABLE = []
KNOWN = [
 dict(property="P14", unit="psl12", check="eventually! and the current cycle",
      what="eventually! does not consider the current cycle: a -> eventually! "
      "b is reported as failing when b holds in the same cycle as a and not "
      "later (existing test psl11 expects it)"),
 dict(property="P14", unit="psl20", check="sequence that can be empty",
      what="an empty match of b[*0 to 2] inside a sequence takes a cycle: "
      "{a; b[*0 to 2]; c} does not match c in the cycle after a"),
 dict(property="P14", unit="psl22", check="sequence that can be empty",
      what="b[*] inside a sequence only matches the empty sequence: "
      "{a; b[*]; c} does not match a, b, c"),
 dict(property="P14", unit="psl35", check="sequence with alternatives",
      what="assert {a[*1 to 2]; b} fails as soon as one of the alternative "
      "ways to match the sequence fails"),
 dict(property="P11", unit="arr_alias",
      check="aggregate target of fields of the value",
      what="(p.r, p.l) := p where p is a record variable: the value of the "
      "expression is not copied, so the second part is read after the first "
      "was assigned"),
 dict(property="P11", unit="arr_alias",
      check="aggregate target of elements of the value",
      what="(t(2), t(1)) := t where t is an array variable: as for records"),
 dict(property="P11", unit="arr_null", check="right bound of null slice",
      what="the right bound of a null slice such as V(4 to 1) is L - 1 for a "
      "left bound of L instead of the one given (arrays are represented by "
      "their left bound and length)"),
 dict(property="P11", unit="arr_null", check="bounds of null concatenation",
      what="the concatenation of two null arrays has the lowest index and a "
      "right bound outside of the index type instead of the bounds of the "
      "right operand"),
 dict(property="P09", unit="bounds_copyback",
      check="copy back of out parameter",
      what="the value of an out or inout parameter of a procedure is not "
      "checked against the (narrower) subtype of the variable associated "
      "with it, which then holds a value outside of its subtype"),
 dict(property="P09", unit="bounds_rec",
      check="field of record aggregate",
      what="the value of a scalar field in a record aggregate is not checked "
      "against the subtype of the field (existing tests issue502 and "
      "issue477a depend on it)"),
 dict(property="P09", unit="bounds_wave",
      check="waveform not ascending",
      what="the elements of a waveform are not required to be in ascending "
      "order of time"),
 dict(property="P09", unit="bounds_sub",
      check="range constraint",
      what="the range constraint of a subtype indication or discrete range "
      "is not checked against the range of the type mark"),
 dict(property="P03", unit="wait_all_fn",
      check="process (all) which calls a function reading a signal",
      what="a process (all) does not resume on events of a signal which is "
      "read only inside a function (or a procedure declared outside the "
      "process) that it calls; IEEE 1076-2008 11.3 includes those signals"),
]
FIXED = [
 ("P14", "ec79738", "the left operand of until was required after the right one became true, before never failed, until! was not checked at the end"),
 ("P14", "fca4006", "cover directives missed later matches of a sequence that started at the same cycle"),
 ("P14", "b5f95ff", "until!_ was not recognised in PSL directives"),
 ("P14", "1156d4f", "|-> and |=> after [->n] crashed and after [=n] failed wrongly"),
 ("P14", "bed35af", "|-> never failed in cycles where the sequence on the left matches and can also match later"),
 ("P13", "87fdc5b", "assertions failing while a resolution function is memoised made the exit status nonzero"),
 ("P12", "7cb7c2a", "std_logic_signed = compared 'H' used as sign extension with '1'"),
 ("P11", "2bb8fee", "a null array was less than another null array"),
 ("P11", "0893c91", "sla filled with the leftmost and sra with the rightmost element for positive counts"),
 ("P11", "dc5b5af", "the elements of concatenations of arrays of unconstrained arrays had the bounds of the outer array"),
 ("P11", "075617e", "names and choices in aggregate targets were ignored: parts were assigned in textual order"),
 ("P11", "4dd6275", "multidimensional arrays with the same number of elements but different shapes could be equal"),
 ("P07", "2c4d307", "a conversion function overwrote the values of the resolved signal being computed, so signals connected to inout ports with conversions got wrong values"),
 ("P10", "f9b39f2", "aggregates with range choices such as (2 to 70 => '0') as choice of a case statement never matched"),
 ("P01", "9b63cda", "pulse rejection stopped at the first old transaction that differs instead of deleting all transactions in the rejection interval"),
 ("P01", "2c5dac7", "comparison of driver values looked at undefined bytes"),
 ("P01", "f946ed4", "a null transaction could not be told from other transactions in the projected waveform"),
 ("P01", "fd8de7c", "pulse rejection compared whole composites instead of each scalar subelement"),
 ("P02", "0011c1f", "'driving_value returned a stale value with fast drivers"),
 ("P02", "4fd0533", "S'delayed started with the default value of the type instead of the initial value of S"),
 ("P02", "a9d0ccc", "splitting a nexus lost outputs, so attributes of parts of ports were wrong"),
 ("P02", "da4e9ee", "'active, 'last_active and 'transaction of inout ports, and 'transaction of signals connected through conversions, missed activity of the actual"),
 ("P04", "98437cf", "signals of a resolved enumeration subtype whose range does not start at the first literal, such as X01, got wrong values with several drivers"),
 ("P04", "5940397", "the inputs of the resolution function of a composite were wrong when an array field is driven in parts or the composite is itself a subelement"),
 ("P04", "be1343e", "a constrained array subtype with element resolution was taken for a resolved composite and crashed the simulator when driven in parts"),
 ("P05", "3f7d01b", "values listed for forced signals were wrong for wide and split signals"),
 ("P07", "7c34530", "the effective value of inout ports connected to inner ports or through conversions was the value of another port or never updated"),
 ("P07", "274f249", "splitting a nexus lost the forcing and disconnected state of its sources"),
 ("P07", "d696f06", "the effective value of the actual was not converted for ports of mode in with a conversion"),
 ("P08", "b022146", "X * X gave 0 and 0.0 - X gave X"),
 ("P08", "a0dd9d7", "bounds of results of / - abs mod rem ** were wrong, so range checks were left out"),
 ("P08", "ba61ca4", "abs of the lowest integer was not reported"),
 ("P08", "eb5a233", "division of physical values by zero and MIN / -1 crashed instead of being reported"),
 ("P07", "8eb665f", "internal error for a conversion function of constrained result on an unconstrained port"),
 ("P07", "b58d222", "crash when a port conversion of an element or slice fails"),
 ("P07", "9e3a316", "elaboration never ended for a port map with one port and several named associations"),
 ("P07", "c7ff492", "crash when part of a record field is associated in a port map"),
 ("P09", "38f00cb", "the value returned by a function was not checked against its result subtype"),
 ("P09", "895e1b0", "the operand of a qualified expression or allocator was not checked"),
 ("P09", "28feb57", "elements of array aggregates were not checked against the element subtype"),
 ("P09", "e83037f", "T'succ(T'high) and similar gave values outside of the enumeration type"),
]

# How each property is decided: oracle and cost, for DESIGN.md
HOW = {
"P01": "Oracle: `wave_orc.c`, a list of transactions per scalar edited literally by the steps of 10.5.2.2 and played back; the bench compares the value of the signal (and its activity) at each time step with it.",
"P02": "Oracle: `attr_orc.c` records each transaction and event and computes every attribute from the record at the moment the bench evaluates it.",
"P03": "Oracle: from the record of events (`attr_orc.c`) the bench computes the cycle in which each process has to resume; processes report each resumption.",
"P04": "Oracle: `res_orc.c`: list of drivers with connected flags, the table of 1164 written out by rule, user functions recomputed from the drivers' values.",
"P05": "Oracle: the bench tracks for each scalar subelement whether it is forced, and with what, next to the value of its drivers.",
"P06": "Oracle: `cycle_orc.c`: the sorted list of pending events of a small model; each process reports (time, delta) when it runs.",
"P07": "Oracle: values computed in the bench from the association; ports are compared at both ends in every cycle.",
"P08": "Oracle: `arith_orc.c`: 64-bit (or 128-bit) arithmetic in C with explicit ranges; `expect_error` states whether the simulator has to stop with an error before `passed` is called.",
"P09": "Oracle: for each access the bench states the condition under which it is legal, as arithmetic on the symbolic bounds; otherwise an element by element comparison with the state before.",
"P10": "Oracle: arithmetic on the selector written without the construct under test, and traces of the calls executed.",
"P11": "Oracle: element by element definitions in the bench over arrays whose bounds, lengths and elements are symbolic.",
"P12": "Oracle: `num_orc.c`: the vector packed into a 64-bit word, arithmetic of C on words, and logic operators by classes of values. The SSE4.1 code is executed symbolically as clang compiles it.",
"P13": "Oracle: `assert_orc.c` counts messages by severity and knows when the run has to stop and with which status.",
"P14": "Oracle: `psl_orc.c` evaluates the property by the truncated-path semantics of IEEE 1850 (sequences by recursive tight satisfaction) over the trace so far and compares failures and matches after each clock edge and at the end.",
}
