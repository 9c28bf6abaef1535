prop("C01", "Optimisation passes preserve program behaviour in every order",
 "Building a program and applying any sequence of optimisation passes, with any optimisation flags, leaves a program that performs the same calls with the same arguments in the same order, returns the same results and leaves the same global memory as the source program. Every graph passes verification after every pass. No pass crashes, fails an assertion or runs forever, whatever passes ran before it.",
 ["histories", "programs", "configurations", "interleavings"],
 "for every program without undefined behaviour, every pass history and optimisation flag set, every order in which independent memory operations may execute, and every heap layout of the compiling process",
 "the unit tests never run an optimisation pass on a graph",
 ["ir/opt", "ir/ana", "ir/ir", "ir/lower", "ir/tr"],
 [("local optimisation rules", "ir/opt/iropt.c"), ("loop passes", "ir/opt/loop.c, ir/opt/loop_unrolling.c, ir/opt/opt_osr.c, ir/opt/lcssa.c"), ("memory passes and alias analysis", "ir/opt/ldstopt.c, ir/opt/gvn_pre.c, ir/opt/parallelize_mem.c, ir/ana/irmemory.c"), ("conditional constant propagation and value numbering", "ir/opt/combo.c"), ("inlining, cloning, tail recursion", "ir/opt/opt_inline.c, ir/opt/proc_cloning.c, ir/opt/tailrec.c"), ("graph properties", "ir/ir/irgraph.c: assure_irg_properties, confirm_irg_properties")],
 observe=["graph interpreter trace", "irg_verify", "process end"],
 level_note="seeded search over programs and pass histories; about one run in 300000 at other seeds still shows a defect of an optimisation that is not repaired",
 technique="deterministic simulation of pass histories on a simulated machine, seeded interleaving of independent memory operations in a graph interpreter, comparison with a reference evaluator of the source program")
prop("C02", "Emitted machine code behaves as the source program in every configuration",
 "For every combination of backend options, the machine code emitted for a program performs the same calls with the same arguments in the same order, returns the same results and leaves the same global memory as the source program. The assembler accepts what the emitter writes, and the code neither traps nor runs forever where the source program does not. No scheduler, spiller, register allocator, coalescing or colouring variant crashes or gives up on a valid program.",
 ["programs", "configurations", "histories"],
 "for every program without undefined behaviour, every i686 and x86_64 option combination, every preceding pass sequence, and every heap layout of the compiling process",
 "no unit test runs a backend; register pressure, spill placement and scheduling interact, so a wrong transformation shows only for particular programs under particular option combinations",
 ["ir/be", "ir/lower", "ir/kaps"],
 [("instruction selection", "ir/be/amd64/amd64_transform.c, ir/be/ia32/ia32_transform.c"), ("register allocation", "ir/be/bechordal.c, ir/be/beprefalloc.c, ir/be/becopyheur4.c, ir/be/bepbqpcoloring.c"), ("spilling", "ir/be/bespillbelady.c, ir/be/bespilldaemel.c, ir/be/bespillutil.c"), ("schedulers", "ir/be/beschedrand.c, ir/be/beschednormal.c, ir/be/beschedtrivial.c"), ("lowering", "ir/lower/lower_dw.c, ir/lower/lower_switch.c, ir/lower/lower_mode_b.c")],
 observe=["trace recorded by the externals the emitted code calls", "exit status of the emitted code", "process end of the compiler"],
 level_note="seeded search; floating point on i686 with exact x87 arithmetic or soft float only, none with fpmath=sse; the ARM, SPARC, MIPS and RISC-V backends cannot be executed here and are covered by the compile-only properties",
 technique="deterministic simulation of compilations on a simulated machine; the emitted code is executed against recording stubs and compared with a reference evaluator of the source program")
prop("C03", "Compilation results do not depend on the machine running the compiler",
 "Compiling the same program with the same target, options and pass sequence produces byte-identical exported programs and assembler output in every process. The result does not depend on where the allocator places memory, whether freed memory is reused, what uninitialised memory or stack contains, the clock, the process id or the environment. Success or failure of the compilation does not depend on them either.",
 ["configurations", "programs", "histories"],
 "for every program, target, option set and pass sequence, and every pair of heap layouts, reuse policies, memory contents, clock values, process ids and environments",
 "the unit tests check pure data structures and arithmetic in one process with one heap layout; none of them compiles a program twice, and dependence on addresses only shows with particular layouts",
 ["ir/opt", "ir/ana", "ir/be", "ir/ir", "ir/adt"],
 [("sets and maps are iterated in an order not derived from addresses", "ir/ana/callgraph.c, ir/ana/cgana.c, ir/opt/ldstopt.c, ir/opt/proc_cloning.c, ir/be/belive.c"), ("identities and value numbers are derived from node indices", "ir/ir/iropt.c"), ("emission order", "ir/be/begnuas.c, ir/be/beblocksched.c")],
 observe=["ir_export_file", "be_main"],
 level_note="seeded search: generated programs, pass histories and machine configurations; residual rate of unexplained differences at other seeds is recorded in DESIGN.md",
 technique="the same compilation on several simulated machines (heap layout, reuse, junk, stack, clock, pid, environment), byte comparison")
prop("C04", "An exported program survives the exporting process unchanged",
 "A program exported completely to a file and imported in a fresh process is the same program: same types, entities, initialisers, graphs, node attributes and program-wide data, up to renumbering. Code generated from the imported program behaves like the original. Exporting and importing again changes nothing further.",
 ["programs", "histories", "crash_points"],
 "for every program the library can construct and every pass history before the export, any transfer sizes the disk delivers, and any heap state of the restarted process",
 "there is no test of export or import at all",
 ["ir/ir/irio.c", "ir/ir/irio_t.h"],
 [("textual writer", "ir/ir/irio.c: ir_export_file, write_*"), ("textual reader", "ir/ir/irio.c: ir_import_file, read_*")],
 observe=["ir_export", "ir_import"],
 level_note="seeded search over programs, pass histories and disk behaviour; comparison by independent structural snapshot, by re-export and by executing the generated code",
 technique="export, crash of the process, restart and import on a simulated disk with short transfers; reference comparison before/after")
prop("C05", "Importing a damaged file is always reported and never hangs or crashes",
 "When an exported file is truncated anywhere inside a section, or reading it fails at any byte, importing it ends with an error result or a diagnosed termination of the process. It never reports success, never reads or writes outside its memory and never loops forever. An undamaged file is accepted whatever sizes the reads deliver.",
 ["crash_points", "fault_sequences", "programs"],
 "for every exported program, every byte at which the file ends or the read error happens, transient or permanent, and every sequence of short reads",
 "no test imports a file, damaged or not",
 ["ir/ir/irio.c"],
 [("end of file and error handling of the lexer and list/scope readers", "ir/ir/irio.c: read_c, skip_ws, list_has_next, scope_has_next, ir_import"), ("unresolved references", "ir/ir/irio.c: read_graph, get_node_or_null")],
 observe=["ir_import return value", "process exit"],
 level_note="seeded search over crash points; a file cut exactly between two sections is indistinguishable from a complete shorter file and is accepted as either",
 technique="torn files and read errors at seeded byte positions on a simulated disk, simulated heap that detects bad accesses, CPU budget for hangs")
prop("C06", "An acknowledged export is complete on disk",
 "When exporting to a file reports success, the file contains exactly the complete export. Any failure to open, write, flush or close it, transient or permanent, at any byte, is reported as an error. A failed export leaves no file open, does not change the program and a later export to a healthy disk succeeds with the complete content.",
 ["fault_sequences", "crash_points", "programs"],
 "for every program, every byte at which the disk fails or runs full, every error kind including errors that only show when closing, and every buffering",
 "no test exports a program, let alone with failing writes",
 ["ir/ir/irio.c"],
 [("error detection and close handling", "ir/ir/irio.c: ir_export"), ("writer", "ir/ir/irio.c: ir_export_file")],
 observe=["ir_export return value", "file content"],
 level_note="seeded search over error kind and position",
 technique="write errors, full disk, failing open/close and short writes injected at seeded bytes of a simulated disk; content compared with the fault-free export")
prop("C07", "Assembler output under write errors is complete or visibly failed",
 "When generated assembler is written to a stream that suffers write errors or runs full, code generation neither crashes nor hangs. If the stream shows no error afterwards, the file holds exactly the output a healthy disk receives; otherwise the error is visible on the stream, and after a permanent error the file is a prefix of that output. Short writes alone never cause an error or change the output.",
 ["fault_sequences", "programs", "configurations"],
 "for every program, target and option set and every position and kind of write fault",
 "no test runs code generation",
 ["ir/be/bemain.c", "ir/be/beemitter.c", "ir/be/begnuas.c", "ir/be/bedwarf.c"],
 [("line-wise emission to the output stream", "ir/be/beemitter.c: be_emit_write_line"), ("global data and debug sections", "ir/be/begnuas.c, ir/be/bedwarf.c")],
 observe=["be_main output stream"],
 level_note="seeded search over error kind and position for all six backends",
 technique="write faults at seeded bytes of the simulated output stream, comparison with the fault-free output")
NA = "a pure function of its input: no schedule, clock, I/O, allocation history or process life cycle can change the result, so there is nothing for a simulator to decide; input generation alone would not be this technique"
prop("C08", "Observing a compilation does not change its result",
 "Dumping graphs, types, entities, control flow or loop trees with any dump flags, exporting, timing, statistics, debug messages and the dumping, timing and verification options of the backends leave the program as it was, and the compilation ends with the same exported program and the same assembler output as without them. This also holds when the disk they write to fails or runs full; only the observation may get lost.",
 ["programs", "histories", "fault_sequences", "configurations"],
 "for every program, pass history, set and position of observers, dump flags and behaviour of the disk they write to",
 "no test dumps, traces or verifies anything while it compiles, and none compares results with and without it",
 ["ir/ir", "ir/be", "ir/stat", "ir/common", "ir/debug"],
 [("graph, type and entity dumps", "ir/ir/irdump.c, ir/ir/irdumptxt.c, ir/be/bedump.c"), ("verification", "ir/ir/irverify.c, ir/be/beverify.c"), ("statistics and timers", "ir/stat/statev.c, ir/common/timing.c"), ("debug messages", "ir/debug/debug.c")],
 observe=["ir_export_file before and after every observer", "ir_export_file", "be_main"],
 level_note="seeded search; verification of a graph computes dominance and out edges and keeps them, so both compared runs verify at the same points; the interference graph dump refuses to run when its file cannot be opened and is not combined with that fault",
 technique="the same compilation on one simulated machine with and without observers at seeded points writing to a faulty simulated disk, byte comparison")
prop("C09", "A failing allocation is diagnosed or leaves the result unchanged",
 "When an allocation fails at any point of building, optimising, exporting, importing or generating code, once or for good, the process ends with a diagnostic about memory or the operation reports an error. It never continues with damaged data: a compilation that ends normally has produced exactly the output it produces without the failure.",
 ["fault_sequences", "crash_points", "programs"],
 "for every program, target and option set, every allocation of the compilation that fails, and transient or permanent failure",
 "no test makes an allocation fail",
 ["ir"],
 [("checked allocation functions", "ir/adt/xmalloc.c"), ("growing arrays and obstacks", "ir/adt/array.c, ir/obstack"), ("all users", "ir")],
 observe=["process end", "ir_export_file", "be_main", "ir_import"],
 level_note="seeded search over the failing allocation; allocations inside the C library are assumed to succeed",
 technique="allocation failures injected at seeded positions of the simulated heap, which also detects bad accesses; comparison with the failure-free compilation")
prop("C10", "Timers account elapsed time exactly",
 "After any legal sequence of starting, stopping, pushing, popping, parenting and resetting timers, every timer reads exactly the time during which it ran, whatever the clock does in between: time passed while a pushed timer displaced others is not theirs, and changing the scheduling priority or failing to do so changes no reading. Starting a running timer, stopping a stopped one and stopping out of order are diagnosed.",
 ["histories", "schedules", "fault_sequences"],
 "for every sequence of timer operations on any set of timers, every advance and jump of the clock and every failure of the scheduling system calls",
 "no test uses timers, and real clocks cannot be made to jump",
 ["ir/common/timing.c"],
 [("timer stack, push and pop", "ir/common/timing.c")],
 observe=["ir_timer_elapsed_usec, ir_timer_elapsed_sec", "process end"],
 level_note="seeded search over operation sequences; a running timer is never reset",
 technique="seeded operation sequences under a simulated clock that jumps and simulated scheduling system calls that fail; comparison with a reference model")
prop("C14", "Execution profiles are exact and a bad profile changes nothing",
 "A program compiled with instrumentation behaves as the original, and when it ends each counter holds exactly how often its block was executed, for every unit of the program. The profile on the disk, read in a later compilation of the same program on any machine, gives exactly these counts to exactly these blocks and frequencies proportional to them, and the code generated with it behaves as the source. A missing, short or unreadable profile is reported and then the code is the same as without a profile.",
 ["programs", "fault_sequences", "configurations", "crash_points"],
 "for every program and input, every failure and every position of a failure when the profile is written or read, and every pair of machines that compile",
 "no test instruments a program; lost counts need an unlucky instruction order around a recursive call, and damaged profiles need a disk that fails at a particular byte",
 ["ir/ir/irprofile.c", "support/libfirmprof", "ir/be/bemain.c", "ir/ana/execfreq.c"],
 [("instrumentation and reading", "ir/ir/irprofile.c"), ("writing when the program ends", "support/libfirmprof/instrument.c"), ("use in a compilation", "ir/be/bemain.c: be_init_profile, be_main")],
 observe=["counters of the executed code", "profile file", "ir_profile_get_block_execcount", "get_block_execfreq", "emitted code and its execution"],
 level_note="seeded search; on i686 the counts are checked against conservation of flow only, because lowered 64 bit operations are not interpreted; a complete profile of an older run cannot be told from the right one",
 technique="deterministic simulation of the three steps (instrumented run, writing, later compilation) on simulated machines and disks with injected failures; counts compared with a graph interpreter")
prop("C15", "The statistics log is complete, well nested and costs nothing afterwards",
 "Every statistics event, context and measured time that passes the filter is written to the log once, in order, with its value, and a measured time contains exactly the time between its start and end that no inner measurement covers. When writing fails for good the log is a prefix of that; when it cannot be opened nothing is recorded and the compilation goes on. Contexts of a compilation are well nested, and after measuring, the scheduling policy, priority and processor affinity of the process are what they were before.",
 ["histories", "fault_sequences", "schedules"],
 "for every sequence of events, contexts and nested measurements, every filter, clock behaviour, disk fault and failure of the scheduling system calls, and for the events of every compilation",
 "no test enables statistics events",
 ["ir/stat", "ir/be", "ir/opt"],
 [("events, contexts and nested measurement", "ir/stat/statev.c"), ("priority and affinity", "ir/stat/stat_timing.c")],
 observe=["log file", "scheduling state"],
 level_note="seeded search; leaving the raised priority may fail when its system calls fail, the next measurement repairs that",
 technique="seeded event sequences and instrumented compilations on a simulated clock, disk and scheduler with injected failures; comparison with a reference model")
prop("C11", "Analysis results claimed to be valid equal a recomputation",
 "Whenever a graph claims that its dominance, postdominance, dominance frontiers, loop tree, out edges, outs or entity usage is consistent, these equal what follows from the graph as it is; whenever it claims to contain no Bads, Tuples, unreachable code, critical edges or more than one return, it does not. This holds after construction, after every optimisation pass and lowering, and after any requested combination of properties has been assured, and requesting a property always establishes it.",
 ["histories", "inputs"],
 "for every program and every history of passes and property requests",
 "the unit tests construct no graph with a control flow history; a stale analysis result only matters when a later pass uses it",
 ["ir/ana", "ir/ir", "ir/opt", "ir/lower"],
 [("property bookkeeping", "ir/ir/irgraph.c"), ("dominance", "ir/ana/irdom.c"), ("dominance frontiers", "ir/ana/domfront.c"), ("loop tree", "ir/ana/ircfscc.c"), ("out edges", "ir/ir/iredges.c"), ("outs", "ir/ana/irouts.c"), ("entity usage", "ir/ana/irmemory.c")],
 observe=["analysis results through the public accessors"],
 level_note="seeded search; entity usage is checked as an over-approximation, out edges from unreachable nodes are not counted, the loop tree is not compared while Tuples stand for control flow",
 technique="seeded histories of passes and analysis requests on simulated heaps; every claimed result is compared with an independent recomputation after each step")
prop("C13", "Verification reports every violated structural rule",
 "A program graph that breaks a structural rule of the representation - modes of operands and results, number and placement of operands, result numbers, dominance of uses by definitions, shape of the control flow, keep-alive edges, consistency of attributes with types and entities, graph properties that are claimed - is reported by verification, whichever rule is broken at whichever node and at whatever moment of a compilation. Verification itself ends on such a graph: it neither crashes nor runs forever. When the damage is undone the graph is accepted again.",
 ["programs", "histories", "fault_sequences"],
 "for every program, every pass history before the damage, every node and every structural rule, and every sequence of damages and repairs",
 "no unit test calls the verifier on a wrong graph; a rule that is no longer checked shows only when some pass breaks it",
 ["ir/ir/irverify.c", "ir/ir/irgwalk.c", "ir/ana/irdom.c"],
 [("rules of each node", "ir/ir/irverify.c: verify_node_*"), ("control flow, dominance, liveness at End", "ir/ir/irverify.c: check_cfg, check_dominance, irg_verify"), ("claimed properties", "ir/ir/irverify.c, ir/ir/irgraph.c: irg_assert_property")],
 observe=["irg_verify", "process end"],
 level_note="seeded search over programs, histories and 34 kinds of damage; a mode other than X for an unconditional jump is not injected (dominance, which the verifier computes first, relies on it)",
 technique="fault injection into the representation: seeded structural damage to graphs at drawn points of a simulated compilation, each judged by the rule it was built to break, then undone")
prop("C16", "Containers hold exactly what their history of operations put in",
 "Every set, map, queue, array, list, bitset, union-find structure, bipartite graph, memory stack and identifier table of the library yields after every sequence of operations exactly the elements and results the sequence defines: lookups find what was inserted and not removed, iteration visits each element once (also while elements are removed through the iterator), orders, sizes and contents are right. This does not depend on addresses, hash functions, the contents of fresh memory, moving reallocation or other containers on the same heap.",
 ["histories", "configurations"],
 "for every sequence of operations on any number of containers, every hash function and every heap",
 "the unit tests cover a few fixed sequences for some of the containers with one allocator; growth, shrinking, tombstones and collisions need long histories and unlucky addresses",
 ["ir/adt", "include/libfirm/adt", "ir/ident", "ir/obstack"],
 [("dynamic hash sets and maps", "ir/adt/set.c, ir/adt/pset.c, ir/adt/pmap.c"), ("open addressing sets", "ir/adt/hashset.c.h, ir/adt/pset_new.c, ir/adt/cpset.c"), ("queues and arrays", "ir/adt/pqueue.c, ir/adt/deq.c, ir/adt/array.c"), ("bitsets", "ir/adt/raw_bitset.h, ir/adt/bitset.h"), ("others", "ir/adt/bipartite.c, include/libfirm/adt/unionfind.h, include/libfirm/adt/list.h, ir/obstack/obstack.c, ir/ident/ident.c")],
 observe=["results of container operations", "process end"],
 level_note="seeded search over operation histories on simulated heaps",
 technique="deterministic simulation of operation histories on containers sharing a simulated heap (drawn addresses, junk, reuse, moving reallocation); model comparison after every operation")
na("N01", "Target constant arithmetic is exact", "Every arithmetic operation and conversion on target constants yields the value the target's arithmetic defines, for all integer widths and floating point formats.", ["inputs"], "for all operands and modes", "tests sample operands", ["ir/tv/tv.c", "ir/tv/strcalc.c", "ir/tv/fltcalc.c"], [("integer and float calculators", "ir/tv")], NA)
na("N02", "Formatted printing renders every argument as documented", "The library's formatted printing renders every supported conversion of every object exactly as documented.", ["inputs"], "for all format strings and arguments", "tests sample formats", ["ir/ir/irprintf.c", "ir/libcore/lc_printf.c"], [("conversion table", "ir/libcore/lc_printf.c")], NA)
na("N03", "Compound type layout follows the target's rules", "Sizes, alignments and member offsets computed by the default layout follow the target's rules.", ["inputs"], "for all types", "no tests", ["ir/tr/type.c", "ir/lower/lower_softfloat.c"], [("default_layout_compound_type", "ir/tr/type.c")], NA)
na("N04", "The assignment solver returns a minimum cost assignment", "The bipartite assignment solver returns an assignment of minimum cost for every cost matrix.", ["inputs"], "for all matrices", "no tests", ["ir/adt/hungarian.c"], [("hungarian method", "ir/adt/hungarian.c")], NA)
na("N05", "Machine triples are parsed to the documented target", "Every documented machine triple and option string selects the target it names and every other string is rejected.", ["inputs"], "for all strings", "no tests", ["ir/common/target.c", "ir/common/machine_triple.c", "ir/libcore/lc_opts.c"], [("parser", "ir/common/machine_triple.c")], NA)
