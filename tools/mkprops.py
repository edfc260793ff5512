#!/usr/bin/env python3
"""Emits /verif/properties.jsonl (kept in one place so that titles stay in step)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

# ---------------------------------------------------------------- driver side
prop("C01", "Exit status 0 means every requested output is complete and correct",
 "If the compiler driver exits with status 0, every output the command line asked for exists and is byte-for-byte what the same command produces when no fault occurs. This holds whatever write, flush, close, open, seek or disk-full error happens to any output, intermediate or dependency file or to standard output; such an error makes the run exit with a nonzero status instead.",
 ["fault_sequences", "inputs", "configurations"],
 "every command line (-c, -S, -E, -M/-MD, link; file or standard output), every program, every placement of output-side I/O errors, including several in one run and errors first reported by close",
 "The tests only run with a healthy disk; a truncated assembly file is usually still valid assembly, so nothing downstream would notice. No test injects ENOSPC/EIO.",
 ["main.c", "codegen.c", "strings.c"],
 [("cc1 writes the assembly, print_tokens the -E text, print_dependencies the rule", "main.c: cc1, print_tokens, print_dependencies, open_file"), ("run_subprocess checks the helper's status", "main.c: run_subprocess")],
 [("output stream", "stdio stream whose error state must reach the exit status", "main.c")], ["exit status and contents of the output files"])
prop("C02", "Input-side I/O faults never silently change what is compiled",
 "A read error, a failed open or a failed lookup on a source, header, embedded or -include file makes the run exit nonzero with a diagnostic; it is never treated as end of file, as an empty file, as an absent file or as permission to use a different file. How the input arrives (in pieces of any size, from a file or from standard input) never changes the result.",
 ["fault_sequences", "inputs", "schedules"],
 "every input set, every splitting of every input into short reads, every placement of read/open/lookup errors",
 "Tests read small regular files from a healthy file system; no test makes a read fail or return short.",
 ["tokenize.c", "preprocess.c", "main.c"],
 [("read_file reads the whole input", "tokenize.c: read_file"), ("embed_file reads embedded resources and answers __has_embed", "preprocess.c: embed_file"), ("file_exists drives the include search", "main.c: file_exists; preprocess.c: search_include_paths*")],
 [], ["exit status, diagnostics and output contents"])
prop("C03", "A failed helper process is never mistaken for success",
 "If any process the driver starts (a per-input compilation, the assembler, the linker) cannot be started, exits nonzero or is killed by a signal, the driver exits nonzero, starts no later stage that depends on it, and never links. The driver always terminates, waits for each process it started before finishing, and never confuses another child process it happens to have with the one it started.",
 ["fault_sequences", "schedules", "histories"],
 "every pipeline of inputs and stages, every choice of which helper fails and how (fork failure, exec failure, nonzero exit, death by signal), every relative timing, with or without inherited children",
 "Tests run healthy helpers only and never check what follows a failure; schedule and failure point are not under their control.",
 ["main.c"],
 [("run_subprocess", "main.c: run_subprocess"), ("run_cc1", "main.c: run_cc1"), ("main's stage sequencing", "main.c: main")],
 [], ["exit status; the process and file operations performed"])
prop("C04", "No temporary or stray files: only the requested outputs are touched",
 "Whenever the driver ends by itself, successfully or not, none of its temporary files remain. Apart from its own temporary files it creates, changes and removes nothing but the outputs the command line names or implies; inputs and unrelated files are never modified.",
 ["fault_sequences", "inputs", "configurations", "schedules"],
 "every command line and every point at which compilation, assembly, linking or an I/O operation fails, in the driver or in its children",
 "No test looks for leftovers, and the paths that leave them (failure halfway through a multi-file build) are not exercised.",
 ["main.c"],
 [("atexit(cleanup) over tmpfiles", "main.c: cleanup, create_tmpfile")],
 [("tmpfiles", "temporary files to be removed at exit", "main.c")], ["file system contents after exit"])
prop("C05", "A failed compilation leaves earlier outputs untouched",
 "When an input is rejected (a source error, a missing file, a failing helper), an output file of an earlier run that the rejected step would have replaced keeps its previous contents, and no new output appears under its name. Outputs of other inputs already completed in the same run are complete.",
 ["inputs", "histories", "fault_sequences"],
 "every command line whose k-th input fails at any stage, over any earlier contents of the outputs",
 "Tests compile programs that succeed; none keeps an old output around to see whether a failing run damages it.",
 ["main.c", "parse.c", "codegen.c"],
 [("the output is opened only after parsing succeeded", "main.c: cc1"), ("stages run in order and stop at the first failure", "main.c: main, run_cc1, run_subprocess")],
 [], ["file system contents before and after"])
prop("C06", "Concurrent invocations do not interfere",
 "Any number of invocations running at the same time, in the same directories and on the same inputs but with different outputs, each produce exactly the outputs, diagnostics and exit status they would have produced running alone, for every interleaving of their file and process operations.",
 ["schedules", "configurations"],
 "every set of concurrent command lines with distinct outputs and every interleaving of their system calls, including colliding choices of temporary names",
 "Tests run in parallel by accident at best; the interleaving is not controlled and name collisions practically never happen.",
 ["main.c"],
 [("exclusive creation of uniquely named temporary files", "main.c: create_tmpfile")], [], ["outputs and statuses of all invocations"])
prop("C07", "Rerunning after being killed at any point gives the correct result",
 "If the driver or any of its processes is killed at an arbitrary instant, running the same command again afterwards succeeds and produces exactly the outputs of an undisturbed run, regardless of the partial outputs and temporary files left behind.",
 ["crash_points", "histories"],
 "every command line, every crash point, repeated crashes, whole-tree kills and kills of a single process",
 "No test kills the compiler; crash points cannot be enumerated by hand-written tests.",
 ["main.c"],
 [("outputs are opened truncating, temporary names are fresh", "main.c: open_file, create_tmpfile")], [], ["outputs of the second run"])
prop("C08", "Memory reclamation under memory pressure is invisible",
 "Whether, and with which allocator behaviour, the compiler reclaims memory during compilation never changes its output, diagnostics or exit status. It never uses reclaimed memory, for any program.",
 ["programs", "schedules", "configurations"],
 "every program and preprocessing input, with memory pressure reported or not, and every allocator reuse policy (immediate reuse, delayed reuse, poisoning)",
 "Pressure only begins at 100 MB resident, which no test reaches in the shipped build; with the sanitizer the allocator hides reuse effects.",
 ["alloc.c", "preprocess.c", "parse.c", "tokenize.c", "codegen.c"],
 [("check_mem_usage decides free_alloc", "alloc.c: check_mem_usage; preprocess.c: preprocess"), ("mark (is_root/is_live) and sweep of tokens", "preprocess.c: expand_macro, free_funclike_args, preprocess; parse.c: free_parsed_tok"), ("arena release", "alloc.c: arena_off")],
 [("free_alloc", "reclamation is on", "alloc.c")], ["output bytes"])
prop("C09", "Output depends only on the inputs, not on the execution environment",
 "The same command on the same inputs produces byte-identical outputs and diagnostics, whatever the contents of fresh memory, heap placement and reuse, stack contents, process ids, temporary file names and time of day (unless the program asks for the time).",
 ["schedules", "programs", "configurations"],
 "every program and command line, and every value of each environmental choice",
 "A test run sees one allocator and mostly zeroed memory; a dependence on them shows up as a rare irreproducible build.",
 ["codegen.c", "parse.c", "preprocess.c", "tokenize.c", "type.c", "hashmap.c", "alloc.c", "main.c", "strings.c", "unicode.c"],
 [("all state is initialised; iteration orders are list orders", "all")], [], ["output bytes"])
prop("C10", "Running out of memory never produces a wrong output with success",
 "If memory allocation fails at any point, the run either still produces exactly the fault-free output or does not report success. It never exits with status 0 after dropping, truncating or altering any part of the translation.",
 ["fault_sequences", "programs"],
 "every program, every allocation (including the growth of in-memory streams) failing once, repeatedly or permanently",
 "No test makes an allocation fail.",
 ["strings.c", "tokenize.c", "codegen.c", "alloc.c", "hashmap.c"],
 [("in-memory streams hold sources, formatted names and the code of each function", "strings.c: format; tokenize.c: read_file; codegen.c: prepare_funcgen/end_funcgen")], [], ["exit status and output bytes"])
prop("C11", "Time macros describe one instant; clock changes affect nothing else",
 "__DATE__ and __TIME__ expand throughout a compilation to one and the same instant, which lies between the start and end of that compilation, in their standard formats; __TIMESTAMP__ gives the current file's modification time. Clock jumps and skew between any two steps change no other byte of any output.",
 ["schedules", "fault_sequences", "inputs"],
 "every date and time, every forward or backward clock jump at any step of the compilation",
 "Tests run at one wall-clock instant and cannot cross midnight or jump the clock during a run.",
 ["preprocess.c"],
 [("one reading of the clock at start-up", "preprocess.c: init_macros"), ("timestamp_macro", "preprocess.c: timestamp_macro")], [], ["expansion of the macros"])
prop("C12", "Generated dependency files make incremental rebuilds correct",
 "If a build tool rebuilds an object exactly when a file named in its generated dependency rule is newer (or the rule is missing), then after any history of edits, additions and removals of included or embedded files and of failed or repeated compiler runs, every object reported up to date equals what a clean build produces. With phony targets requested, removing a header never blocks the rebuild.",
 ["histories", "inputs", "configurations", "fault_sequences"],
 "every include graph (quoted, angle, nested, conditional, -include, macro-expanded, embedded files, odd file names), every edit history, with helper failures in between",
 "The tests check that two names occur in one generated file; no edit history is ever played.",
 ["main.c", "tokenize.c", "preprocess.c"],
 [("every opened source is recorded as an input file", "tokenize.c: add_input_file"), ("print_dependencies", "main.c: print_dependencies, quote_makefile")],
 [("input_files", "files read so far", "tokenize.c")], ["dependency file, object contents"])
prop("C13", "Compiling several inputs in one run equals compiling each alone",
 "For inputs given together on one command line, each per-input output (assembly, object, preprocessed text, dependency rule) is identical to the one obtained by compiling that input alone with the same options, whatever the order and kind of the other inputs, and the link sees all objects in command-line order.",
 ["histories", "configurations", "inputs", "schedules"],
 "every list of inputs of mixed kinds (.c, .s, .S, .o, .a, -x switches, standard input), in every order",
 "Two trivial multi-file command lines are tested, and only for existence of their outputs.",
 ["main.c"],
 [("a forked child per input keeps compiler state apart", "main.c: run_cc1"), ("ld_args collects objects in order", "main.c: main")], [], ["outputs; the linker's arguments"])

# ---------------------------------------------------------------- generated code
prop("C14", "Atomic operations in compiled programs are indivisible",
 "Every operation on an atomic object (load, store, exchange, compare-exchange, fetch-and-modify, compound assignment, increment and decrement, flag operations) in a compiled program takes effect at a single instant between its start and its end, with the value and conversions C prescribes for that type. No update is lost, duplicated or torn under any interleaving of threads.",
 ["schedules", "programs"],
 "every scalar atomic type, every operation and operand type, every addressing form (global, static, pointer, member, element, thread-local), every instruction-level interleaving of threads",
 "Existing tests run atomics from one or two free-running threads; lost updates need a preemption between particular instructions.",
 ["parse.c", "codegen.c", "type.c", "include/stdatomic.h"],
 [("atomic_op's compare-and-swap loop", "parse.c: atomic_op, to_assign, new_inc_dec, assign"), ("ND_CAS/ND_EXCH emission", "codegen.c: gen_expr2"), ("header macros", "include/stdatomic.h")],
 [], ["history of operations with results, final object values"])
prop("C15", "Atomic operations on several objects are sequentially consistent",
 "All atomic operations of a compiled program, on however many objects, appear in one total order consistent with each thread's program order, even on a processor that delays stores. In particular store-buffering, message-passing, and independent-reads patterns never show an outcome that no interleaving explains.",
 ["schedules", "programs"],
 "every small multi-threaded program over several atomic objects, every interleaving and every delay of stores the processor's memory model permits",
 "A weak outcome needs a store to stay buffered at a particular moment; free-running tests essentially never see it.",
 ["parse.c", "codegen.c", "include/stdatomic.h"],
 [("atomic stores are emitted as exchange", "parse.c: assign; codegen.c: ND_EXCH"), ("locked compare-exchange", "codegen.c: ND_CAS")], [], ["results of all operations"])
prop("C16", "Each thread has its own correctly initialised thread-local objects",
 "In a compiled program every thread-local object has a separate instance per thread, starting from its initialiser, at a stable address within the thread, and an access by one thread never reads or changes another thread's instance, in every code model and under every interleaving.",
 ["schedules", "configurations", "programs"],
 "every thread-local type and initialiser, static/extern/function-local, every code model (executable, PIE, PIC shared object, emulated), every interleaving",
 "One test program checks two threads in one code model with free-running scheduling.",
 ["codegen.c", "parse.c"],
 [("gen_addr's TLS models", "codegen.c: gen_addr"), ("emit_data's TLS sections and emulated control objects", "codegen.c: emit_data")], [], ["values and addresses per thread"])
prop("C17", "A signal at any instruction does not disturb compiled code",
 "If a signal handler runs between any two machine instructions of a compiled function, on the same stack as the platform prescribes (only the 128 bytes below the stack pointer are preserved), the function continues and finishes with the same results as if no signal had come. This includes handlers that run the very same function and nested signals.",
 ["schedules", "programs", "crash_points"],
 "every function, every instruction boundary, every handler (including re-entering the interrupted code)",
 "Tests take no signals; a spill outside the protected stack area or in static memory is invisible without one at the right instruction.",
 ["codegen.c"],
 [("all spills live inside the allocated frame", "codegen.c: push_tmpstack, pop_tmpstack, emit_text"), ("expansion sequences that move the stack pointer first", "codegen.c: cast tables, builtin_alloca, gen_funcall")], [], ["results of the interrupted function"])
prop("C18", "Functions that share no data can run concurrently",
 "Threads executing compiled functions, including the same function, that touch only their own automatic objects and arguments obtain exactly the results they obtain running one after another, under every instruction-level interleaving. The compiler introduces no hidden shared state.",
 ["schedules", "programs"],
 "every set of functions over automatic data (aggregates by value, compound literals, VLAs, alloca, variadic calls, long double, conversions), every interleaving",
 "Tests are single-threaded apart from two; sharing introduced by the compiler would need a preemption at the right place.",
 ["codegen.c", "parse.c"],
 [("compound literals, return buffers and temporaries are automatic", "parse.c: compound literal handling, funcall; codegen.c")], [], ["results per thread"])
prop("C19", "Volatile objects are accessed exactly as the program says",
 "Each evaluation of a volatile object in a compiled program causes exactly one read, and each assignment exactly one write, of that object, in program order, with the object's own width and no access beyond it; a value a device or another agent changes between two reads is seen by the second. This includes expressions whose value is discarded.",
 ["schedules", "programs", "histories"],
 "every scalar volatile type and access form, every sequence of values an external agent supplies",
 "Plain memory hides dropped, duplicated, merged and over-wide accesses; tests have no device behind any object.",
 ["codegen.c", "parse.c"],
 [("gen_expr/gen_void_expr load and store selection", "codegen.c: load, store, gen_void_expr, gen_mem_copy2"), ("constant folding skips volatile", "parse.c: eval_var_ofs and is_const_var")], [], ["sequence of device accesses"])
prop("C20", "Scope-exit actions run exactly once, in reverse order, on every exit path",
 "However control leaves a scope (falling through, break, continue, return, goto, labelled break, failure handling at any point), every cleanup attribute and defer statement that was reached runs exactly once, in reverse order, after the leaving expression was evaluated, and none that was not reached runs. Variable-length arrays left behind are released: repeated execution does not grow the stack.",
 ["fault_sequences", "programs", "histories"],
 "every nesting of scopes, loops, switches and exits, every combination of resource acquisitions that fail or succeed at run time",
 "Tests fix a few exit paths; the combinations of nested scopes and failing acquisitions are unbounded.",
 ["parse.c", "codegen.c"],
 [("DeferStmt chains and gen_defr", "parse.c: defer handling; codegen.c: gen_defr"), ("vla dealloc", "codegen.c: vla_base_ofs, DF_VLA_DEALLOC")], [], ["trace of acquisitions, releases and stack depth"])
prop("C21", "A non-local jump at any instruction preserves the variables C guarantees",
 "When a signal handler jumps back with longjmp or siglongjmp from any instruction of a compiled function, the function that called setjmp resumes there with every volatile automatic variable holding its last assigned value, every unmodified automatic variable holding its value, and continues correctly, any number of times.",
 ["crash_points", "programs", "schedules"],
 "every function using setjmp, every instruction at which the jump is taken, repeated jumps",
 "Tests jump from one fixed call site; stack slot reuse and cached values only matter at particular instructions.",
 ["codegen.c", "parse.c"],
 [("returns_twice disables stack slot reuse", "parse.c: func_prototype, funcall; codegen.c: dont_reuse_stk")], [], ["variables after the jump"])
prop("C22", "Updating one object or member never disturbs its neighbours",
 "Two threads that update different memory locations (different objects, array elements, struct members, or bit-fields separated by a non-bit-field or zero-width bit-field) of compiled code never affect each other, under every interleaving; no store touches bytes outside the memory location being assigned.",
 ["schedules", "programs"],
 "every struct layout, packed or not, with any mix of members and bit-fields, every pair of members, every interleaving",
 "A store that rewrites neighbours with the values it read is invisible in single-threaded tests.",
 ["codegen.c", "type.c", "parse.c"],
 [("store width selection and bit-field read-modify-write", "codegen.c: store, gen_bitfield_store, gen_mem_copy")], [], ["final values of all members"])

# ---------------------------------------------------------------- not simulation targets
prop("C30", "Compiled programs mean what the C source says",
 "Every valid program accepted by the compiler behaves at run time as the C standard (with the documented GNU, C23 and C2y extensions) prescribes: arithmetic, conversions, control flow, initialisation, aggregates and library calls have their defined results.",
 ["programs", "inputs"], "every valid program and input",
 "The suite samples a few hundred programs of an infinite space.",
 ["parse.c", "codegen.c", "type.c"], [("code generation", "codegen.c"), ("parsing and typing", "parse.c, type.c")])
prop("C31", "Constant evaluation agrees with run-time evaluation",
 "An expression folded by the compiler (enumerators, array bounds, static initialisers, constexpr, #if, optimised operands) has the value the same expression yields when evaluated at run time.",
 ["programs"], "every constant expression and type", "Only sampled expressions are tested.",
 ["parse.c", "codegen.c", "preprocess.c"], [("eval and const folding", "parse.c: eval*, codegen.c: *_opt")])
prop("C32", "Preprocessing follows the standard",
 "Macro expansion, stringising, pasting, rescanning, conditionals, line control and inclusion yield the token sequence the C standard defines, for every source.",
 ["inputs"], "every preprocessing input", "Only sampled macro shapes are tested.",
 ["preprocess.c", "tokenize.c"], [("expand_macro, subst, directives", "preprocess.c")])
prop("C33", "Objects interoperate with the platform ABI",
 "Calls, variadic calls, aggregates by value, struct layout, bit-field placement and symbol properties match the System V x86-64 ABI, so that code compiled here and by GCC or Clang can be mixed freely.",
 ["programs"], "every function type and aggregate layout", "Only sampled signatures are tested against a gcc-built helper.",
 ["codegen.c", "type.c"], [("calling_convention", "codegen.c")])
prop("C34", "Invalid programs are rejected with a located diagnostic",
 "A constraint violation the compiler documents as an error is rejected with nonzero status and a diagnostic naming file and line, and no valid program is rejected.",
 ["inputs"], "every input text", "Negative tests are nearly absent.",
 ["parse.c", "preprocess.c", "tokenize.c", "type.c"], [("error_tok", "tokenize.c")])
prop("C35", "Code generation options do not change program behaviour",
 "Optimisation level, stack-slot reuse, position-independence, section and debug options change only performance, size and relocation form of the output, never the behaviour of the compiled program.",
 ["configurations", "programs"], "every program under every option combination", "Tests use one option set.",
 ["codegen.c", "main.c"], [("opt_optimize, opt_reuse_stack, opt_fpic", "codegen.c")])
prop("C36", "Self-compilation reaches a fixed point",
 "The compiler compiled by itself behaves identically to the compiler it was compiled with: stage 2 and stage 3 produce identical outputs for every input.",
 ["programs"], "every input given to both stages", "Stage 2 is only run over the test suite.",
 ["main.c", "parse.c", "codegen.c"], [("self-hosting build", "Makefile")])
prop("C37", "Arbitrary input never crashes or hangs the compiler",
 "For any byte sequence as input the compiler terminates and either succeeds or reports an error; it never crashes, runs forever or reads outside its data.",
 ["inputs"], "every byte string", "Tests feed well-formed programs.",
 ["tokenize.c", "preprocess.c", "parse.c"], [("error paths", "tokenize.c")])
prop("C38", "Link options select the documented kind of output",
 "-static, -static-pie, -pie, -no-pie, -shared, -r and -nostdlib style options yield an executable, library or relocatable file of the documented kind with the right start files and libraries, in any combination and order.",
 ["configurations"], "every combination of link options", "Six combinations are tested.",
 ["main.c", "platform/linux-glibc-generic.c"], [("get_link_type, run_linker_gnustyle", "main.c")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
