"""Texts of properties.jsonl and MANIFEST.json."""
SIM = "deterministic simulation: "
DIFF = "seeded whole-interpreter runs compared with an executable reference model"
EXPL = "Seeded search; nothing is proved beyond the cases explored."

PROPS = [
 dict(id="C01", title="dynamic-wind guards run once per extent entry and exit, in nesting order",
  st="Whatever mixture of normal returns, escapes, re-entries through continuations, throws and caught errors a program performs, every entry of a dynamic extent runs its entry guard exactly once before the body and every exit runs its exit guard exactly once after it. Leaving several extents runs exit guards innermost first and entering several runs entry guards outermost first, each guard in the extent surrounding its own dynamic-wind. The order of all effects, including faults reported by the file system inside the extents, agrees with that rule.",
  q=(["programs", "schedules", "fault_sequences"], "all programs over nested extents, continuations, catches and failing file operations, for every placement of garbage collections and of open failures"),
  why="The tests wind and unwind a handful of fixed shapes; the order depends on the whole history of captures, re-entries and throws, and on collections happening in between.",
  files=["src/c/dynwind.cc", "src/c/continuation.cc", "src/c/throw.cc"],
  mech=[("wind chain and rewinding between two chains", "src/c/dynwind.cc"), ("restoring the chain on throw", "src/c/throw.cc"), ("chain saved in a continuation", "src/c/continuation.cc")],
  obs=["program output"], hook="collection before any allocation (PSCM_SIM)",
  tech=SIM + DIFF + " (control programs under injected collections and open faults)", note=EXPL + " Guards that themselves escape or throw are outside the generated programs."),
 dict(id="C02", title="Invoking a continuation resumes exactly the captured computation",
  st="Invoking a continuation, once or many times, from inside or after its extent, delivers its arguments to the point of capture and continues there with the control state, pending arguments and local bindings of that point, while later assignments to variables and data stay visible. No invocation changes values an earlier return already delivered.",
  q=(["programs", "schedules", "histories"], "all programs that capture continuations inside argument lists, maps, loops, catches and extents and invoke them any number of times, under every placement of collections"),
  why="Unit tests re-enter a continuation at a few points; the hazard is which frames, bindings and half-built lists are shared between invocations, which depends on the whole program and on when memory is reclaimed.",
  files=["src/c/continuation.cc", "src/c/eval.cc", "src/c/map.cc", "src/c/let.cc", "src/c/do.cc", "src/c/for_each.cc"],
  mech=[("copying the C stack out and back", "src/c/continuation.cc"), ("fresh bindings for re-entered argument evaluation", "src/c/eval.cc"), ("tracing of captured stacks and registers", "src/c/gc.cc")],
  obs=["program output"], hook="collection before any allocation (PSCM_SIM)",
  tech=SIM + DIFF + " (continuation re-entry under injected collections)", note=EXPL + " The model executes the same program with heap-allocated continuations."),
 dict(id="C03", title="A throw reaches the innermost matching live catch, once, with its arguments",
  st="A throw or a primitive error transfers control to the innermost catch that is still active and matches its key, calls that handler exactly once with the key and the thrown arguments, and the handler's value becomes the value of the catch. Catches that have been left, by return, escape or an outer throw, never receive anything, and after any number of throws the interpreter continues as if the protected body had returned.",
  q=(["programs", "schedules", "fault_sequences"], "all programs nesting catches, throws, errors, continuations and failing file operations, under every placement of collections"),
  why="Tests throw through one or two catches; stale catches only show after particular mixtures of escapes, re-entries and throws.",
  files=["src/c/throw.cc", "src/c/error.cc", "src/c/continuation.cc"],
  mech=[("stack of active catches and key matching", "src/c/throw.cc"), ("conversion of primitive errors into throws", "src/c/error.cc")],
  obs=["program output"], hook="collection before any allocation (PSCM_SIM)",
  tech=SIM + DIFF + " (catch/throw programs under injected collections and open faults)", note=EXPL),
 dict(id="C05", title="A promise computes its value once and keeps the first value delivered",
  st="Forcing a promise evaluates its expression in its defining scope; once a value has been delivered every later force returns that same value and evaluates nothing, and when forcing is re-entrant or is resumed through a continuation the first value delivered stays. A force that ends in a throw leaves the promise unforced, so that a later force tries again.",
  q=(["programs", "schedules", "fault_sequences"], "all programs creating and forcing promises recursively, across throws, continuations and failing file operations, under every placement of collections"),
  why="Tests force simple promises; re-entrant forcing, forcing that throws half way and forcing that is captured and resumed need particular histories.",
  files=["src/c/delay.cc"], mech=[("forced flag re-checked after evaluation", "src/c/delay.cc")], obs=["program output"], hook="collection before any allocation (PSCM_SIM)",
  tech=SIM + DIFF + " (promise programs under injected collections and open faults)", note=EXPL),
 dict(id="T01", title="Cooperative tasks built on continuations are isolated and follow the schedule",
  st="Tasks written as coroutines, each switching by capturing and invoking continuations, make exactly the steps the scheduler grants them, in order, for every schedule. A task's own results do not depend on how it is interleaved with tasks that share no data with it; shared data changes exactly as the schedule orders the accesses, and every runnable task makes progress whenever it is chosen.",
  q=(["schedules", "programs"], "all seeded schedules of up to a handful of generator, catch, extent and I/O tasks, under every placement of collections and open failures"),
  why="No test runs more than one coroutine; isolation quantifies over every interleaving of switches.",
  files=["src/c/continuation.cc", "src/c/dynwind.cc", "src/c/throw.cc", "src/c/eval.cc"], mech=[("control state captured per continuation", "src/c/continuation.cc")], obs=["program output"], hook="collection before any allocation (PSCM_SIM)",
  tech=SIM + "seeded task schedules against a reference model, and each task alone against interleaved", note=EXPL + " Scheduling decisions are part of the case and minimised with it."),
 dict(id="G01", title="Garbage collection never changes what a program does",
  st="Output, files written, errors and exit status of any program are the same whenever and however often collections happen. No object that the program can still reach is reclaimed, overwritten or handed out again.",
  q=(["programs", "schedules"], "all programs over every data type and facility, for every placement of collections among the program's allocations"),
  why="Collections happen after megabytes of allocation, so tests run almost entirely without one; a missing root shows only when a collection falls into a window of a few allocations.",
  files=["src/c/gc.cc", "src/c/gc.h", "src/c/eval.cc", "src/c/let.cc", "src/c/hash_table.cc", "src/c/module.cc", "src/c/port.cc", "src/c/smob.cc"],
  mech=[("conservative scan of stack and registers plus registered roots", "src/c/gc.cc"), ("tracing per object type", "src/c/gc.cc")], obs=["program output", "files", "exit status", "block ownership"], hook="collection before any allocation; notice of blocks handed out and reclaimed (PSCM_SIM)",
  tech=SIM + "seeded collection schedules with reclaimed memory overwritten, compared with the undisturbed run", note=EXPL),
 dict(id="G02", title="Unreachable memory and abandoned ports are reclaimed in long runs",
  st="A program whose reachable data stays bounded runs in bounded memory and with a bounded number of open files, however long it runs and whatever mixture of objects, throws, escapes and failing I/O operations it performs.",
  q=(["programs", "histories", "fault_sequences"], "all loops over any combination of allocating facilities, with I/O failures injected, for any length"),
  why="Leaks need long histories; the tests are short and check only values.",
  files=["src/c/gc.cc", "src/c/port.cc", "src/c/throw.cc", "src/c/continuation.cc"], mech=[("sweep, free lists and collection threshold", "src/c/gc.cc"), ("release of external memory and files with their object", "src/c/gc.cc")], obs=["live blocks", "heap segments", "open files", "malloc bytes"], hook="notice of blocks handed out and reclaimed (PSCM_SIM)",
  tech=SIM + "growth of live blocks, heap, malloc and open files between a run and a longer run of the same loop under seeded collections and I/O faults", note=EXPL + " Slack is allowed for the conservative collector and confirmed at a third length."),
 dict(id="G03", title="Memory exhaustion stops the program with a diagnostic, never corrupts it",
  st="When the operating system refuses memory to the heap, or places it anywhere in the address space, a program either completes with the same results as with ample memory or stops with a diagnostic after a prefix of its output. It does not stop while reclaimable memory would satisfy its requests.",
  q=(["fault_sequences", "programs"], "all programs with growing live data, every index of a refused heap request, every cap, and scattered segment placements"),
  why="Tests never run out of memory and the heap never needs a second segment.",
  files=["src/c/gc.cc"], mech=[("segment table, growth and exhaustion report", "src/c/gc.cc")], obs=["exit status", "output", "stderr"], hook=None,
  tech=SIM + "refused and scattered heap segments injected, output compared with the unrestricted run", note=EXPL),
 dict(id="H01", title="Hash tables behave as finite maps under any history of operations",
  st="After any sequence of insertions, updates, removals and traversals a hash table returns for every key exactly the value last stored and not removed, its traversal visits every present association exactly once, and a traversal whose callback throws or escapes leaves the table intact. This holds for every kind of key the table's equivalence accepts.",
  q=(["histories", "schedules"], "all operation histories over keys of all types and tables of all sizes, with collections placed anywhere and callbacks that throw or escape"),
  why="Tests store a few keys; resizing, chains, removals during a traversal and collections in between depend on the history.",
  files=["src/c/hash_table.cc"], mech=[("buckets, chains and rehashing", "src/c/hash_table.cc"), ("hash functions per equivalence", "src/c/hash_table.cc")], obs=["program output"], hook="collection before any allocation (PSCM_SIM)",
  tech=SIM + "operation histories against a reference map under injected collections and callback failures", note=EXPL),
 dict(id="P01", title="Output reported as written is in the file, complete and in order",
  st="When every write, flush and close of an output port returned without an error, the file holds exactly the characters written, in order, once each. When the device fails, at least one of those operations raises a catchable error, and the program and its other ports continue unharmed.",
  q=(["fault_sequences", "programs"], "all programs writing to any number of file ports, for every sequence of short, interrupted, failed and full-disk writes and failing opens and closes"),
  why="Tests never meet a failing device; whether an error is reported depends on which write of which buffer fails.",
  files=["src/c/port.cc", "src/c/print.cc", "src/c/string.cc"], mech=[("error checks after write, flush and close", "src/c/port.cc")], obs=["files", "program output"], hook=None,
  tech=SIM + "injected write, flush, open and close faults; recorded history of acknowledged operations checked against final file contents", note=EXPL),
 dict(id="P02", title="A crash leaves a prefix of the written text, with all that was flushed",
  st="If the process dies at any point, each output file holds a prefix of the characters the program wrote to it, and that prefix covers everything written before the last flush or close that returned without an error.",
  q=(["crash_points", "programs"], "all programs writing to file ports, with the process killed at any I/O operation, including in the middle of a write"),
  why="No test kills the interpreter; the guarantee is about every crash point.",
  files=["src/c/port.cc"], mech=[("flush and close hand data to the operating system before returning", "src/c/port.cc")], obs=["surviving files", "output up to the crash"], hook=None,
  tech=SIM + "crash injected at seeded I/O operations; surviving files checked against the journal of acknowledged operations", note=EXPL),
 dict(id="P03", title="Input ports deliver exactly the device's characters, never an early end of file",
  st="Reading from an input port by any mixture of character, look-ahead and expression reads delivers exactly the characters of the device in order, whatever sizes the device returns them in. A failing read raises a catchable error and is never reported as end of file or as shortened data, and reading can go on when the device recovers.",
  q=(["fault_sequences", "inputs"], "all file contents and read sequences, for every splitting of the input into short, interrupted and failed reads"),
  why="Tests read small well-behaved files in one piece.",
  files=["src/c/port.cc", "src/c/read.cc"], mech=[("error check separate from end of file", "src/c/port.cc")], obs=["program output"], hook=None,
  tech=SIM + "injected short, interrupted and failing reads against a reference reader over the same contents", note=EXPL),
 dict(id="P04", title="Loading a file evaluates all of it or reports an error",
  st="Loading or running a source file evaluates its expressions in order; when the file cannot be opened or read to its end, an error is raised and no expression is evaluated from a silently shortened text. After the failure the interpreter continues and a later load succeeds.",
  q=(["fault_sequences", "inputs"], "all source files and loading entry points, for every failing or short open, seek and read"),
  why="Tests load intact files; truncation appears only when a particular read fails.",
  files=["src/c/load.cc", "src/c/parse.cc", "src/c/module.cc"], mech=[("whole-file read with a check of every step", "src/c/parse.cc")], obs=["program output", "exit status"], hook=None,
  tech=SIM + "injected open, seek and read faults on source files, compared with the full evaluation", note=EXPL),
 dict(id="P06", title="Soft and string ports deliver every character exactly once, in order",
  st="Everything written to a string port or to a port implemented by callbacks arrives exactly once and in order, interleaved with other ports as the program wrote it, and everything such an input port supplies is read exactly once. A callback that throws, escapes or re-enters the port loses and repeats nothing that was already delivered.",
  q=(["programs", "schedules"], "all programs writing and reading through callback and string ports with callbacks that throw, escape, write to further ports or are resumed, under every placement of collections"),
  why="Tests use one callback port in a straight line.",
  files=["src/c/port.cc", "src/c/print.cc", "src/c/string.cc", "src/c/read.cc"], mech=[("callback dispatch", "src/c/port.cc")], obs=["program output"], hook="collection before any allocation (PSCM_SIM)",
  tech=SIM + "callback histories against a reference model under injected collections and callback failures", note=EXPL),
 dict(id="M01", title="A module is loaded once, completely, and a failed load can be retried",
  st="However many modules use each other, in whatever order and with whatever cycles, each module file is evaluated at most once successfully; importers see exactly its exported bindings and the current module is restored afterwards. When loading fails, by an error in the file or an I/O fault, the importer gets an error (for a file that is missing or cannot be opened, a warning and nothing to import), the current module is restored, no half-loaded module is left behind, and a later import tries again. A module's own procedures always read and change the module's own variables.",
  q=(["fault_sequences", "histories", "configurations"], "all module graphs, import histories and failure points, including files that throw half way and I/O faults during any load"),
  why="Tests import intact modules once.",
  files=["src/c/module.cc", "src/c/load.cc", "src/c/environment.cc"], mech=[("module registry and loading", "src/c/module.cc")], obs=["program output"], hook="collection before any allocation (PSCM_SIM)",
  tech=SIM + "seeded module graphs and import histories with injected file faults against a reference model", note=EXPL),
 dict(id="A01", title="Errors never escape the embedding API, and the host can go on",
  st="Every evaluation, parsing and file entry point of the embedding API returns to its caller whatever the program does, short of running forever, exhausting memory or stack, or invoking a continuation captured during an earlier call: an error, an uncaught throw, a syntax error or a file that cannot be read yields a null result with the error retrievable. After any history of such failures later calls behave as in a fresh interpreter with the same definitions.",
  q=(["histories", "fault_sequences", "inputs"], "all histories of API calls with failing and succeeding programs, malformed text and I/O faults, under every placement of collections"),
  why="Tests call the API a few times with well-behaved programs.",
  files=["src/c/pscm_api.cc", "src/c/throw.cc", "src/c/error.cc", "src/c/parse.cc"], mech=[("catch-all around each entry point", "src/c/pscm_api.cc")], obs=["API return values", "program output"], hook="collection before any allocation (PSCM_SIM)",
  tech=SIM + "a simulated host drives seeded API call histories with injected faults against a reference model", note=EXPL),
 dict(id="R01", title="The interactive prompt evaluates every complete expression it is given, once",
  st="Expressions given to the interactive prompt are evaluated once each, in order, whatever pieces the input arrives in. Each is evaluated when the line that completes it has been read, without waiting for more. An expression that fails reports its error and the session continues with the next one; the session ends only at end of input or on request.",
  q=(["inputs", "fault_sequences"], "all input sessions, for every splitting of standard input into pieces and every placement of failing expressions"),
  why="The tests never run an interactive session.",
  files=["src/c/repl.cc"], mech=[("read, evaluate, print loop with recovery", "src/c/repl.cc")], obs=["standard output"], hook=None,
  tech=SIM + "simulated standard input delivered in seeded pieces with failing expressions, against a reference model", note=EXPL),
 dict(id="N01", title="Numeric, character, string and list procedures compute the specified values",
  st="Arithmetic, comparison, conversion, character, string, symbol and list procedures return the values their specification gives for every argument, and report an error for arguments outside their domain.",
  q=(["inputs"], "all argument values of every pure data procedure"),
  why="The tests sample a few arguments of each procedure.",
  files=["src/c/number.cc", "src/c/string.cc", "src/c/char.cc", "src/c/list.cc", "src/c/symbol.cc", "src/c/eq.cc"], mech=[("procedure implementations", "src/c/number.cc")], tech="", note=""),
 dict(id="N02", title="Reading back what was written gives an equal datum",
  st="Writing any datum and parsing the text gives a datum equal to the original.",
  q=(["inputs"], "all data with a written form"), why="The tests print and parse selected data.",
  files=["src/c/print.cc", "src/c/parse.cc"], mech=[("printer and parser", "src/c/print.cc")], tech="", note=""),
 dict(id="N03", title="Macro and quasiquote expansion produce the specified forms",
  st="Macro uses, quasiquote templates and derived special forms evaluate as the forms they stand for.",
  q=(["programs"], "all programs"), why="The tests expand selected forms.",
  files=["src/c/macro.cc", "src/c/quasiquote.cc", "src/c/cond.cc", "src/c/case.cc", "src/c/let.cc"], mech=[("expansion", "src/c/macro.cc")], tech="", note=""),
]
PURE = "a pure function of its arguments with no scheduling, time, I/O or second party for a simulator to vary; its only interaction with collection timing is decided by G01, which runs these procedures in its generated programs and the repository's own test files"
NA = [("N01", PURE), ("N02", "parsing and printing one datum is " + PURE + " (reading under I/O faults is P03, P04; printing under write faults is P01)"), ("N03", "expansion is " + PURE)]
