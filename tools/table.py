CORE = ["core/src/bundle.rs", "core/src/definition.rs", "core/src/bytecode.rs", "core/src/encode.rs", "core/src/decode.rs", "core/src/io.rs"]
SIMNOTE = ("Seeded search over generated inputs, schedules and fault sequences in a deterministic simulator; the code under test is unmodified. "
           "Not exhaustive: a violation that needs an input or fault sequence the generators do not reach is not found. ")

prop("C01", "A script cache loads the same however the input delivers its bytes",
     "Loading a well-formed script cache yields exactly the names, strings, resources, ids and definitions (with every field and instruction operand) that the file encodes. The result does not depend on how the input hands over its bytes: one at a time, in arbitrary pieces, with interrupted reads, with or without a buffer in between, and wherever in the file the definition records lie.",
     ["inputs", "schedules"], "every well-formed cache (any values, any record placement) x every partition of the input into reads, including EINTR",
     "The tests load two fixed files through one in-memory cursor; neither other record layouts, extreme operand values nor short reads occur.",
     CORE, [("Decode implementations; read_exact-style reads", "core/src/decode.rs"), ("table and record walk", "core/src/bundle.rs ConstantPool::decode"), ("offset accounting for code sizes", "core/src/bytecode.rs")],
     level_note=SIMNOTE + "Oracle: an independent encoder/decoder of the format (simcore/src/model.rs).")
prop("C02", "Saving writes exactly the bytes the format prescribes, however they are taken",
     "Saving a bundle produces a file in which every table, offset, count, size and checksum is true of the bytes and which encodes exactly the bundle's content. The bytes depend only on the bundle: not on how many bytes the output accepts at a time, interrupted writes, buffering, earlier saves or the process's hash keys, and saving what was loaded from a saved file gives the same bytes again.",
     ["inputs", "schedules", "configurations"], "every bundle x every way an output that does not fail can take the bytes x every hash seed",
     "The tests compare one saved fixture with itself; short writes, other contents, and hash order are not exercised and no test verifies the table headers.",
     CORE, [("ConstantPool::encode", "core/src/bundle.rs"), ("StreamOffset accounting", "core/src/io.rs"), ("Encode implementations", "core/src/encode.rs, core/src/definition.rs, core/src/bytecode.rs")],
     level_note=SIMNOTE + "Oracle: strict decoder that follows every table entry and verifies every CRC, count and size.")
prop("C03", "Edits of a loaded bundle survive saves, failed saves and reloads unchanged",
     "After any history of adding texts and definitions, replacing, swapping, renaming, reserving, in-place edits, index mappings, copies, saves (some of which fail) and restarts from the last successful save, the bundle holds exactly what the history says. Indices handed out stay valid and unique, typed look-ups succeed exactly for definitions of that kind, equal texts are stored once, and a failed save changes nothing.",
     ["histories", "fault_sequences"], "every sequence of pool operations with saves that fail at any operation, and restarts",
     "Tests apply one or two edits through the compiler and never combine them with failing saves and reloads.",
     CORE + ["core/src/mapper.rs"], [("ConstantPool mutators, Strings::add", "core/src/bundle.rs"), ("PoolMapper", "core/src/mapper.rs"), ("flags recomputed on save", "core/src/definition.rs")],
     level_note=SIMNOTE + "Oracle: the same history on plain vectors.")
prop("C04", "A save that reports success has put every byte into the output",
     "If saving a bundle returns success, the output holds the complete file, whatever errors, refused writes, full device or buffering happened on the way; if the output fails, the save returns an error. A failed save leaves the bundle usable: a later save to a good output is complete.",
     ["fault_sequences", "inputs"], "every bundle x every position and kind of I/O failure, sticky or transient, with and without a buffer that is dropped afterwards",
     "No test has an output that fails; the loss of the last buffered block is invisible in memory.",
     CORE, [("error propagation and final flush in ScriptBundle::save", "core/src/bundle.rs"), ("StreamOffset write/flush", "core/src/io.rs")],
     level_note=SIMNOTE + "Fault positions are drawn over all operations of the clean run, with extra weight on the last ones.")
prop("C05", "Input errors during a load are reported, not swallowed",
     "If reading or seeking fails, or the input ends early, while a cache is being loaded, the load returns that error rather than a bundle with missing or invented content. Once the input works again, loading it succeeds with the right content.",
     ["fault_sequences", "inputs"], "every cache x every position and kind of read or seek failure or premature end, followed by retries",
     "No test has an input that fails part-way.",
     CORE, [("error propagation in decode", "core/src/decode.rs, core/src/bundle.rs")],
     level_note=SIMNOTE + "The injected errno must be the one reported.")
prop("C06", "Damaged or truncated caches are refused or load safely; nothing crashes",
     "A cache damaged in any way (flipped bits, wrong fields, lost, zeroed or misdirected blocks, garbage, truncation) makes the load return an error or a bundle that can be saved and loaded again unchanged. It never panics, loops, or asks for memory out of proportion to the file, and a cache cut short anywhere is always refused.",
     ["inputs", "fault_sequences"], "every damage pattern on every cache",
     "No test loads a damaged file.",
     CORE, [("InvalidData errors instead of panics", "core/src/decode.rs, core/src/definition.rs, core/src/bytecode.rs"), ("bounded reservations", "core/src/decode.rs")],
     level_note=SIMNOTE + "Single allocations above 512 MiB, aborts and hangs are detected by the supervising process.")
prop("C07", "A save cut short by a crash never leaves a loadable wrong cache",
     "If the process is killed at any point while saving into a new file, what is left either does not load or is the complete cache.",
     ["crash_points", "inputs"], "every bundle x every operation (and partial write) at which the process dies",
     "No test interrupts a save.",
     CORE, [("the header is written last", "core/src/bundle.rs ScriptBundle::save")],
     level_note=SIMNOTE + "Assumes writes of less than 512 bytes are not torn by a process kill and a buffer of at least the header size.")
prop("C08", "The stream wrapper's position equals the bytes really transferred",
     "The position reported by the offset-tracking stream wrapper always equals its starting position plus the bytes that really went through, after any mix of reads, writes, flushes, short transfers and errors. The data passes through unchanged.",
     ["schedules", "fault_sequences"], "every sequence of calls over every behaviour of the wrapped stream",
     "Tests only wrap cursors that always transfer everything.",
     ["core/src/io.rs"], [("StreamOffset", "core/src/io.rs")],
     level_note=SIMNOTE + "Positions beyond 4 GiB included.")
prop("C09", "Decompiled text is the definition's source, complete or an error",
     "Writing a definition as code yields exactly its source text (declaration, modifiers, types, statements, operators with the needed parentheses, literals), as bytecode every instruction in order at its address, and as a syntax tree the same text every time, however the output takes the bytes. If the output fails the error is reported and success means the whole text was written; a method that cannot be decompiled leaves its neighbours intact.",
     ["inputs", "programs", "fault_sequences"], "every definition with code laid out as the compilers lay it out x every behaviour of the output",
     "Tests decompile a few small functions into a String, which cannot fail and takes everything at once.",
     ["decompiler/src/print.rs", "decompiler/src/lib.rs", "core/src/bytecode.rs", "core/src/ast.rs"],
     [("write_definition and write_expr", "decompiler/src/print.rs"), ("Decompiler::consume_*", "decompiler/src/lib.rs"), ("CodeCursor", "core/src/bytecode.rs")],
     level_note=SIMNOTE + "Oracle: generated syntax trees assembled by an independent assembler and printed by an independent printer; parentheses follow the repository's grammar, numbers keep full value and type.")
prop("C10", "Dumping by file puts every definition in the files it comes from",
     "The file index of a loaded cache lists every source file that a function refers to exactly once, and in it exactly the root definitions (classes of such methods and free functions) that come from that file, once each, ordered by their first source line; classes with only native methods, enums and native free functions are listed as orphans. What is written for a file contains the whole text of each of them, and the listing is the same in every process, whatever hash keys it draws.",
     ["inputs", "histories"], "every cache x every choice of hash keys",
     "No test covers the index; ties, classes spread over files and unused files only show on caches built for it.",
     ["decompiler/src/files.rs", "core/src/definition.rs", "decompiler/src/print.rs"],
     [("FileIndex::from_pool and iter", "decompiler/src/files.rs"), ("Definition::first_line and source", "core/src/definition.rs")],
     level_note=SIMNOTE + "Oracle: the listing computed from the independent model of the bundle.")
SCC = ["scc/lib/src/lib.rs", "scc/lib/src/timestamp.rs", "scc/cli/src/main.rs", "compiler/src/source_map.rs"]
WHOLE = ("The real scc main(), scc-lib, compiler and core run on a simulated operating system (file system with page cache and durability, locks, clock, process ids, several processes) "
         "below the C library; schedules, faults and what happens between runs come from one seed. Not exhaustive. ")
prop("C11", "When scc reports success, the output holds every script and the right base",
     "When scc exits successfully, the output cache is complete: exactly what an undisturbed first run makes of the original cache of the installed game version and the scripts as they are now. Every script under r6/scripts (at any depth, also behind a linked directory) and under every path of the script paths file is in it, each once; nothing of a removed or changed script and nothing of an earlier output is. This holds after any history of earlier runs (successful, failed or killed, in place, to a separate output or on a custom cache), script edits, game updates and touched files, and whatever I/O errors, short or interrupted transfers the run met: an error it cannot work around makes it fail, never succeed with less.",
     ["histories", "fault_sequences", "inputs"], "every history of runs, edits, updates and touched files x every position and kind of I/O error, short transfer and kill",
     "The tests run scc once or twice on a healthy disk and look at the file names left behind; no test has an I/O error, an interrupted run, a game update between runs, or compares the contents.",
     SCC, [("choice of the input cache from timestamp and backup", "scc/lib/src/lib.rs try_compile_files"), ("collecting the scripts", "compiler/src/source_map.rs Files::from_dirs"), ("script paths file", "scc/cli/src/main.rs load_script_paths")],
     state=[("final.redscripts / .bk / .ts", "cache, backup of the original, time of the cache the backup belongs to")],
     level_note=WHOLE + "Oracle: bytes of an undisturbed run from scratch on the same scripts (memoised), plus marks placed in every script.")
prop("C12", "The game's original script cache is never lost",
     "At every moment of every run, and after a kill or power cut at any moment, the unmodified cache of the installed game version exists completely, either as the game's cache file or as its backup. No run that is interrupted, fails, meets I/O errors or finds its own earlier output replaces the only copy of the original by something else or removes it. A run on a custom cache does not change the game's own cache.",
     ["crash_points", "histories", "fault_sequences"], "every history x every operation at which a run is killed, the power is cut or an error occurs",
     "No test interrupts a run or checks the contents of the backup.",
     SCC, [("backup copy, restore and removal of a stale backup", "scc/lib/src/lib.rs try_compile_files"), ("copy_file/replace_file", "scc/lib/src/lib.rs")],
     level_note=WHOLE + "Checked after every operation of every process. A game update that arrives after a run was killed between its last two file operations (backup done, timestamp not yet noted) is excused: then the backup counts as an original too.")
prop("C13", "The output cache is always the old or the new one, never a partial one",
     "At every moment at which another program (the game) may look, and after a kill at any moment, the file at the output path is exactly what was there before the run or the complete new cache (for the game's own cache also the restored original). A run that fails leaves the previous output as it was.",
     ["crash_points", "schedules", "fault_sequences"], "every history x every point of observation, kill or I/O error",
     "Tests look at the output only after a successful run.",
     SCC, [("saving the output", "scc/lib/src/lib.rs try_compile_files, replace_file")],
     level_note=WHOLE + "Checked after every operation of every process.")
prop("C14", "After any interruption the next undisturbed scc run succeeds",
     "Whatever happened before (kills and power cuts at any point, I/O errors, failed compilations, game updates, files touched, dated before 1970 or in the future, clock jumps, an output removed or made read-only and writable again), an scc run with valid scripts and no fault succeeds, without manual repair, and terminates. scc never panics, whatever errors the system calls return.",
     ["histories", "crash_points", "fault_sequences"], "every history of interrupted runs and outside changes, followed by one run without faults",
     "Tests start from a fresh installation.",
     SCC, [("recovery decisions from timestamp, backup and signature", "scc/lib/src/lib.rs try_compile_files"), ("incomplete timestamps", "scc/lib/src/timestamp.rs CompileTimestamp::read")],
     level_note=WHOLE + "Bounded progress: the run has to finish within a fixed number of simulated operations.")
prop("C15", "A success reported by scc survives a power cut",
     "Once scc has exited successfully, a power cut at any later moment leaves the complete output cache at the output path, and the next run on that installation succeeds with the right output.",
     ["crash_points", "histories"], "every history ending in a success x every subset of unsynced data and directory changes the cut may lose",
     "Loss of unsynced data cannot be observed in a test on a healthy machine.",
     SCC, [("sync before rename, directory sync, timestamp sync", "scc/lib/src/lib.rs replace_file, try_compile_files")],
     level_note=WHOLE + "Durability model: an fsync makes the file and all earlier metadata changes durable; unsynced data may be lost, kept or torn per 4 KiB page.")
prop("C16", "scc runs at the same time do not harm each other",
     "Two or three scc processes started at the same time on one installation (in place, to a separate output or on a custom cache, also one of them killed) never deadlock; each one that is not disturbed succeeds, the outputs are complete and right, at no moment does an observer see a partial output or the original lost, and the next run works.",
     ["schedules", "crash_points"], "every interleaving of the processes' system calls x every kill of one of them x the installation's earlier history",
     "Tests run one process at a time.",
     SCC, [("lock on the timestamp file", "scc/lib/src/lib.rs try_compile_files"), ("temporary file names", "scc/lib/src/lib.rs replace_file"), ("legacy timestamp rename", "scc/lib/src/lib.rs")],
     level_note=WHOLE + "Interleavings are drawn at system call granularity by a seeded scheduler.")
prop("C17", "Scripts with errors never change the output, and the report names them",
     "If a script does not compile, scc exits with a failure, never panics, and leaves the output cache as it was. The report blames only mods (first directory below r6/scripts, else the file) that contain an error, all of them when every script can be parsed and the errors are wrong declarations, types, names or calls, and the log names the kind of error, the file and the line. Scripts that only deserve a warning compile, and the warning names file and line; matching user hints, and only those, are shown. A failed run always says so. When the broken scripts are gone the next run succeeds without any trace of them.",
     ["inputs", "histories", "fault_sequences"], "every mixture of good and broken scripts in every layout, with hint files (also malformed), earlier runs and I/O errors",
     "Tests check the compiler's error values on in-memory texts; the report, exit status and files of the program are not covered.",
     ["scc/lib/src/lib.rs", "scc/lib/src/hints.rs", "compiler/src/source_map.rs", "compiler/src/unit.rs", "scc/cli/src/main.rs"],
     [("ErrorReport", "scc/lib/src/lib.rs"), ("UserHints", "scc/lib/src/hints.rs"), ("span to file and line", "compiler/src/source_map.rs Files::lookup")],
     level_note=WHOLE + "About 115 kinds of script error with the line and code expected for each, also at the end of files, with multi-byte text and CRLF.")
prop("C18", "scc changes only its own files",
     "A run of scc creates, changes and removes nothing but the cache it works on, its output, the backup and timestamp files beside the cache, a missing custom cache directory, and logs. Scripts, hints, configuration, other caches and unrelated files stay byte for byte the same, also when the run fails or is killed; an undisturbed run leaves no temporary files behind. After a successful run to a separate output the game's own cache is the original one.",
     ["histories", "fault_sequences", "crash_points"], "every history of runs with faults on an installation with other files in it",
     "Tests compare a few expected files in a temporary directory.",
     SCC, [("paths derived from the cache path", "scc/lib/src/lib.rs try_compile, try_compile_files"), ("temporary file removal", "scc/lib/src/lib.rs replace_file")],
     level_note=WHOLE + "Compares the whole simulated file system before and after; system calls that change something outside it are reported too.")
prop("C19", "The output depends only on the scripts and the game's cache",
     "Two runs on the same scripts and the same original cache give byte-identical outputs, or the same failure with the same errors reported, whatever the order in which the directories list their entries, the order and time the files were created, the clock, the process id, the hash keys, the mode (in place or separate output) and what was compiled before.",
     ["configurations", "histories", "schedules"], "every set of scripts x every directory order, file age, clock and earlier history",
     "Tests run on one file system whose directory order happens to be stable.",
     SCC + ["compiler/src/unit.rs"], [("sorted directory walk", "compiler/src/source_map.rs Files::from_dirs"), ("order of definitions", "compiler/src/unit.rs")],
     level_note=WHOLE + "Error reports are compared as sets of lines.")
prop("C20", "redscript-cli succeeds only with a complete result",
     "When redscript-cli compile, decompile or lint exits successfully, the work is complete: the compiled cache holds every script, the decompiled text (one file or a dump by source file, in every mode) is exactly what an undisturbed run writes, and lint has read every file. I/O errors, short transfers, a full disk and errors in the sources make it exit with a failure, not panic. Every error and warning in the sources is reported with its file and line.",
     ["fault_sequences", "inputs"], "every command and mode x every input x every position and kind of I/O failure",
     "There are no tests of the command line tool.",
     ["cli/src/main.rs", "decompiler/src/files.rs", "compiler/src/source_map.rs"], [("compile, decompile, lint", "cli/src/main.rs")],
     level_note=WHOLE + "Oracle: the output of an undisturbed run and marks in the inputs.")
prop("C21", "redscript-cli writes only its output",
     "compile writes only the file given as destination, lint writes nothing, decompile writes only the output file, and with --dump-files only files below the output directory, whatever source paths the cache contains (absolute, with drive letters, with parent directories, colliding). Inputs stay unchanged, also when the process is killed or meets errors.",
     ["inputs", "fault_sequences", "crash_points"], "every cache with any source paths x every command x every fault and kill",
     "There are no tests of the command line tool.",
     ["cli/src/main.rs", "decompiler/src/files.rs"], [("paths of dumped files", "cli/src/main.rs decompile")],
     level_note=WHOLE + "Compares the whole simulated file system; nothing real can be written.")
prop("C22", "The C interface gives host programs the true result",
     "Through the C functions of scc-lib a host program gets a success exactly when the output was written completely, and an error text otherwise. Copying the error into a buffer of any size (also empty) stays inside the buffer, is terminated and is a prefix of the text. Every declaration of every script is listed as a source reference exactly once, with its kind, name, parent class, file and a line at which it is declared.",
     ["inputs", "histories", "fault_sequences"], "every set of scripts, buffer size, setting and history of calls, with I/O errors",
     "The tests check the layout of one structure and call compile once.",
     ["scc/lib/src/api.rs", "scc/lib/src/lib.rs", "compiler/src/source_map.rs", "compiler/src/unit.rs"], [("scc_copy_error", "scc/lib/src/api.rs"), ("source references", "scc/lib/src/api.rs, compiler/src/unit.rs"), ("file and line lookup", "compiler/src/source_map.rs")],
     level_note=WHOLE + "The functions are called as from C, in the same process; memory behind the buffer is checked for changes.")
prop("C23", "Mods take effect in the game exactly once, as written",
     "After any history of mods being added and removed, game updates and failed, killed or successful runs, the game that loads the output of a successful run behaves as the installed mods say. A wrapper runs once per call around the method it wraps and wrappers of one method nest in the order of their files' paths, the last outermost, around the original or its replacement, with the arguments they pass on and the value they return; replaced methods and global functions, added fields and methods, overrides and new classes (base and derived in any files, in any order) do what their text says, with virtual, super and static calls reaching the right function. Functions, classes, structs and enums that mods bring along compute, whenever they are called, what their text says: values and order of evaluation of expressions, operators and casts, loops, switches, early returns and breaks, strings and arrays, fields of classes and structs, optional and `out` parameters, modules and imports. Everything else of the game's own classes and functions is unchanged: what is not touched is there with the same index and content, a wrapped method keeps its name, flags and place, no name is in a class twice, and only the one function of the original name is called back by the game.",
     ["histories", "programs", "fault_sequences"], "every set of mods that compile, in every file layout, across every history of runs, updates and faults",
     "Tests compile one or two wrappers in memory and compare instructions; none combines several mods, files and class hierarchies, and none runs the result.",
     ["compiler/src/unit.rs", "compiler/src/scope.rs", "compiler/src/assembler.rs", "core/src/mapper.rs", "scc/lib/src/lib.rs"],
     [("wrapper chains and proxies", "compiler/src/unit.rs determine_function_location, construct_proxy, finish"), ("locals of moved functions", "compiler/src/unit.rs remap_locals"), ("order of classes", "compiler/src/unit.rs cleanup_pool"), ("method look-up", "compiler/src/scope.rs")],
     level_note=WHOLE + "The output is loaded into a small virtual machine playing the game and every method is called on objects of every class; oracle: interpreters of the mods' syntax trees. The machine is strict about the types of operands and locals. Covers the composition of mods and programs over numbers of all kinds, booleans, strings, names, resource paths, variants, arrays and their operations, enums, structs, overloads and class hierarchies, not every type and built-in (N01).")
prop("C24", "What mods declare arrives in the cache as written",
     "After any history of mods being added, removed and updated, and of failed, killed or successful runs, the output of a successful run has exactly the classes, structs, enums, fields, methods and functions that the installed mods declare, once each: with full names (module and mangled parameters where the language has them), qualifiers, visibility, base class, members in order, parameter and result types down to their parts, `opt`/`out`/`const` parameters, default values, runtime properties, values of enum members, and the file and line of functions; declarations, members and imports under `@if` are there exactly when the condition holds for the modules that are installed. Names mean what the file's own module and its imports say, whatever other mods call their types. A class always stands behind the class it extends. Declarations of one mod never make another mod fail.",
     ["histories", "programs", "fault_sequences"], "every set of files of declarations in any module, order and layout of text, across every history of runs, updates and faults",
     "Tests compile a handful of declarations in memory and look at instructions; none looks at flags, types, defaults or the order of classes across files.",
     ["compiler/src/parser.rs", "compiler/src/unit.rs", "compiler/src/scope.rs", "compiler/src/symbol.rs", "compiler/src/cte.rs", "core/src/definition.rs"],
     [("declarations", "compiler/src/unit.rs define_class, define_function, define_field, define_enum"), ("names and imports", "compiler/src/scope.rs, compiler/src/symbol.rs"), ("conditions", "compiler/src/cte.rs"), ("order of classes", "compiler/src/unit.rs cleanup_pool"), ("grammar", "compiler/src/parser.rs")],
     level_note=WHOLE + "Oracle: the model the text was generated from, compared with the loaded output (also @addField on script classes); blanks, line ends and comments between the words vary. Not compared: visibility of class members (the tree gives them that of the class), negative defaults (the language has none).")
NAWHY = "a pure function of its input: no schedule, clock, I/O, fault or second party for the simulator to control; deciding it would be differential or property-based testing of a compiler, another technique. "
prop("N01", "Compiled code computes what the source says",
     "For every well-typed script the emitted bytecode, run by the game, evaluates the statements and expressions with the language's semantics, for every type, intrinsic and annotation of the language (what C23's programs use of it is decided there).",
     ["programs"], "every well-typed program", "Tests sample a few dozen snippets.", ["compiler/src/assembler.rs", "compiler/src/typechecker.rs"],
     [("assembler", "compiler/src/assembler.rs")], na=NAWHY + "The game's virtual machine is not available either.")
prop("N02", "The type checker accepts exactly the well-typed scripts",
     "Scripts with type errors are rejected with a diagnostic at the right place and well-typed ones are accepted.",
     ["programs"], "every program", "Tests sample programs.", ["compiler/src/typechecker.rs"], [("typechecker", "compiler/src/typechecker.rs")], na=NAWHY + "What the program does with errors is C17.")
prop("N03", "Decompiled code compiles back to the same bytecode",
     "Compiling the text decompiled from a cache yields equivalent bytecode.",
     ["programs"], "every cache", "Tests do not round-trip.", ["decompiler/src/lib.rs", "compiler/src/parser.rs"], [("printer and parser", "decompiler/src/print.rs")],
     na=NAWHY + "(The text itself is decided by C09.)")
prop("N04", "scc understands every command line the game passes",
     "Game options in any order and spelling are parsed to the intended settings.",
     ["inputs"], "every argument vector", "Tests sample a few argument vectors.", ["scc/cli/src/opts.rs"], [("fix_args, Opts", "scc/cli/src/opts.rs")], na=NAWHY + "A few typical command lines are part of the histories of C11-C19.")
