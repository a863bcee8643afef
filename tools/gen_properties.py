#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the lines stay well formed)."""
import json, pathlib, sys

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text),
        why_tests_cant=why,
        anchors=dict(
            files=list(files),
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe),
            hook_needed=hook)))


L = "src/hstd/ext/logger.cpp"
LH = "src/hstd/ext/logger.hpp"

prop("C01", "Concurrent log records reach every active sink once, intact, in order",
     "When several threads log at the same time, every record that passes a sink's filters appears in that sink exactly once, with exactly the message, severity, source location and metadata its own thread gave it. Records of one thread appear in the order that thread logged them. Nesting depth shown for a record is the number of depth scopes open in the thread that logged it.",
     ["schedules", "programs"],
     "every interleaving of 2-4 logging threads at basic-block granularity, every mix of severities, categories, metadata and depth scopes, log files smaller than their rotation size",
     "All logger tests are single threaded; the interleavings between building a record and delivering it are never produced.",
     [L, LH],
     [("record hand-off to the logging core", f"{L}: log_record::end"),
      ("builder finalisation", f"{LH}: log_builder destructor / finalizers"),
      ("depth scopes", f"{LH}: log_scoped_depth_attr")],
     observe=["content of the log files / custom sinks after the threads finish"])

prop("C02", "Changing log sinks never disturbs the sinks that stay registered",
     "Sinks pushed or dropped inside a sink scope are gone, and previously registered sinks are back, when the scope ends, whichever way it ends, including by an exception or a failing sink constructor. A sink that stays registered receives every record logged while other sinks are pushed, popped, filtered or restored by another thread. A record is delivered to a sink if and only if that sink was registered, and its filter accepted the record, when it was logged; a log file that cannot be opened makes the log call throw and changes nothing else.",
     ["schedules", "histories", "fault_sequences"],
     "every nesting of sink scopes, filters and log calls, every interleaving of one reconfiguring thread with logging threads, exceptions and failed file opens at any step",
     "Tests push one sink, log, and look at the file; they never reconfigure while another thread logs or while a scope is unwound by an error.",
     [L, LH],
     [("sink stack and its mirror in the logging core", f"{L}: log_sink_manager, sync_sinks"),
      ("scoped restore", f"{L}: log_sink_scope")],
     observe=["content of each sink"])

prop("C03", "Independent documents parsed in parallel give the same results as alone",
     "Threads that parse, convert, format and export unrelated documents, each with its own parser context, obtain byte for byte the output each would obtain running alone. No interleaving makes any of them fail, hang or crash.",
     ["schedules", "inputs"],
     "every interleaving of 2-3 threads at basic-block granularity over generated documents covering headings, lists, tables, code blocks, links, timestamps, drawers, footnotes, macros and hashtags",
     "Every parser test runs one document on one thread; shared caches and function-local statics are only ever initialised and used sequentially.",
     ["src/haxorg/api/ParseContext.cpp", "src/haxorg/base_lexer/base_token_tokenize.cpp", "src/haxorg/parse/OrgParser.cpp",
      "src/haxorg/sem/SemConvert.cpp", "src/haxorg/sem/SemBaseSharedToplevel.cpp", "src/haxorg/exporters/*.cpp"],
     [("process-wide lazily initialised tables", "function-local statics and global registries in lexer, parser, converter, formatter and exporters")],
     observe=["exported JSON, formatted text and tree dump of each document"])

F = "src/hstd/stdlib/Filesystem.cpp"
prop("C04", "A file write or export either stores every byte or reports failure",
     "When a library call that writes a file (plain text, JSON, YAML or tree export, cache, protobuf-free exports) returns normally, the file holds exactly the content to be written. If the disk is full, a write is short, interrupted or fails, or the file cannot be created, the caller gets an exception.",
     ["fault_sequences", "inputs"],
     "every open/write/close failure (ENOSPC, EIO, EDQUOT, EACCES, EMFILE, EINTR, short writes, capacity limits) at every position, every content size around buffer boundaries",
     "Tests write small files to a healthy disk.",
     [F, "src/haxorg/api/SemBaseApi.cpp"],
     [("write helper", f"{F}: writeFile"), ("tree export", "src/haxorg/api/SemBaseApi.cpp: exportToTreeFile"),
      ("json / yaml export", "src/haxorg/api/SemBaseApi.cpp: exportToJsonFile, exportToYamlFile")],
     observe=["file content after a normal return"])

prop("C05", "Reading or parsing a file uses its full content or reports failure",
     "When a library call that reads a file returns normally, what it returns was computed from the complete content of that file. An unreadable file, a directory given as a file, or a read error part-way through gives an exception, never a silently shortened or empty result; interrupted and short reads are retried.",
     ["fault_sequences", "inputs"],
     "every open/read failure and short read at every position for files of any size, including files exactly at buffer boundaries",
     "Tests read fixtures from a healthy disk.",
     [F, "src/haxorg/api/ParseContext.cpp"],
     [("read helper", f"{F}: readFile"), ("file parsing entry points", "src/haxorg/api/ParseContext.cpp: parseFile, parseFileOpts")],
     observe=["returned text / exported document"])

prop("C06", "Creating a directory ends with the directory present or an error",
     "When directory creation returns normally the requested directory exists, with all missing parents if parents were requested. It fails only if the directory cannot be created or was already there and that was not allowed; losing a creation race to another thread counts as already there. Nothing but the requested directory and its missing parents is ever created.",
     ["schedules", "fault_sequences"],
     "every interleaving of 2-3 callers creating overlapping paths, every mkdir/stat failure, files in place of directories, relative, trailing-slash and nested paths",
     "Tests, where present, create one directory once on a healthy disk.",
     [F],
     [("directory creation", f"{F}: createDirectory")],
     observe=["directory tree after the calls", "exceptions seen by each caller"])

PC = "src/haxorg/api/ParseContext.cpp"
prop("C07", "Directory parsing covers every file once, in any listing order",
     "Parsing a directory tree yields every eligible file, directory and symlink exactly once and terminates, whatever order the system lists entries in and whatever cycles symlinks and file inclusions form. Every include and file link is resolved once, relative to the file that contains it. A file or directory that cannot be read makes the call report an error instead of being silently left out.",
     ["inputs", "fault_sequences", "configurations"],
     "every generated tree of files, directories, symlinks and include/link directives, every listing order, I/O failures at every position",
     "Tests use a handful of fixed trees in the host's own listing order and never fail an I/O call.",
     [PC],
     [("recursive walk with visited set", f"{PC}: parsePathAux, parseDirectoryOpts"), ("include expansion", f"{PC}: postProcessInclude")],
     observe=["exported document tree"])

TB = "src/hstd/stdlib/TraceBase.cpp"
prop("C08", "Operation traces are complete, ordered and balanced",
     "Messages of an operation tracer appear in its destination in call order, each exactly once, and each scope's end appears exactly once, after everything inside it, even when the scope is left by an exception. The indentation level always returns to its value before the scope. Switching destination (file or buffer, overwrite or not) and switching tracing off loses or duplicates no message that was requested while it was on.",
     ["histories", "fault_sequences"],
     "every sequence of messages, nested scopes, destination switches, on/off switches and exceptions; a destination that cannot be opened must surface as an error; interrupted and short writes; handles of scopes kept or handed on in any way",
     "The tracer is only used for debugging in tests; its output is never compared with the calls made.",
     [TB, "src/hstd/stdlib/TraceBase.hpp"],
     [("message emission and scope handles", f"{TB}: OperationsTracer::message, scope handles"),
      ("destination switching", f"{TB}: setTraceFile")],
     observe=["trace file, buffer, structured log"])

XT = "scripts/cxx_executor/execution_flow_tracker.cpp"
prop("C09", "Process tracker reports each tracked process once, start before end",
     "Every process that is one of the requested roots or a descendant of a tracked process, and is visible at one of the tracker's polls, gets exactly one start record, carrying its identity and parent, and exactly one end record after it is no longer visible (processes older than the tracker only when asked for). Processes that are neither get no record. This holds when identifiers are reused and when processes are reparented.",
     ["histories", "schedules"],
     "every history of forks, execs, exits, orphan reparenting and pid reuse placed anywhere relative to the tracker's polls and to the individual reads inside one poll",
     "Tests start a few long sleeping children under wall-clock sleeps and cannot place events inside a poll or reuse a pid.",
     [XT],
     [("poll and diff of process snapshots", f"{XT}: poll_proc_snapshot, prime_existing")],
     observe=["records in the tracker's output file"])

prop("C10", "Process tracker survives interruptions and stops cleanly on request",
     "Interrupted or spurious wake-ups, coalesced timer ticks, and processes that vanish while they are inspected never make the tracker fail. On a termination request it exits successfully and every record it produced before is complete in the output file. If the output cannot be opened or written it exits with an error.",
     ["fault_sequences", "schedules"],
     "every position of EINTR, EAGAIN, spurious readiness, missed ticks, vanishing entries, and write failures relative to the event loop; termination at every point",
     "Tests deliver a single SIGTERM to an idle tracker on a healthy disk.",
     [XT],
     [("event loop", f"{XT}: event_loop, consume_timer"), ("process enumeration", f"{XT}: list_all_proc_snapshots")],
     observe=["exit status and output file"])

VW = "src/app/org_viewer/shared_org_logic.cpp"
prop("C11", "Viewer cache: unchanged files never look changed, edits are always noticed",
     "After the times of a document, or of the documents directly inside a directory, were cached, they are reported unchanged at whatever moment the question is asked, as long as nothing happened to them. Once any of them is modified, added or removed, at whatever sub-second time, they are reported as changed; a failing file operation gives an error and never a wrong answer. The document the viewer loads equals the document on disk.",
     ["histories", "fault_sequences"],
     "every history of edits, cache writes, checks and loads of files, directories and links to them, with steps from microseconds to days, clock jumps and failing file operations; modification times that differ by less than a millisecond may count as equal",
     "No test covers the cache; a test on the real clock cannot choose the moment of each clock reading.",
     [VW],
     [("file time collection", f"{VW}: getOrgFileTimes"), ("change check", f"{VW}: checkOrgFilesChanged"), ("cache write", f"{VW}: writeOrgFileCache")],
     observe=["answer of the change check", "document returned"])

prop("C12", "Running out of memory while processing a document is reported, not fatal",
     "If any single memory allocation fails while a document is parsed, converted, formatted, put into the immutable store or rendered as text, tree or YAML, the call throws an out-of-memory error and nothing else happens: no crash, no hang, no corrupted earlier result. Repeating the call afterwards with memory available gives the same result as if the failure had never occurred.",
     ["fault_sequences", "inputs"],
     "every allocation position during parse / convert / format / export of generated documents",
     "No test makes an allocation fail.",
     ["src/haxorg/parse/OrgParser.cpp", "src/haxorg/sem/SemConvert.cpp", "src/haxorg/api/ParseContext.cpp", "src/hstd/stdlib/dod_base.hpp"],
     [("builders and their scoped state", "tokenizer, parser and converter object construction"), ("process-wide caches", "function-local statics initialised during the first call")],
     observe=["exception type, result of the retry, earlier results"])

IM = "src/haxorg/imm/ImmOrg.cpp"
prop("C13", "Old document versions never change, whatever happens to later edits",
     "Every version of an immutable document keeps exactly its content and its look-up answers while later edits succeed, fail half-way or are thrown away. A successful edit changes exactly the nodes it names. A failed edit reports its error and leaves no trace: the same edit retried gives the result it would have given.",
     ["histories", "fault_sequences"],
     "every history of documents added and nodes inserted, replaced, moved, dropped, promoted or demoted in any version, and failure of any allocation or callback inside an edit",
     "Tests apply a few successful edits and look at the newest version.",
     [IM, "src/haxorg/imm/ImmOrg.hpp", "src/haxorg/imm/ImmOrgEdit.cpp", "src/haxorg/imm/ImmOrgStore.cpp"],
     [("node stores and intern maps", f"{IM}: ImmAstStore / ImmAstContext"), ("edit transaction", f"{IM}: ImmAstVersion::getEditVersion"),
      ("propagation of edits to parents", "src/haxorg/imm/ImmOrgStore.cpp: cascadeUpdate")],
     observe=["document exported from each version", "parent / path answers"])

EV = "src/haxorg/api/EvalContext.cpp"
prop("C14", "Code block evaluation runs each block once, in order, and keeps every result",
     "Evaluating the code of a document calls the evaluator exactly once for every block and for every call of a known block, in document order, with the block's code and arguments, and stores each output, including error codes, with the block or call it belongs to. Nothing else in the document changes, and the document passed in is not modified. If the evaluator throws, the exception reaches the caller and no further block is evaluated; earlier or repeated evaluations with the same parsing context do not affect the outcome.",
     ["fault_sequences", "inputs", "histories"],
     "every document with code blocks, calls and named data, every pattern of evaluator success, empty output, several outputs, error code and exception, evaluated once or repeatedly",
     "Tests use an evaluator that always succeeds, on one small document.",
     [EV],
     [("evaluation visitor", f"{EV}: evaluateCodeBlocks"), ("storing a result", f"{EV}: setOutput")],
     observe=["calls seen by the evaluator", "resulting document"])

WU = "scripts/py_repository/py_repository/repo_tasks/workflow_utils.py"
prop("C15", "Build tasks run after their dependencies, at most once, and stop on failure",
     "Running a target runs each task it depends on before the task itself, and runs a task at most once per configuration within one context. When a task fails, the failure reaches the caller, no task depending on it runs, and a later attempt runs it again. While a task runs, including after a nested run it started has returned or failed, its commands are attributed to it and not to another task.",
     ["programs", "fault_sequences", "histories"],
     "every task graph, every valid execution order, nested runs of tasks that do not depend on the running one, temporary configurations, failures in any task at any point; runs asked to ignore dependencies are exempt from the at-most-once part",
     "Tests run fixed real tasks that succeed; the order the graph library returns is the only one ever seen.",
     [WU],
     [("task execution loop", f"{WU}: TaskContext.run"), ("task wrapper", f"{WU}: haxorg_task"), ("run cache", f"{WU}: run_cache")],
     observe=["order of task calls", "exceptions", "names of the command log files"])

FP = "scripts/py_scriptutils/py_scriptutils/files.py"
prop("C16", "A skipped build task is really up to date, across crashes and edits",
     "When a task with a stamp is skipped as up to date, its outputs are all present and were produced by a run that completed successfully and that began after the last edit of its inputs and with its current parameters. A failed, killed or interrupted run never makes a later run be skipped, and an edit made while the task runs is noticed by the next run. Skipping a task does not change what later runs decide.",
     ["crash_points", "histories", "fault_sequences"],
     "every history of normal runs (not those asked to ignore stamps or dependencies), input edits with an advancing clock, parameter changes, output deletions and task failures, process crashes at every step of the bookkeeping, edits at every moment of a run, I/O errors on the stamp",
     "Tests never kill the runner, never edit during a run and never fail the stamp write.",
     [FP, WU],
     [("stamp bookkeeping", f"{FP}: FileOperation.scoped_operation, should_run"), ("freshness test", f"{FP}: IsNewInput")],
     observe=["which tasks run", "content of the outputs when a task is skipped"])

prop("C17", "Cached results always equal recomputed results",
     "A result served from the pickle cache or from the in-memory per-file cache equals what recomputing it for the same arguments from the current files would give. A crash or I/O error while a cache file is written never leaves something a later call would accept or fail on; the later call recomputes. An edit made while the result is computed is not hidden from later calls.",
     ["crash_points", "histories", "fault_sequences"],
     "every history of edits and calls with various arguments and files, crash and I/O failure at every step of storing the result",
     "The caches have no tests with edits, several inputs, or interrupted writes.",
     [FP],
     [("pickle cache", f"{FP}: pickle_or_new"), ("in-memory cache", f"{FP}: cache_file_processing_result")],
     observe=["values returned compared with recomputation"])

TP = "scripts/py_scriptutils/py_scriptutils/tracer.py"
prop("C18", "Build traces from many threads are complete and consistent",
     "Every begun-and-ended event appears exactly once in the trace with its own name, arguments and thread, however threads interleave and even if the traced block raises. Event durations are never negative and inner events lie inside the outer events of their thread, also when the system clock is stepped. An export taken while other threads are tracing is well formed and contains every event finished before it began.",
     ["schedules", "fault_sequences"],
     "every interleaving of 2-4 tracing threads with exports, every clock step",
     "No test traces from more than one thread or moves the clock.",
     [TP],
     [("per-thread event stacks", f"{TP}: push_complete_event, pop_complete_event"), ("export", f"{TP}: export_to_json")],
     observe=["exported JSON"])

YF = "scripts/py_repository/py_repository/repo_hooks/safe_yapf_format.py"
prop("C19", "The source formatting hook never loses or corrupts a source file",
     "After the hook has been run on a source file, however it ends (success, formatter failure, I/O error, interrupt or kill at any moment), the file holds either its original content or the completely formatted content with every type alias restored. It never holds an intermediate or partial form.",
     ["crash_points", "fault_sequences", "inputs"],
     "every kill point, every I/O failure, every formatter outcome, generated sources with any arrangement of type aliases",
     "No test interrupts the hook.",
     [YF],
     [("in-place rewrite", f"{YF}: main")],
     observe=["file content after the hook ended"])

CE = "scripts/py_repository/py_repository/repo_tasks/command_execution.py"
prop("C20", "External command results are never misreported",
     "Running an external command returns the exit code and the output that the command produced, and a command that fails, cannot be started or is killed raises an error unless failure was explicitly allowed. The command's output is preserved in its log files: append mode keeps everything earlier commands wrote, and the logs of different commands never mix. A failure to write a log is reported.",
     ["fault_sequences", "histories"],
     "every sequence of commands with any exit codes, outputs, missing programs, signals, log modes, and log write failures",
     "Tests run real commands that succeed.",
     [CE, WU],
     [("command execution", f"{CE}: run_command"), ("log files", f"{CE}: write_debug_file, {WU}: get_task_debug_streams")],
     observe=["return value or exception", "log files"])

prop("C21", "Core containers stay consistent when an operation fails part-way",
     "If adding, replacing or removing one element of a library list, map, set, id store, two-way map, path tracker or polymorphic variant, or building a range look-up, throws because memory ran out or copying, hashing or comparing an element failed, the container still answers all queries consistently and holds either its state before the operation or the completed state. An operation that reports success has exactly its documented effect, and an element that could not be handed to the caller is not lost. Destroying the container afterwards releases every element exactly once.",
     ["fault_sequences", "histories"],
     "every operation history and every allocation or element-operation failure position",
     "Unit tests check results of successful operations only; the states after a failure depend on which of several inner steps failed.",
     ["src/hstd/stdlib/DynVariant.hpp", "src/hstd/ext/bimap_wrap.hpp", "src/hstd/stdlib/dod_base.hpp", "src/hstd/stdlib/dod_base_intern.hpp", "src/hstd/stdlib/Vec.hpp", "src/hstd/stdlib/Map.hpp", "src/hstd/stdlib/Set.hpp", "src/hstd/stdlib/RangeTree.hpp", "src/hstd/stdlib/RecursivePathTracker.hpp"],
     [("variant alternatives", "src/hstd/stdlib/DynVariant.hpp"), ("two-way maps", "src/hstd/ext/bimap_wrap.hpp"), ("interning store", "src/hstd/stdlib/dod_base_intern.hpp"), ("range look-up", "src/hstd/stdlib/RangeTree.hpp")],
     observe=["public queries, instance counts"])

prop("C22", "Text parsed and formatted again keeps its meaning",
     "For every document, formatting the parsed document and parsing the result gives an equal document.",
     ["inputs"], "all documents",
     "Tests hold a finite corpus.",
     ["src/haxorg/sem/SemOrgFormat.cpp", "src/haxorg/parse/OrgParser.cpp"],
     [("formatter", "src/haxorg/sem/SemOrgFormat.cpp")])
prop("C23", "Serialised documents read back equal",
     "A document written to JSON, YAML or binary form and read back equals the original.",
     ["inputs"], "all documents", "Tests hold a finite corpus.",
     ["src/haxorg/serde/*.cpp", "src/haxorg/sem/SemOrgSerde.cpp", "src/hstd/stdlib/JsonSerde.hpp"],
     [("serialisers", "src/haxorg/serde")])
prop("C24", "Tree differencing produces an edit script that yields the target",
     "Applying the computed difference of two trees or sequences to the first gives the second.",
     ["inputs"], "all pairs of trees", "Tests hold a finite corpus.",
     ["src/hstd/ext/astdiff", "src/hstd/stdlib/diffs.cpp"],
     [("tree diff", "src/hstd/ext/astdiff"), ("sequence diff", "src/hstd/stdlib/diffs.cpp")])
prop("C25", "Text layout never exceeds cost of an alternative layout",
     "The layout chosen for a set of text blocks prints exactly their text and has minimal cost among the permitted layouts.",
     ["inputs"], "all layouts", "Tests hold a finite corpus.",
     ["src/hstd/ext/textlayouter.cpp"], [("layout search", "src/hstd/ext/textlayouter.cpp")])
prop("C26", "Generated bindings match the reflected declarations",
     "Every declaration selected for export appears once in each generated binding with the same signature.",
     ["inputs"], "all reflected translation units", "Tests hold a finite corpus.",
     ["scripts/py_codegen/py_codegen"], [("code generators", "scripts/py_codegen/py_codegen")])

if __name__ == "__main__":
    out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
    out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    print(len(P), "properties")
