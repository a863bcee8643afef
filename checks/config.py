"""What each check runs. quick / thorough = number of generated workloads."""


def cpp(target, scenario, quick, thorough, **kw):
    return dict(kind="cpp", target=target, scenario=scenario, quick=quick, thorough=thorough, **kw)


def py(scenario, quick, thorough, **kw):
    return dict(kind="py", scenario=scenario, quick=quick, thorough=thorough, **kw)


SCHED_RULE = (
    "Each workload (thread programs) is generated from the seed, run once without "
    "preemptions, then re-run under generated preemption plans placed by global step or by "
    "(thread, code location, occurrence). A run counts as non-trivial if at least one planned "
    "preemption or fault really fired; distinct = different hash of the recorded history and "
    "the hand-over sequence.")
FAULT_RULE = (
    "Each workload is generated from the seed, run once fault-free to count the fault sites it "
    "passes, then re-run under generated fault plans. A run counts as non-trivial if at least "
    "one planned fault really fired; distinct = different hash of the recorded history, which "
    "includes the fault site and kind.")
PY_RULE = (
    "Each workload is generated from the seed, run once fault-free to count the points and fault "
    "sites of every operation, then re-run under generated fault plans (kill, interrupt or outside "
    "edit at a numbered line or system call, failing or short file operations, failing tasks or "
    "programs). A run counts as non-trivial if at least one planned fault really fired; distinct = "
    "different hash of the recorded history, which includes fault site, number and kind.")

CHECKS = {
    "C01": dict(
        level="exploration", rule=SCHED_RULE,
        technique="seeded thread interleavings of the real logger, history compared with a "
                  "per-sink exactly-once model",
        note="2-4 threads, bounded programs, preemption-bounded seeded schedules",
        jobs=[cpp("s_logger", "logger-concurrent", 1600, 20000)],
        assumptions=["up to 4 threads and 6 operations per thread",
                     "switches happen at basic-block edges of repository and scenario code and at lock operations"]),
    "C02": dict(
        level="exploration", rule=SCHED_RULE,
        technique="seeded interleavings of sink reconfiguration and logging, history compared "
                  "with an interval model of registered sinks",
        note="one reconfiguring thread, up to 2 logging threads, bounded programs",
        jobs=[cpp("s_logger", "logger-reconfigure", 1600, 20000)],
        assumptions=["one reconfiguring thread, up to 2 logging threads, up to 3 nested scopes"]),
    "C03": dict(
        level="exploration", rule=SCHED_RULE,
        technique="real parser, converter, formatter, exporters and immutable store in 2-3 simulated "
                  "threads over generated documents under seeded preemptions; outputs compared with "
                  "the same document processed alone",
        note="up to 4 blocks per document, up to 14 preemptions per run",
        jobs=[cpp("s_doc", "doc-parallel", 500, 12000)],
        assumptions=["switches happen at basic-block edges of repository code and at lock operations",
                     "the parser combinator library is replaced by a small stand-in"]),
    "C04": dict(
        level="exploration", rule=FAULT_RULE,
        technique="real file writing code over a simulated filesystem with seeded I/O faults, "
                  "file content compared with what was asked to be written",
        note="content up to 200 kB around buffer boundaries, up to 3 faults per run",
        jobs=[cpp("s_files", "file-write", 3000, 30000), cpp("s_doc", "doc-export", 800, 20000)],
        assumptions=["the simulated kernel fails open, write and close with the listed error codes, "
                     "shortens writes and enforces a capacity limit; silent loss after a successful close is out of scope"]),
    "C05": dict(
        level="exploration", rule=FAULT_RULE,
        technique="real file reading code over a simulated filesystem with seeded I/O faults, "
                  "result compared with the stored content",
        note="content up to 200 kB around buffer boundaries, up to 3 faults per run",
        jobs=[cpp("s_files", "file-read", 3000, 30000), cpp("s_doc", "doc-parse-file", 600, 12000)],
        assumptions=["files do not change while they are read"]),
    "C06": dict(
        level="exploration", rule=SCHED_RULE + " " + FAULT_RULE,
        technique="real directory creation by up to 3 simulated threads over a simulated "
                  "filesystem, seeded interleavings and I/O faults, tree compared with a model",
        note="up to 3 threads, up to 4 path components",
        jobs=[cpp("s_files", "dir-create", 3000, 30000)],
        assumptions=["only directory creations run concurrently, no concurrent removals"]),
    "C07": dict(
        level="exploration", rule=FAULT_RULE,
        technique="real directory parsing over generated trees with links and inclusions in a simulated "
                  "file system, seeded listing orders and I/O faults; result compared with a model of the tree",
        note="up to 7 directories, 5 documents, 4 links, 5 references, up to 3 faults per run",
        jobs=[cpp("s_doc", "dir-parse", 1500, 30000)],
        assumptions=["the tree does not change while it is parsed",
                     "a link that leads to itself may be reported as an error",
                     "the parser combinator library is replaced by a small stand-in"]),
    "C08": dict(
        level="exploration", rule=FAULT_RULE,
        technique="real operation tracer over a simulated filesystem with seeded I/O faults, "
                  "destination content compared with a reference model of the trace",
        note="up to 30 operations, nested scopes up to depth 5, up to 2 faults per run",
        jobs=[cpp("s_files", "operation-trace", 4000, 30000)],
        assumptions=["one thread per tracer"]),
    "C09": dict(
        level="exploration", rule=FAULT_RULE,
        technique="the whole tracker program against simulated processes, timer and signals; seeded "
                  "histories of forks, execs, exits and reused identifiers inside and between polls, "
                  "records compared with the history",
        note="up to 12 polls, up to 30 process events, identifiers reused, up to 3 stalls or exits at the moment of inspection",
        jobs=[cpp("s_proc", "proc-history", 1800, 20000)],
        assumptions=["an identifier is not reused within the poll that saw its previous owner",
                     "orphans are adopted by process 1", "a later process of a requested identifier may or may not be tracked",
                     "without existing processes requested, processes of the first poll may have an end record only"]),
    "C10": dict(
        level="exploration", rule=FAULT_RULE,
        technique="the whole tracker program with interrupted, empty and spurious waits, stalls, processes "
                  "vanishing under inspection and output failures at seeded positions; exit status and "
                  "records compared with the history",
        note="up to 12 polls, up to 4 faults per run, termination at any time after start-up",
        jobs=[cpp("s_proc", "proc-faults", 500, 12000)],
        assumptions=["the termination request comes after the tracker has set up its signal handling",
                     "descriptors, timers and the process list itself can be created and opened"]),
    "C11": dict(
        level="exploration", rule=FAULT_RULE,
        technique="real viewer cache and loading over a simulated file system and clock, seeded histories of "
                  "edits, cache writes and checks with clock jumps and I/O faults; answers compared with a "
                  "model of the modification times",
        note="up to 14 operations on up to 6 files, up to 3 faults per run",
        jobs=[cpp("s_viewer", "viewer-cache", 900, 20000)],
        assumptions=["files do not change while a single call looks at them",
                     "modification times less than a millisecond apart may count as equal",
                     "the parser combinator library is replaced by a small stand-in"]),
    "C12": dict(
        level="exploration", rule=FAULT_RULE,
        technique="real parser, converter, formatter and exporters over generated documents with failing "
                  "allocations at seeded positions; error type, earlier results and the repeated call are compared "
                  "with an undisturbed run",
        note="up to 4 blocks per document, up to 3 failing allocations per run",
        jobs=[cpp("s_doc", "doc-memory", 300, 8000)],
        assumptions=["allocations through operator new fail, those of the C library do not",
                     "JSON export is left out: the JSON library itself allocates in destructors",
                     "the parser combinator library is replaced by a small stand-in"]),
    "C13": dict(
        level="exploration", rule=FAULT_RULE,
        technique="real immutable store under generated histories of edits over all versions, with failing "
                  "allocations and callbacks at seeded positions; every version is compared with its "
                  "recorded content, every edit with a model and with a store where nothing fails",
        note="up to 4 blocks per document, up to 8 operations, up to 4 faults per run",
        jobs=[cpp("s_doc", "imm-versions", 250, 6000)],
        assumptions=["allocations through operator new fail, those of the C library do not",
                     "edits that are refused without any fault are not judged",
                     "the parser combinator library is replaced by a small stand-in"]),
    "C14": dict(
        level="exploration", rule=FAULT_RULE,
        technique="real evaluation of code blocks with a simulated evaluator that throws, fails, stays silent or "
                  "answers twice at seeded calls; the calls and the resulting document are compared with a model",
        note="up to 3 documents of 7 elements, evaluated once or twice, up to 4 faults per run",
        jobs=[cpp("s_doc", "eval-blocks", 250, 6000)],
        assumptions=["calls name blocks or nothing; data is named outside of lists",
                     "the parser combinator library is replaced by a small stand-in"]),
    "C15": dict(
        level="exploration", rule=PY_RULE,
        technique="real task runner over generated task graphs, seeded execution orders and task "
                  "failures, history compared with a model of completed tasks",
        note="up to 7 tasks, up to 5 top-level runs, nested runs under other configurations, up to 3 failures per run",
        jobs=[py("tasks-order", 700, 12000)],
        assumptions=["the graph library is replaced by one that returns any valid order",
                     "a nested run does not depend on the running task",
                     "runs that ignore dependencies are not part of the at-most-once guarantee"]),
    "C16": dict(
        level="exploration", rule=PY_RULE,
        technique="real stamp bookkeeping over simulated process lives: kills and interrupts at every "
                  "traced line, I/O faults, concurrent edits; decisions compared with a model",
        note="up to 3 tasks, up to 11 operations, up to 3 faults per run",
        jobs=[py("tasks-stamps", 600, 9000)],
        assumptions=["a kill loses the process, not completed writes",
                     "edits move the modification time forward by at least one clock tick"]),
    "C17": dict(
        level="exploration", rule=PY_RULE,
        technique="real caches over simulated process lives with kills, I/O faults and concurrent "
                  "edits, results compared with recomputation",
        note="up to 10 (pickle) and 14 (memo) operations, up to 3 faults per run",
        jobs=[py("cache-pickle", 400, 9000), py("cache-memo", 500, 12000)],
        assumptions=["a kill loses the process, not completed writes",
                     "an edit gives the file a modification time it did not have before; for the pickle cache a later one",
                     "arguments and results are not mutated by the caller"]),
    "C18": dict(
        level="exploration", rule=SCHED_RULE,
        technique="real trace collector under a simulated thread scheduler that can switch at every "
                  "bytecode, clock steps and file faults; exports compared with a model",
        note="2-4 threads, nesting up to 4, up to 6 switches or faults per run",
        jobs=[py("trace-threads", 400, 9000)],
        assumptions=["switches happen at bytecodes of the collector and of the JSON encoder and at lock operations"]),
    "C19": dict(
        level="exploration", rule=PY_RULE,
        technique="real formatting hook over simulated process lives with kills, interrupts, I/O faults "
                  "and formatter failures; file compared with original and formatted content",
        note="up to 3 files, generated sources with aliases, up to 3 faults per run",
        jobs=[py("format-hook", 320, 8000)],
        assumptions=["a kill loses the process, not completed writes",
                     "the formatter is simulated: it writes in place piece by piece and can fail at any of them"]),
    "C20": dict(
        level="exploration", rule=PY_RULE,
        technique="real command runner over simulated programs with seeded exit codes, signals, outputs "
                  "and log write failures; results and logs compared with what the programs did",
        note="up to 9 commands, up to 2 faults per run",
        jobs=[py("run-command", 900, 20000)],
        assumptions=["programs are simulated; the process library is replaced by a stand-in"]),
    "C21": dict(
        level="exploration", rule=FAULT_RULE,
        technique="real containers over generated operation histories with failing allocations and "
                  "throwing element operations, every step compared with a model",
        note="12 container kinds, up to 5 faults per run",
        jobs=[cpp("s_containers", "containers", 6000, 30000)],
        assumptions=["moving an element does not throw",
                     "appending several elements at once is only required to leave a usable list"]),
}

HOOKS = None
_PURE = "pure in-memory computation: no concurrency, time, I/O or multi-party behaviour for a simulator to vary; "
NOT_APPLICABLE = {
    "C22": _PURE + "needs input generation against a round-trip oracle, not scheduling or faults",
    "C23": _PURE + "needs input generation against a round-trip oracle, not scheduling or faults",
    "C24": _PURE + "needs input generation against an edit-script oracle",
    "C25": _PURE + "needs optimality comparison over layouts",
    "C26": _PURE + "needs translation validation of generated code",
}
