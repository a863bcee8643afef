"""Tracing threads, exports and clock steps against the real trace collector."""
import inspect  # noqa: F401
import json
import os
from pathlib import Path

import beartype  # noqa: F401
import beartype.typing  # noqa: F401

import simcore
from sim_main import Scenario, register
from simcore import violate

simcore.sim_locks()
from py_scriptutils import tracer  # noqa: E402

import json.encoder  # noqa: E402

simcore.trace_instructions(json.encoder.__file__)


class Boom(Exception):
    pass


@register
class TraceThreads(Scenario):
    name = "trace-threads"
    real = ["scripts/py_scriptutils/tracer.py"]
    stub = ["thread scheduler (switch at any bytecode)", "locks", "clock", "file layer", "traced programs"]
    menu = [("switch", ["sw#"], 12), ("time", ["step#"], 3), ("write", ["ENOSPC", "EIO", "short"], 1),
            ("close", ["EIO"], 0.5), ("open", ["EACCES", "ENOSPC"], 0.5), ("mkdir", ["ENOSPC"], 0.3)]
    variants = 24
    max_faults = 6
    threads = True

    def workload(self, rng):
        nid = [0]

        def block(depth):
            nid[0] += 1
            r = rng.random()
            if depth < 3 and r < 0.68:
                return dict(id=nid[0], do="event", via=rng.choice(["glob", "glob", "coll", "push"]),
                            args=rng.choice(["none", "own", "reused", "shared", "shared"]), late=rng.random() < 0.3,
                            fails=rng.random() < 0.2,
                            body=[block(depth + 1) for _ in range(rng.choice([0, 0, 1, 1, 2]))])
            if r < 0.80:
                return dict(id=nid[0], do="export", dir=rng.random() < 0.3, old=rng.random() < 0.3)
            if r < 0.92:
                return dict(id=nid[0], do="meta")
            return dict(id=nid[0], do=rng.choice(["name", "index", "work", "import", "import"]), n=rng.randint(1, 3))

        threads = [[block(0) for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(2, 4))]
        return dict(params=dict(single=rng.random() < 0.6, first=rng.randrange(len(threads))), threads=threads,
                    ops=[])

    def run(self, R):
        P = R.plan["params"]
        done, begun = {}, {}
        own = tracer.TraceCollector() if P["single"] else None
        shared = {"common": 1}
        asked, added = {}, {}  # events without a duration: being added, certainly added
        marks = []

        def coll():
            return own if own is not None else tracer.getGlobalTraceCollector()

        def check(data, must, where, sure):
            if not isinstance(data.get("traceEvents"), list):
                violate("malformed-export", "no list of events in " + where)
            seen, others = {}, {}
            for e in data["traceEvents"]:
                if e.get("cat") in ("metadata", "import"):
                    key = (e["name"], json.dumps(e["args"], sort_keys=True), e["tid"])
                    others[key] = others.get(key, 0) + 1
                    continue
                if e["name"] in seen:
                    violate("duplicate-event", "%s appears twice in %s" % (e["name"], where))
                seen[e["name"]] = e
                b = begun.get(e["name"])
                if b is None:
                    violate("unknown-event", "%s in %s was never begun" % (e["name"], where))
                if e["tid"] != b["tid"]:
                    violate("wrong-thread", "%s in %s is recorded for another thread" % (e["name"], where))
                if e["cat"] != b["cat"]:
                    violate("wrong-arguments", "%s in %s has category %s" % (e["name"], where, e["cat"]))
                for k, v in b["args"].items():
                    if e["args"].get(k) != v:
                        violate("wrong-arguments", "%s in %s has argument %s=%r instead of %r" % (
                            e["name"], where, k, e["args"].get(k), v))
                for k in e["args"]:
                    if k.startswith("late") and k not in b["args"]:
                        violate("wrong-arguments", "%s in %s has the argument %s of another event" % (
                            e["name"], where, k))
                if e["dur"] is None or e["dur"] < 0:
                    violate("negative-duration", "%s in %s lasts %s" % (e["name"], where, e["dur"]))
            for n in must:
                if n not in seen:
                    violate("lost-event", "%s finished but is not in %s" % (n, where))
            for k in sorted(set(others) | set(asked)):
                if others.get(k, 0) > asked.get(k, 0):
                    violate("duplicate-event", "%s appears %d times in %s, was added %d times" % (
                        k[0], others[k], where, asked.get(k, 0)))
                if others.get(k, 0) < sure.get(k, 0):
                    violate("lost-event", "%s appears %d times in %s, was added %d times before" % (
                        k[0], others.get(k, 0), where, sure[k]))
            for n, e in seen.items():
                o = seen.get(begun[n]["outer"])
                if o is not None and not (o["ts"] <= e["ts"] and e["ts"] + e["dur"] <= o["ts"] + o["dur"]):
                    violate("not-nested", "%s [%d+%d] is not inside %s [%d+%d] in %s" % (
                        n, e["ts"], e["dur"], o["name"], o["ts"], o["dur"], where))
            R.probe("export-checked")

        def leaf(b, t):
            if b["do"] == "export":
                must, sure = list(done), dict(added)
                path = Path(R.root) / ("exp/%d/t.json" % b["id"] if b["dir"] else "t%d.json" % b["id"])
                if b.get("old"):
                    simcore.put(str(path), "a longer export of an earlier build\n" * 400)
                before = len(R.fired_log)
                try:
                    if own is not None:
                        own.export_to_json(path)
                    else:
                        tracer.GlobExportJson(path)
                except OSError:
                    R.h("export", b["id"], "failed")
                    if not any(f[1] not in ("switch", "time") for f in R.fired_log[before:]):
                        violate("export-failed", "the export failed although no file operation did")
                    return
                R.h("export", b["id"])
                text = simcore.get(str(path)).decode()
                try:
                    data = json.loads(text)
                except ValueError:
                    violate("malformed-export", "export %d is not valid JSON" % b["id"])
                check(data, must, "export %d" % b["id"], sure)
                for k, v in marks:
                    pass
            elif b["do"] == "meta":
                coll().set_metadata("k%d" % b["id"], b["id"])
                marks.append(("k%d" % b["id"], b["id"]))
            elif b["do"] == "name":
                note = ("thread_name", json.dumps(dict(name="thread %d" % t.idx)), 7001 + t.idx)
                asked[note] = asked.get(note, 0) + 1
                coll().add_thread_name_event("thread %d" % t.idx)
                added[note] = added.get(note, 0) + 1
            elif b["do"] == "index":
                note = ("thread_sort_index", json.dumps(dict(sort_index=t.idx)), 7001 + t.idx)
                asked[note] = asked.get(note, 0) + 1
                coll().add_thread_index_event(t.idx)
                added[note] = added.get(note, 0) + 1
            elif b["do"] == "import":
                # events of another process, some of them look the same
                note = ("imported", "{}", 42)
                asked[note] = asked.get(note, 0) + b["n"]
                events = [tracer.TraceEvent(name="imported", ph=tracer.EventType.COMPLETE, pid=9, tid=42, args={},
                                            dur=5, cat="import", ts=1000) for _ in range(b["n"])]
                coll().addEvents(events)
                added[note] = added.get(note, 0) + b["n"]
                R.probe("imported")

        def program(t, blocks, outer):
            for b in blocks:
                old, t.op = t.op, b["id"]
                try:
                    if b["do"] != "event":
                        leaf(b, t)
                        continue
                    n = "event %d" % b["id"]
                    args = None if b["args"] == "none" else shared if b["args"] == "shared" else {"own": b["id"]}
                    want = {"own": b["id"]} if b["args"] in ("own", "reused") else {}
                    rec = begun[n] = dict(tid=7001 + t.idx, cat="cat%d" % (b["id"] % 3), args=want, outer=outer)
                    try:
                        if b["via"] == "push":
                            c = coll()
                            ev = c.push_complete_event(n, rec["cat"], args)
                            if b["args"] == "reused":
                                args["own"] = "for something else"
                            program(t, b["body"], n)
                            c.pop_complete_event()
                        else:
                            want["call_line"] = 1000 + b["id"]
                            want["call_function"] = "fn%d" % b["id"]
                            want["call_file"] = "file%d" % b["id"]
                            if own is not None or b["via"] == "coll":
                                cm = coll().complete_event
                            else:
                                cm = tracer.GlobCompleteEvent
                            with cm(n, rec["cat"], args, file=want["call_file"], line=want["call_line"],
                                    function=want["call_function"]) as ev:
                                if b["late"]:
                                    want["late%d" % b["id"]] = b["id"]
                                    ev.args["late%d" % b["id"]] = b["id"]
                                if b["args"] == "reused":
                                    args["own"] = "for something else"
                                program(t, b["body"], n)
                                if b["fails"]:
                                    R.probe("block-raised")
                                    raise Boom()
                    except Boom:
                        pass
                    done[n] = 1
                    R.h("end", t.idx, n)
                finally:
                    t.op = old

        s = simcore.Sched(R, [P["first"] % len(R.plan["threads"])])
        for blocks in R.plan["threads"]:
            def mk(blocks):
                def f():
                    program(t, blocks, None)
                t = s.spawn(f)
            mk(blocks)
        R.armed = 1
        s.go()
        R.armed = 0
        for t in s.threads:
            if t.error is not None:
                violate("tracing-raised", "tracing raised in thread %d: %s" % (
                    t.idx, simcore.describe_error(t.error)))
        R.h("switches", R.switches)
        path = Path(R.root) / "final.json"
        coll().export_to_json(path)
        data = json.loads(simcore.get(str(path)))
        check(data, list(done), "the final export", dict(added))
        for k, v in marks:
            if data["otherData"].get(k) != v:
                violate("lost-metadata", "metadata %s is missing from the final export" % k)
