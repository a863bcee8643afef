"""Stamped tasks over many process lives: a skipped task is really up to date."""
import os
import random
import tempfile
from pathlib import Path

import simcore
import stubs
from sim_main import Scenario, register
from simcore import violate

from py_repository.repo_tasks import workflow_utils as wu
from py_repository.repo_tasks.config import HaxorgConfig
from py_scriptutils.files import FileOperation
import py_repository.repo_tasks.common  # noqa: F401


class Boom(Exception):
    pass


FAILS = {"error": Boom, "interrupt": KeyboardInterrupt, "exit": SystemExit, "oserror": OSError}
CONFIG = HaxorgConfig()
# values that contain each other, and values of different types
PARAMS = [0, 1, 12, "1", "1 2", [1], [1, 2], {"k": 1}, {"k": 1, "l": 2}, ""]
STRINGS = ["P", "P1", "P12", "P1 P2", "P1\n", "p1", "P2", "P21", "2", "P1\nP2"]


@register
class TasksStamps(Scenario):
    name = "tasks-stamps"
    real = ["scripts/py_scriptutils/files.py (stamps)", "scripts/py_repository workflow_utils, config"]
    stub = ["file layer with faults and simulated modification times", "clock", "igraph", "pydantic",
            "task bodies", "other editors of the inputs"]
    menu = [("point", ["kill", "interrupt", "actor#", "actor#"], 10),
            ("open", ["EACCES", "EIO", "ENOSPC", "EMFILE"], 1), ("write", ["ENOSPC", "EIO", "short", "torn-kill"], 2),
            ("close", ["EIO", "EDQUOT"], 1), ("rename", ["EIO", "EACCES", "ENOSPC"], 1),
            ("unlink", ["EACCES", "EIO"], 1), ("utime", ["EPERM", "EIO"], 1), ("mkdir", ["ENOSPC", "EACCES"], 1),
            ("stat", ["EIO", "EACCES"], 1), ("read", ["EIO"], 1), ("body", list(FAILS), 3)]
    variants = 14
    max_faults = 3

    def workload(self, rng):
        n = rng.randint(1, 3)
        tasks = []
        for i in range(n):
            ins = []
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                ins.append("src/i%d" % rng.randrange(4))
            dep = [j for j in range(i) if rng.random() < 0.7]
            use = [j for j in dep if rng.random() < 0.6]  # consume the outputs of the dependency
            kind = rng.choice(["intmp", "intmp", "inout", "onlystamp"])
            outs = ["out/t%d_%d" % (i, k) for k in range(rng.choice([0, 1, 1, 2]))]
            if kind == "inout" and not outs:
                outs = ["out/t%d_0" % i]
            if kind == "onlystamp":
                ins, use, outs = [], [], []
            ins = sorted(set(ins))
            if not ins and not any(tasks[j]["outs"] for j in use):
                kind, outs, use = "onlystamp", [], []
            content = rng.choice(["none", "call", "call", "str"])
            if kind == "onlystamp":
                content = "call"
            if kind == "inout":
                content = rng.choice(["none", "str"])
            tasks.append(dict(ins=ins, dep=dep, use=use, kind=kind, outs=outs, content=content,
                              style=rng.choice(["list", "callable", "gen", "str", "dir"]),
                              ostyle=rng.choice(["list", "callable"]),
                              stamp=rng.choice(["t%d.stamp", "sub/dir/t%d.stamp"]) % i))
        ops = []
        nf = 4
        # each run favours some kinds of changes
        mix = [rng.choice([0, 1, 4]) for _ in range(4)]
        for i in range(rng.randint(3, 10)):
            r = rng.random()
            if i % 2 == 0 or r < 0.3 or not any(mix):
                ops.append(dict(id=i, op="run", target=rng.randrange(n) if r < 0.2 else n - 1))
                continue
            what = rng.choices(["edit", "delete", "param", "unstamp"], mix)[0]
            if what == "edit":
                ops.append(dict(id=i, op="edit", file="src/i%d" % rng.randrange(nf)))
            elif what == "delete":
                t = rng.choice(tasks)
                if t["outs"]:
                    ops.append(dict(id=i, op="delete", file=rng.choice(t["outs"])))
            elif what == "param":
                ops.append(dict(id=i, op="param", value=rng.randrange(len(PARAMS))))
            else:
                ops.append(dict(id=i, op="unstamp", task=rng.randrange(n)))
        for o in ops:
            o["gap"] = rng.choice([2_000_000, 100_000_000, 1_000_000_000])
        ops.append(dict(id=90, op="run", target=n - 1))
        ops.append(dict(id=91, op="run", target=n - 1))
        # some inputs are symbolic links to where the text really is; one may appear later
        later = rng.randrange(nf) if rng.random() < 0.4 else None
        if any(t["ins"] == ["src/i%s" % later] for t in tasks):
            later = None
        for o in ops:
            if o["op"] == "run" and rng.random() < 0.25:
                # the same process carries on after an edit
                o["more"] = dict(file="src/i%d" % rng.randrange(nf), target=rng.randrange(n))
        return dict(params=dict(tasks=tasks, order=rng.getrandbits(32),
                                links=[rng.random() < 0.15 for _ in range(nf)], later=later), ops=ops)

    def run(self, R):
        P = R.plan["params"]
        T = P["tasks"]
        n = len(T)
        root = R.root
        tempfile.tempdir = os.path.join(root, "tmp")
        os.mkdir(tempfile.tempdir)
        for i in range(4):
            if P.get("links") and P["links"][i]:
                simcore.put("real/i%d" % i, "v0 of %d\n" % i)
                simcore.link("src/i%d" % i, "real/i%d" % i)
            elif P.get("later") != i:
                simcore.put("src/i%d" % i, "v0 of %d\n" % i)
        os.makedirs(os.path.join(root, "out"), exist_ok=True)
        version = [0]
        edits = {}     # input -> time of the last edit that happened
        param = [0]
        last = {}      # task -> last execution: dict(start, param, ok, outs{})
        quiet_skip = {}  # task -> nothing changed since it was seen skipped
        names = ["t%d" % i for i in range(n)]
        used = sorted({f for t in T for f in t["ins"]}) or ["src/i0"]
        listings = {}  # task -> function that lists its inputs

        def edit(f):
            version[0] += 1
            R.tick(7_000_000)
            simcore.put(f, "version %d of %s\n" % (version[0], f))
            R.event("edit", f, R.clock_ns, version[0])
            R.tick(5_000_000)

        def closure(t):
            seen, todo = set(), [t]
            while todo:
                x = todo.pop()
                if x not in seen:
                    seen.add(x)
                    todo += T[x]["dep"]
            return seen

        def inputs(i):
            return list(T[i]["ins"]) + [o for j in T[i]["use"] for o in T[j]["outs"]]

        def stampval(i):
            return {"p": PARAMS[param[0]]} if T[i]["content"] == "call" else \
                STRINGS[param[0]] if T[i]["content"] == "str" else None

        def live(target):
            stubs.Graph.order_rng = random.Random(P["order"])
            funcs = []
            for i in range(n):
                t = T[i]
                paths = [Path(root) / p for p in inputs(i)]
                style = t["style"]
                if style == "list":
                    inp = list(paths)
                elif style == "str":
                    inp = [str(p) for p in paths]
                elif style == "callable":
                    def inp(paths=paths, **kw):
                        return list(paths)
                elif style == "dir" and not any(T[j]["outs"] for j in t["use"]):
                    # whatever is there at the moment
                    if i not in listings:
                        def inp(names=set(t["ins"]), **kw):
                            return [p for p in sorted((Path(root) / "src").iterdir())
                                    if "src/" + p.name in names]
                        listings[i] = inp
                    inp = listings[i]
                else:
                    def inp(paths=paths, **kw):
                        for p in paths:
                            yield p
                outs = [Path(root) / p for p in t["outs"]]
                out = outs
                if t["ostyle"] == "callable" and t["kind"] == "inout":
                    def out(outs=outs, ctx=None):
                        assert ctx is not None
                        return list(outs)
                content = stampval(i)
                if t["content"] == "call":
                    value = content

                    def content(ctx=None, value=value):
                        assert ctx is not None
                        return value
                if t["kind"] == "onlystamp":
                    op = FileOperation.OnlyStamp(t["stamp"], content)
                elif t["kind"] == "intmp":
                    op = FileOperation.InTmp(inp, t["stamp"], content, output=outs)
                else:
                    op = FileOperation.InOut(inp, out, t["stamp"], content)

                def mk(i):
                    def g(ctx: wu.TaskContext) -> None:
                        body(i)
                    g.__name__ = names[i]
                    return g

                funcs.append(wu.haxorg_task(dependencies=[funcs[d] for d in t["dep"]], file_operation=op)(mk(i)))
            ctx = wu.TaskContext(graph=wu.create_dag_from_tasks(funcs), stamp_root=Path(root) / "stamps",
                                 config=CONFIG, repo_root=Path(root))
            ctx.run(names[target], ctx=ctx)

        def step():
            R.tick()
            R.point("body")
            kind = R.fault("body")
            if kind:
                raise FAILS[kind]("task fails")

        def body(i):
            R.event("start", i, R.clock_ns, param[0])
            step()
            text = "|".join((simcore.get(f) or b"missing").decode() for f in inputs(i))
            step()
            res = {}
            for k, o in enumerate(T[i]["outs"]):
                R.event("dirty", i)
                simcore.put(o, "partial")
                step()
                res[o] = "out %d of %d: p%s %s" % (k, i, param[0], text)
                simcore.put(o, res[o])
                R.event("wrote", i, o, R.clock_ns)
                step()
            step()
            R.event("end", i, res)

        def outputs():
            with simcore.unarmed():
                found = {o: simcore.get(o) for t in T for o in t["outs"]}
            return {o: c.decode() for o, c in found.items() if c is not None}

        def judge(opid, target, status, faulty, events, found):
            """What one run decided, against the model before it."""
            known_edits = dict(edits)
            ran = set()
            writes = {}
            for e in events:
                if e[0] == "edit":
                    edits[e[1]] = e[2]
                elif e[0] == "start":
                    ran.add(e[1])
                    last[e[1]] = dict(start=e[2], param=e[3], ok=False, outs={}, op=opid)
                elif e[0] == "wrote":
                    # an output consumed by another task counts as an edit of its input
                    edits[e[2]] = e[3]
                    writes[e[2]] = e[1]
                elif e[0] == "end":
                    last[e[1]].update(ok=True, outs=e[2])
            R.h("judge", opid, names[target], status, "ran", sorted(ran))
            if status != "ok":
                R.probe("run-" + status)
                quiet_skip.clear()
                return
            for i in sorted(closure(target)):
                if i in ran:
                    if quiet_skip.get(i) and not faulty and not any(
                            f in writes for f in inputs(i)):
                        violate("skip-changed-decision",
                                "task %s ran again although nothing changed since it was skipped" % names[i])
                    quiet_skip[i] = False
                    R.probe("task-ran")
                    continue
                R.probe("task-skipped")
                rec = last.get(i)
                if rec is None:
                    violate("skipped-never-run", "task %s was skipped but never ran" % names[i])
                if not rec["ok"]:
                    violate("skipped-after-failure", "task %s was skipped, its last run did not complete" % names[i])
                for o in T[i]["outs"]:
                    c = found.get(o)
                    if c is None:
                        violate("skipped-missing-output", "task %s was skipped but %s is missing" % (names[i], o))
                    if c != rec["outs"].get(o):
                        violate("skipped-wrong-output", "task %s was skipped, %s is not its result" % (names[i], o))
                if T[i]["content"] != "none" and rec["param"] != param[0]:
                    violate("skipped-old-parameters", "task %s was skipped, it ran with other parameters" % names[i])
                for f in inputs(i):
                    # edits made by others while this run was under way may come after its decision
                    t = known_edits.get(f, 0)
                    if f in writes:
                        t = edits[f]
                    if t > rec["start"]:
                        R.h("edit of", f, "at", t, "run began", rec["start"])
                        violate("skipped-stale", "task %s was skipped, its last run began before the edit of %s" % (
                            names[i], f))
                quiet_skip[i] = True
            if faulty:
                quiet_skip.clear()

        for op in R.plan["ops"]:
            R.op = op["id"]
            R.tick(op.get("gap", 1_000_000_000))
            R.events = []
            if op["op"] == "edit":
                edit(op["file"])
            elif op["op"] == "delete":
                p = os.path.join(root, op["file"])
                if os.path.exists(p):
                    os.unlink(p)
            elif op["op"] == "param":
                param[0] = op["value"]
            elif op["op"] == "unstamp":
                p = os.path.join(root, "stamps", T[op["task"]]["stamp"])
                if os.path.exists(p):
                    os.unlink(p)
            if op["op"] != "run":
                for e in R.events:
                    edits[e[1]] = e[2]
                R.events = []
                quiet_skip.clear()
                R.h("op", op["id"], {k: v for k, v in op.items() if k != "id"})
                continue
            R.actor = lambda k: edit(used[k % len(used)])
            fired = len(R.fired_log)
            R.events = []
            more = op.get("more")

            def session():
                live(op["target"])
                if more:
                    R.event("done", outputs())
                    edit(more["file"])
                    R.event("next")
                    live(more["target"])

            status, val = R.life(session)
            R.actor = None
            faulty = len(R.fired_log) > fired
            R.h("op", op["id"], "run", names[op["target"]], status, val if status == "error" else "")
            if status == "error" and not faulty:
                violate("spurious-failure", "the run failed although nothing failed: %s" % val)
            done, rest = [], R.events
            for k, e in enumerate(R.events):
                if e[0] == "done":
                    done, rest, found = R.events[:k], R.events[k + 1:], e[1]
            if len(rest) < len(R.events):
                judge(op["id"], op["target"], "ok", faulty, done, found)
                quiet_skip.clear()
                nxt = [k for k, e in enumerate(rest) if e[0] == "next"]
                between = rest[:nxt[0]] if nxt else rest
                rest = rest[nxt[0] + 1:] if nxt else []
                for e in between:
                    if e[0] == "edit":
                        edits[e[1]] = e[2]
                judge(op["id"], more["target"], status if nxt else "killed", faulty, rest, outputs())
            else:
                judge(op["id"], op["target"], status, faulty, rest, outputs())
