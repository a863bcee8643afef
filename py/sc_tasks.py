"""Task graphs: order, at-most-once, failure and attribution (one process, one context)."""
import os
import random
import tempfile
from pathlib import Path

import simcore
import stubs
from sim_main import Scenario, register
from simcore import violate

from py_repository.repo_tasks import workflow_utils as wu
from py_repository.repo_tasks.config import HaxorgConfig
import py_repository.repo_tasks.common  # noqa: F401
from py_repository.repo_tasks.command_execution import run_command


class Boom(Exception):
    pass


class HardStop(BaseException):
    pass


FAILS = {"error": Boom, "interrupt": KeyboardInterrupt, "exit": SystemExit, "stop": HardStop,
         "oserror": OSError}


def closure(deps, t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += deps[x]
    return seen


@register
class TasksOrder(Scenario):
    name = "tasks-order"
    real = ["scripts/py_repository: workflow_utils (graph, context, task wrapper), config, command_execution"]
    stub = ["igraph (valid execution order picked by the seed)", "pydantic", "plumbum", "task bodies",
            "file layer for the command logs"]
    menu = [("body", list(FAILS), 5), ("cmd", ["fail"], 1)]
    variants = 10
    max_faults = 3

    def workload(self, rng):
        n = rng.randint(2, 7)
        deps, tasks = [], []
        for i in range(n):
            k = min(i, rng.choice([0, 1, 1, 2, 2, 3]))
            deps.append(rng.sample(range(i), k))
        for i in range(n):
            acts = []
            for _ in range(rng.choice([0, 0, 1, 2, 3])):
                r = rng.random()
                if r < 0.45:
                    cand = [j for j in range(n) if i not in closure(deps, j)]
                    # a nested run must not come back to the running task
                    cand = [j for j in cand if j < i]
                    if cand:
                        acts.append(dict(do="nested", target=rng.choice(cand), via=rng.choice(["name", "call"]),
                                         cfg=rng.choice([None, None, 0, 1, 2]), catch=rng.random() < 0.5))
                else:
                    acts.append(dict(do="cmd", allow=rng.random() < 0.7))
            tasks.append(dict(acts=acts, suffix=rng.choice(["", "_task"]), ctx=rng.random() < 0.9))
        ops = []
        for i in range(rng.randint(1, 5)):
            ops.append(dict(id=i, target=rng.randrange(n), via=rng.choice(["name", "call"]),
                            cfg=rng.choice([None, None, None, 0, 1, 2]), deps=rng.random() < 0.92))
        return dict(params=dict(deps=deps, tasks=tasks, order=rng.getrandbits(32),
                                reg=rng.getrandbits(32)), ops=ops)

    def run(self, R):
        P = R.plan["params"]
        deps = P["deps"]
        n = len(deps)
        stubs.Graph.order_rng = random.Random(P["order"])
        tempfile.tempdir = os.path.join(R.root, "tmp")
        os.mkdir(tempfile.tempdir)
        stubs.World.programs = {"tool": 1}
        done = set()       # (task, cfg) that completed in this context
        running = []       # (task, cfg) stack
        notrack = [0]
        names = ["t%d" % i for i in range(n)]
        funcs = []

        def cfg_key(k, d):
            return "base" if k is None else "k%d" % k

        def make_cfg(k, use_deps=True):
            c = HaxorgConfig()
            if k is not None:
                c = c.model_copy(update=[dict(debug=True), dict(in_ci=True),
                                         dict(debug=True, force_full_build=True)][k])
            if not use_deps:
                c = c.model_copy(update=dict(use_dependencies=False))
            return c

        state = {"key": "base"}

        def execute(argv, env, cwd):
            # the log of the command shows who it is attributed to
            bad = R.fault("cmd")
            return (1 if bad else 0), "output of %s\n" % argv[1], ""

        stubs.World.execute = execute

        def attributed(ctx, i, where):
            """A command run now must be logged under task i."""
            path = ctx.get_task_debug_streams("tool", ["probe"])[1]
            base = os.path.basename(str(path))
            if not base.startswith(names[i] + "_"):
                violate("misattributed", "a command of task %s is logged as %s (%s)" % (
                    names[i], base, where))

        def body(i, ctx):
            key = state["key"]
            me = (i, key)
            R.h("start", names[i], key)
            R.probe("body")
            if not notrack[0]:
                if me in done:
                    violate("ran-twice", "task %s ran again under %s" % (names[i], key))
                if me in running:
                    violate("ran-twice", "task %s started while it is running" % names[i])
                for d in deps[i]:
                    if (d, key) not in done:
                        violate("dependency-not-run", "task %s started before its dependency %s" % (
                            names[i], names[d]))
            running.append(me)
            if ctx is not None:
                attributed(ctx, i, "start")
            try:
                for a in P["tasks"][i]["acts"]:
                    if ctx is None:
                        continue
                    if a["do"] == "cmd":
                        try:
                            run_command(ctx, "tool", ["x%d" % i], allow_fail=a["allow"])
                        finally:
                            attributed(ctx, i, "after a command")
                    else:
                        c2 = ctx
                        if a["cfg"] is not None:
                            c2 = ctx.with_temp_config(make_cfg(a["cfg"]))
                        try:
                            R.probe("nested")
                            start(c2, a["target"], a["via"], a["cfg"] if a["cfg"] is not None else "same")
                        except BaseException as e:
                            if isinstance(e, (simcore.Violation, simcore.HarnessError)) or not a["catch"]:
                                raise
                            R.h("caught", names[i], type(e).__name__)
                            R.probe("nested-failure-caught")
                        finally:
                            attributed(ctx, i, "after a nested run")
                            attributed(c2, i, "after a nested run, temporary configuration")
                kind = R.fault("body")
                if kind:
                    raise FAILS[kind]("task %s fails" % names[i])
            except BaseException:
                running.pop()
                raise
            running.pop()
            R.h("end", names[i], key)
            if not notrack[0]:
                done.add(me)

        def start(ctx, target, via, cfg, track=True):
            old = state["key"]
            if cfg != "same":
                state["key"] = cfg_key(cfg, True)
            key = state["key"]
            tag = names[target] if via == "name" else funcs[target]
            before = len(R.hist)
            raised = None
            old_notrack = notrack[0]
            if cfg != "same" or not track:
                notrack[0] = 0 if track else 1
            try:
                ctx.run(tag, ctx=ctx)
            except BaseException as e:
                raised = e
                raise
            finally:
                tracked = not notrack[0]
                state["key"] = old
                notrack[0] = old_notrack
                if raised is None and tracked:
                    for t in closure(deps, target):
                        if (t, key) not in done:
                            violate("incomplete", "run of %s succeeded but %s has not run successfully" % (
                                names[target], names[t]))

        for i in range(n):
            suffix = P["tasks"][i]["suffix"]

            if P["tasks"][i]["ctx"]:
                def f(ctx: wu.TaskContext, i=i) -> None:
                    body(i, ctx)
            else:
                def f(i=i) -> None:
                    body(i, None)

            def mk(f, i):
                if P["tasks"][i]["ctx"]:
                    def g(ctx: wu.TaskContext) -> None:
                        f(ctx)
                else:
                    def g() -> None:
                        f()
                g.__name__ = names[i] + suffix
                return g

            funcs.append(wu.haxorg_task(dependencies=[funcs[d] for d in deps[i]])(mk(f, i)))

        order = list(range(n))
        random.Random(P["reg"]).shuffle(order)
        graph = wu.create_dag_from_tasks([funcs[i] for i in order])
        base = wu.TaskContext(graph=graph, stamp_root=Path(R.root) / "stamps", config=make_cfg(None),
                              repo_root=Path(R.root))
        for op in R.plan["ops"]:
            R.op = op["id"]
            fired = len(R.fired_log)
            ctx = base
            if op["cfg"] is not None or not op["deps"]:
                ctx = base.with_temp_config(make_cfg(op["cfg"], op["deps"]))
            err = None
            del running[:]
            try:
                start(ctx, op["target"], op["via"], op["cfg"], track=op["deps"])
            except (simcore.Violation, simcore.HarnessError):
                raise
            except BaseException as e:
                err = e
            new = R.fired_log[fired:]
            R.h("op", op["id"], names[op["target"]], "failed " + type(err).__name__ if err else "ok")
            if err is not None and not new:
                violate("spurious-failure", "run of %s failed although no task failed: %s" % (
                    names[op["target"]], simcore.describe_error(err)))
            if err is not None:
                R.probe("run-failed")
                kinds = set(FAILS[f[3]] for f in new if f[1] == "body")
                if any(f[1] == "cmd" for f in new):
                    kinds.add(RuntimeError)
                if type(err) not in kinds:
                    violate("wrong-failure", "the caller got %s instead of the task's failure" %
                            simcore.describe_error(err))
