"""External commands: results, failures and logs."""
import os
import re
import subprocess
import tempfile
from pathlib import Path

import simcore
import stubs
from sim_main import Scenario, register
from simcore import violate

from py_ci import util_scripting
from py_repository.repo_tasks import workflow_utils as wu
from py_repository.repo_tasks import command_execution as ce
from py_repository.repo_tasks.config import HaxorgConfig
import py_repository.repo_tasks.common  # noqa: F401

CONFIG = HaxorgConfig()
ANSI = re.compile(r"\x1B[@-_][0-?]*[ -/]*[@-~]")
PROGRAMS = ["tool", "/opt/a/tool", "/opt/b/tool", "make", "gone", "/opt/gone"]
ARGS = [[], ["a"], ["a b"], ["a", "b"], ["--flag", "x/y"], ["é"]]


@register
class RunCommand(Scenario):
    name = "run-command"
    real = ["scripts/py_repository command_execution, workflow_utils", "scripts/py_ci util_scripting (run_cmd)"]
    stub = ["external programs (exit codes, signals, output, missing programs)", "plumbum", "subprocess",
            "file layer with faults for the logs"]
    menu = [("write", ["ENOSPC", "EIO", "short"], 4), ("open", ["EACCES", "ENOSPC", "EMFILE", "EIO"], 3),
            ("close", ["EIO", "EDQUOT"], 2), ("mkdir", ["EACCES", "ENOSPC"], 1), ("stat", ["EIO"], 1)]
    variants = 8
    max_faults = 2

    def workload(self, rng):
        ops = []
        for i in range(rng.randint(2, 9)):
            if ops and rng.random() < 0.3:
                o = dict(rng.choice(ops))  # the same command again
            else:
                o = dict(cmd=rng.choice(PROGRAMS[:4]) if rng.random() < 0.9 else rng.choice(PROGRAMS[4:]),
                         args=rng.randrange(len(ARGS)), api=rng.choice(["host"] * 6 + ["bg", "nohup", "ci"]),
                         task=rng.randrange(3), log=rng.choice([None, None, None, 0, 1]))
            o.update(id=i, code=rng.choice([0, 0, 0, 1, 2, 127, -9, -15, 255]), allow=rng.random() < 0.4,
                     out=rng.choice([0, 1, 1, 2, 3, 4] * 3 + [5]), err=rng.choice([0, 0, 1, 2, 3] * 3 + [5]),
                     aout=rng.random() < 0.4, aerr=rng.random() < 0.4, tee=rng.random() < 0.2,
                     cwd=rng.random() < 0.2, env=rng.random() < 0.2, start=rng.random() > 0.06)
            ops.append(o)
        return dict(params=dict(), ops=ops)

    def run(self, R):
        root = R.root
        tempfile.tempdir = os.path.join(root, "tmp")
        os.mkdir(tempfile.tempdir)
        os.mkdir(os.path.join(root, "logs"))
        cur = {}

        def text(kind, op, which):
            tok = "<%s%d>" % (which, op["id"])
            return ["", tok + "\n", "\x1b[31m%s\x1b[0m red\nline\n" % tok, tok + "é世" + "\r\n" + "no newline",
                    (tok + " long line of output\n") * 900,
                    tok + "\n" + "".join("%d of a lot of output\n" % k for k in range(12000)) + "last"][kind]

        def execute(argv, env, cwd):
            op = cur["op"]
            cur["runs"] += 1
            if not op["start"]:
                raise OSError(8, "Exec format error")
            if argv != [op["cmd"]] + ARGS[op["args"]]:
                violate("wrong-command", "ran %r instead of %r" % (argv, [op["cmd"]] + ARGS[op["args"]]))
            if op["api"] == "host" and bool(op["cwd"]) != (cwd is not None):
                violate("wrong-command", "the command ran in %r" % (cwd,))
            if op["api"] == "host" and op["env"] and env.get("KEY") != "value":
                violate("wrong-command", "the command ran without its environment")
            return op["code"], text(op["out"], op, "o"), text(op["err"], op, "e")

        class Popen:
            def __init__(self, argv, cwd=None, start_new_session=False, stdout=None, stderr=None, env=None, **kw):
                if argv[0] not in stubs.World.programs:
                    raise FileNotFoundError(2, "No such file", argv[0])
                c, o, e = execute(list(argv), env or {}, cwd)
                for f, t in ((stdout, o), (stderr, e)):
                    if hasattr(f, "fileno"):
                        fd = f.fileno()
                        data = t.encode()
                        while data:
                            data = data[simcore._real["os_write"](fd, data):]
                self.returncode = c
                self.pid = 99

        def fake_run(argv, env=None, cwd=None, capture_output=False, text=False, check=False, **kw):
            if argv[0] not in stubs.World.programs:
                raise FileNotFoundError(2, "No such file", argv[0])
            c, o, e = execute(list(argv), env or {}, cwd)
            if check and c:
                raise subprocess.CalledProcessError(c, argv, o, e)
            return subprocess.CompletedProcess(argv, c, o, e)

        stubs.World.execute = execute
        stubs.World.programs = {p: 1 for p in PROGRAMS if "gone" not in p}
        subprocess.Popen = Popen
        subprocess.run = fake_run

        tasks = []

        def mk(i):
            def g(ctx: wu.TaskContext) -> None:
                cur["do"](ctx)
            g.__name__ = "job%d" % i
            return wu.haxorg_task()(g)

        for i in range(3):
            tasks.append(mk(i))
        ctx = wu.TaskContext(graph=wu.create_dag_from_tasks(tasks), stamp_root=Path(root) / "stamps", config=CONFIG,
                             repo_root=Path(root))
        logdir = os.path.join(root, "tmp")
        owner = {}   # automatic log file -> (task, cmd, args) whose output it holds

        def snapshot():
            out = {}
            for d, _, fs in os.walk(root):
                for f in fs:
                    p = os.path.join(d, f)
                    out[p] = simcore.get(p)
            return out

        for op in R.plan["ops"]:
            R.op = op["id"]
            cur.update(op=op, runs=0)
            key = (op["task"], op["cmd"], op["args"])
            so = se = None
            if op["log"] is not None and op["api"] != "ci":
                so = Path(root) / "logs" / ("out%d.log" % op["log"])
                se = Path(root) / "logs" / ("err%d.log" % op["log"])
            kw = dict(allow_fail=op["allow"], stdout_debug=so, stderr_debug=se, append_stdout_debug=op["aout"],
                      append_stderr_debug=op["aerr"], print_output=op["tee"],
                      run_mode="fg" if op["api"] == "host" else op["api"])
            if op["cwd"]:
                kw["cwd"] = root
            if op["env"]:
                kw["env"] = {"KEY": "value"}
            got = []

            def do(ctx):
                if op["api"] == "ci":
                    got.append(util_scripting.run_cmd([op["cmd"]] + ARGS[op["args"]], check=not op["allow"]))
                else:
                    got.append(ce.run_command(ctx, op["cmd"], ARGS[op["args"]], **kw))

            cur["do"] = do
            before = snapshot()
            fired = len(R.fired_log)
            err = None
            R.armed = 1
            try:
                tasks[op["task"]](ctx=ctx)
            except (simcore.Violation, simcore.HarnessError):
                raise
            except Exception as e:
                err = e
            R.armed = 0
            after = snapshot()
            bad = [f for f in R.fired_log[fired:] if f[3] != "short"]
            R.h("op", op["id"], op["api"], op["cmd"], op["args"], "code", op["code"],
                type(err).__name__ if err else [got[0][0], len(got[0][1]), len(got[0][2])])
            started = op["cmd"] in stubs.World.programs and op["start"]
            bg = op["api"] in ("bg", "nohup")
            want_fail = not started or (not bg and op["code"] != 0 and not op["allow"])
            hidden = [f for f in bad if f[1] in ("open", "write", "close")]
            if hidden and err is None:
                violate("log-failure-hidden", "writing a log failed (%s) but the command is reported as fine" % hidden[0])
            if want_fail and err is None:
                violate("failure-hidden", "%s ended with %s and no error was raised" % (
                    op["cmd"], op["code"] if started else "a start failure"))
            if err is not None and not want_fail and not bad:
                violate("spurious-error", "a fine command raised %s" % simcore.describe_error(err))
            if err is None:
                want = (0, "", "") if bg else (op["code"], text(op["out"], op, "o"), text(op["err"], op, "e"))
                if tuple(got[0]) != want:
                    violate("wrong-result", "the result is %.120r instead of %.120r" % (tuple(got[0]), want))
                if cur["runs"] != 1:
                    violate("wrong-result", "the command ran %d times" % cur["runs"])
            if bad or not started or op["api"] == "ci":
                # whatever was written to append logs before must still be there
                for p, app in ((so, op["aout"]), (se, op["aerr"])):
                    if p is not None and app and not (after.get(str(p)) or b"").startswith(before.get(str(p)) or b""):
                        violate("log-lost", "%s lost earlier output in append mode" % p)
                continue
            for name, path, app, kind in (("o", so, op["aout"], op["out"]), ("e", se, op["aerr"], op["err"])):
                full = text(kind, op, name)
                want = (full if bg else ANSI.sub("", full)).encode().replace(b"\r\n", b"\r\n")
                if path is not None:
                    p = str(path)
                    old, new = before.get(p) or b"", after.get(p) or b""
                    if app and not new.startswith(old):
                        violate("log-lost", "%s lost earlier output in append mode" % p)
                    if want and not (new.endswith(want) if app else new == want):
                        violate("log-wrong", "%s does not hold the output of the command" % p)
                    continue
                # an automatic log: the file that now holds this output
                if not want:
                    continue
                tok = ("<%s%d>" % (name, op["id"])).encode()
                where = [p for p, c in after.items() if tok in c]
                if not where:
                    violate("log-missing", "no log holds the output of %s" % op["cmd"])
                for p in where:
                    if want not in after[p]:
                        violate("log-wrong", "%s holds only a part of the output of %s" % (p, op["cmd"]))
                    old = before.get(p) or b""
                    if owner.get(p, key) != key:
                        violate("logs-mixed", "%s is used by %s and by %s" % (p, owner[p], key))
                    owner[p] = key
                    if app and not after[p].startswith(old):
                        violate("log-lost", "%s lost earlier output in append mode" % p)
                    R.probe("auto-log")
            for p, c in before.items():
                # nobody else's log may change
                if after.get(p) != c and owner.get(p, key) != key:
                    violate("logs-mixed", "%s changed the log %s of another command" % (op["cmd"], p))
