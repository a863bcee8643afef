"""The source formatting hook over process lives with kills, I/O faults and formatter failures."""
import ast
import io
import os
import subprocess
import sys
import tokenize
import importlib.util

import simcore
from sim_main import Scenario, register
from simcore import violate

spec = importlib.util.spec_from_file_location(
    "safe_yapf_format", simcore.CODE_ROOT + "py_repository/py_repository/repo_hooks/safe_yapf_format.py")
hook = importlib.util.module_from_spec(spec)
sys.modules["safe_yapf_format"] = hook
spec.loader.exec_module(hook)


# ---- a formatter: needs pre-3.12 syntax, normalises plain statements ----
def format_source(src):
    """What the simulated formatter makes of a source; raises SyntaxError on type aliases."""
    tree = ast.parse(src)
    for node in ast.walk(tree):
        if isinstance(node, getattr(ast, "TypeAlias", ())):
            raise SyntaxError("type alias")
    inside = set()  # lines that belong to multi-line statements or strings stay as they are
    for node in ast.walk(tree):
        if isinstance(node, (ast.Assign, ast.Expr)) and node.end_lineno != node.lineno:
            inside.update(range(node.lineno, node.end_lineno + 1))
    lines = src.split("\n")
    out = []
    for k, line in enumerate(lines, 1):
        if k in inside or "#" in line or '"' in line or "'" in line or "\\" in line:
            # a long placeholder may be wrapped by the formatter
            out.append(line)
        else:
            body = line.rstrip(" \t")
            ind = len(body) - len(body.lstrip(" "))
            body = body[:ind] + body[ind:].replace("  ", " ").replace(" =", "=").replace("= ", "=").replace("=", " = ")
            out.append(body)
    return "\n".join(out)


def reindent(src, width):
    """Formatter option: four-column blocks become `width` columns where the line starts a statement."""
    if width == 4:
        return src
    tree = ast.parse(src)
    starts = set()
    keep = set()
    for node in ast.walk(tree):
        if isinstance(node, ast.stmt):
            starts.add(node.lineno)
            if not hasattr(node, "body"):
                keep.update(range(node.lineno + 1, node.end_lineno + 1))
    out = []
    for k, line in enumerate(src.split("\n"), 1):
        ind = len(line) - len(line.lstrip(" "))
        if ind and k not in keep and ind % 4 == 0:
            line = " " * (ind // 4 * width) + line[ind:]
        out.append(line)
    return "\n".join(out)


def coding_of(data):
    return tokenize.detect_encoding(io.BytesIO(data).readline)[0]


def comments(src):
    return sorted(t.string for t in tokenize.generate_tokens(io.StringIO(src, newline="").readline)
                  if t.type == tokenize.COMMENT)


ALIASES = [
    "type A = int",
    "type  B  =  list[int]",
    "type C[T] = dict[str,  T]",
    "type D = (\n    int |\n      str\n)",
    "type E = dict[\n  'k',  # why\n  int,\n]",
    "type F = int; x = 1",
    "type G = int; type H = str",
    "y = 2; type I = int",
    "type J = Literal['''a\n   b''']",
    "type K = int  # trailing",
    "type L = Literal['\u2028 odd']",
    "type M = Literal['\\\n']",
    "type N = Literal[\"\"\"x\n        deep\n\"\"\"]",
]
PLAIN = [
    "x=1", "value  =  3", "# note", "", "def f(a):\n    return  a", "s = 'two  spaces'",
    "class P:\n    q  =  4\n", "text = '''\n  type Z = 1\n'''", "type = 5", "type(x)", "z = (\n  1,\n    2)",
    "match = 1", "t = 'form\x0cfeed'", "u = 'sep\u2028ends'", "def g():\n    type = 3\n    return type\n",
]
INNER = ["    type A1 = int", "    type B1 = dict[\n        str,\n        int]", "    x  =  1", "    # c", "    pass",
         "    type C1 = Literal['''a\nb\n    c''']", "    type D1 = int; y = 1", "    if True:\n        type E1 = str",
         "    type F1 = int; type F2 = int"]

# what the formatter changes wherever it stands
RAW = ["x=1", "value  =  3", "    return  a", "    q  =  4", "    x  =  1"]


@register
class FormatHook(Scenario):
    name = "format-hook"
    real = ["scripts/py_repository/py_repository/repo_hooks/safe_yapf_format.py"]
    stub = ["yapf (simulated formatter process)", "file layer with faults", "process kill and interrupt"]
    menu = [("point", ["kill", "kill", "interrupt", "actor#", "actor#"], 9), ("open", ["EACCES", "EIO", "ENOSPC", "EMFILE"], 1),
            ("write", ["ENOSPC", "EIO", "short", "torn-kill"], 3), ("close", ["EIO", "EDQUOT"], 1),
            ("rename", ["EIO", "EACCES", "ENOSPC"], 1), ("unlink", ["EACCES", "EIO"], 0.5),
            ("chmod", ["EPERM"], 0.5), ("stat", ["EIO", "EACCES"], 0.5), ("read", ["EIO", "short"], 1),
            ("yapf", ["fail", "fail-partial", "signal", "missing", "hang-interrupt"], 5)]
    variants = 20
    max_faults = 3

    def workload(self, rng):
        files, coding = [], []
        for i in range(rng.choice([1, 1, 2, 3])):
            parts = []
            for _ in range(rng.randint(0, 7)):
                r = rng.random()
                if r < 0.4:
                    parts.append(rng.choice(ALIASES))
                elif r < 0.75:
                    parts.append(rng.choice(PLAIN))
                else:
                    parts.append("%s:\n%s" % (rng.choice(["class K", "def fn()", "if 1"]), "\n".join(
                        rng.choice(INNER) for _ in range(rng.randint(1, 4)))))
                    if parts[-1].endswith("# c"):
                        parts[-1] += "\n    pass"
            src = "\n".join(parts)
            if rng.random() < 0.85:
                src += "\n"
            if rng.random() < 0.12:
                src = src.replace("\n", "\r\n")
            if rng.random() < 0.03:
                src += "def broken(:\n"
            if rng.random() < 0.1:
                src += "# pad " + "x" * rng.choice([5000, 9000, 20000]) + "\n"
            files.append(src)
            coding.append(rng.choice(["utf-8"] * 17 + ["latin-1", "latin-1", "bad"]))
            if coding[-1] == "latin-1":
                files[-1] = "# coding: latin-1" + ("\r\n" if "\r\n" in src else "\n") + src + "w  =  'caf\u00e9'\n"
            if coding[-1] == "bad":
                files[-1] = src + "# caf\u00e9\n"
        return dict(params=dict(width=rng.choice([4, 4, 4, 2]), mode=rng.choice([0o644, 0o755, 0o600]),
                                chunk=rng.choice([7, 64, 4096])),
                    ops=[dict(id=i, files=f) for i, f in enumerate(
                        [list(range(len(files)))] + ([[0]] if rng.random() < 0.5 else []))],
                    sources=files, coding=coding)

    def run(self, R):
        P = R.plan["params"]
        srcs = R.plan["sources"]
        state = {}
        for i, s in enumerate(srcs):
            state[i] = s.encode() if R.plan["coding"][i] == "utf-8" else s.encode("latin-1", "replace")
            p = simcore.put("f%d.py" % i, state[i])
            os.chmod(p, P["mode"])

        def fake_run(argv, check=False, **kw):
            if list(argv)[:1] != ["yapf"]:
                raise simcore.HarnessError("unexpected command %r" % (argv,))
            R.event("yapf")
            R.point("yapf")
            kind = R.fault("yapf")
            if kind == "missing":
                raise FileNotFoundError(2, "No such file or directory", "yapf")
            if kind == "hang-interrupt":
                raise KeyboardInterrupt()
            code, out = 0, b""
            inp = kw.get("input")
            names = [a for a in argv[1:] if not a.startswith("-")]
            in_place = "-i" in argv or "--in-place" in argv
            with simcore.unarmed():
                data = simcore.get(names[0]) if names else (inp.encode() if isinstance(inp, str) else inp or b"")
            try:
                text = data.decode(coding_of(data))
                crlf = "\r\n" in text
                res = reindent(format_source(text.replace("\r\n", "\n")), P["width"])
                if crlf:
                    res = res.replace("\n", "\r\n")
                out = res.encode(coding_of(data))
            except (SyntaxError, ValueError):
                code, out = 1, b""
            if kind == "fail":
                code, out = 1, b""
            if kind == "signal":
                code = -9
            partial = kind in ("fail-partial", "signal")
            if kind == "fail-partial":
                code = 1
            if in_place and names and (code == 0 or partial):
                # the formatter writes the file in place, piece by piece
                todo = out[:len(out) // 2] if partial else out
                done = b""
                simcore.put(names[0], b"")
                while done != todo:
                    R.point("yapf")
                    done = todo[:len(done) + P["chunk"] * max(1, len(todo) // (P["chunk"] * 6))]
                    simcore.put(names[0], done)
                R.point("yapf")
            stdout = out if not in_place else b""
            if kw.get("text") or kw.get("encoding") or kw.get("universal_newlines"):
                stdout = stdout.decode()
            if check and code != 0:
                raise subprocess.CalledProcessError(code, argv, stdout, None)
            return subprocess.CompletedProcess(argv, code, stdout, "" if isinstance(stdout, str) else b"")

        subprocess.run = fake_run
        hook.subprocess.run = fake_run
        sys.stderr = io.StringIO()

        def live(paths):
            return hook.main(["safe_yapf_format.py"] + paths)

        def another(k):
            """Another process runs the hook on the same files; it completes or is killed on the way."""
            pid = simcore._real["fork"]()
            if pid:
                os.waitpid(pid, 0)
                return
            left = [-1 if k % 4 == 0 else k // 4 % 500]

            def count(*a):
                left[0] -= 1
                if left[0] == 0:
                    simcore._real["_exit"](0)

            def lines(frame, event, arg):
                if event == "line":
                    count()
                return lines

            try:
                R.faultmap, R.point_faults, R.actor, R.point = {}, set(), None, count
                sys.settrace(lambda f, e, a: lines if f.f_code.co_filename.startswith(simcore.CODE_ROOT) else None)
                live([os.path.join(R.root, "f%d.py" % i) for i in op["files"]])
            except BaseException:
                pass
            finally:
                simcore._real["_exit"](0)

        for op in R.plan["ops"]:
            R.op = op["id"]
            R.events = []
            R.actor = another
            fired = len(R.fired_log)
            status, val = R.life(lambda: live([os.path.join(R.root, "f%d.py" % i) for i in op["files"]]))
            faults = R.fired_log[fired:]
            R.h("op", op["id"], status, val)
            R.probe("hook-" + status)
            success = status == "ok" and val == 0
            left = [i for i in op["files"]]
            for i in left:
                now = simcore.get("f%d.py" % i)
                if now is None:
                    violate("file-lost", "f%d.py is gone" % i)
                mode = os.stat(os.path.join(R.root, "f%d.py" % i)).st_mode & 0o777
                if mode != P["mode"]:
                    violate("mode-changed", "f%d.py has mode %o instead of %o" % (i, mode, P["mode"]))
                if now == state[i]:
                    R.probe("unchanged")
                    continue
                R.probe("formatted")
                self.compare(i, state[i], now)
                state[i] = now
            if status == "error" and not faults:
                R.probe("hook-failed-by-itself")

    @staticmethod
    def compare(i, old, new):
        try:
            a = old.decode(coding_of(old))
        except (UnicodeDecodeError, SyntaxError):
            violate("corrupted", "f%d.py was not valid text and has been changed" % i)
        try:
            b = new.decode(coding_of(new))
        except (UnicodeDecodeError, SyntaxError):
            violate("corrupted", "f%d.py is not valid text any more" % i)
        if "__safe_yapf" in b:
            violate("placeholder-left", "f%d.py holds an intermediate form" % i)
        for line in b.replace("\r\n", "\n").split("\n"):
            if line in RAW:
                violate("partially-formatted", "f%d.py has been changed but %r is not formatted" % (i, line))
        try:
            ta = ast.dump(ast.parse(a))
        except SyntaxError:
            violate("corrupted", "f%d.py was not valid and has been changed" % i)
        try:
            tb = ast.dump(ast.parse(b))
        except SyntaxError:
            violate("corrupted", "f%d.py does not parse any more" % i)
        if ta != tb:
            violate("corrupted", "f%d.py has another meaning than before" % i)
        if comments(a) != comments(b):
            violate("corrupted", "f%d.py lost comments" % i)
        if ("\r\n" in a) != ("\r\n" in b):
            violate("corrupted", "f%d.py has other line ends than before" % i)
