"""Cached results against recomputation: the pickle cache over process lives, the per-file memo."""
import os

import simcore
from sim_main import Scenario, register
from simcore import violate

from py_scriptutils import files


class Boom(Exception):
    pass


@register
class CachePickle(Scenario):
    name = "cache-pickle"
    real = ["scripts/py_scriptutils/files.py (pickle_or_new)"]
    stub = ["file layer with faults and simulated modification times", "clock", "result builder",
            "other editors of the inputs"]
    menu = [("point", ["kill", "kill", "interrupt", "actor#"], 8),
            ("open", ["EACCES", "EIO", "ENOSPC", "EMFILE"], 1),
            ("write", ["ENOSPC", "EIO", "short", "torn-kill"], 3), ("close", ["EIO", "EDQUOT"], 1),
            ("rename", ["EIO", "EACCES", "ENOSPC"], 1), ("unlink", ["EACCES", "EIO"], 1),
            ("utime", ["EPERM", "EIO"], 1), ("stat", ["EIO", "EACCES"], 1), ("read", ["EIO", "short"], 1),
            ("body", ["error", "interrupt"], 1)]
    variants = 16
    max_faults = 3

    def workload(self, rng):
        ops = []
        for i in range(rng.randint(2, 8)):
            r = rng.random()
            if r < 0.65:
                ops.append(dict(id=i, op="call", file=rng.randrange(2)))
            elif r < 0.93:
                ops.append(dict(id=i, op="edit", file=rng.randrange(2)))
            else:
                ops.append(dict(id=i, op="drop", file=rng.randrange(2)))
        for o in ops:
            o["gap"] = rng.choice([2_000_000, 100_000_000, 1_000_000_000])
        ops += [dict(id=90, op="call", file=0), dict(id=91, op="call", file=0)]
        return dict(params=dict(size=rng.choice([0, 3, 500, 3000, 9000]), dir=rng.choice(["", "cache/"]),
                                link=rng.random() < 0.2), ops=ops)

    def run(self, R):
        P = R.plan["params"]
        version = [0]
        contents = {}

        def edit(k):
            version[0] += 1
            R.tick(5_000_000)
            text = "version %d of %d\n" % (version[0], k) * (1 + version[0] % 3)
            simcore.put("in%d" % k, text)
            R.event("edit", k, text)
            R.tick(5_000_000)
            return text

        for k in (0, 1):
            if P.get("link"):
                simcore.put("real%d" % k, "")
                simcore.link("in%d" % k, "real%d" % k)
            contents[k] = edit(k)
        os.makedirs(os.path.join(R.root, "cache"), exist_ok=True)

        def build(path):
            R.event("build")
            R.tick()
            R.point("body")
            with simcore.unarmed():
                text = simcore.get(path).decode()
            R.tick()
            R.point("body")
            if kind := R.fault("body"):
                raise Boom() if kind == "error" else KeyboardInterrupt()
            value = dict(text=text, data=["%s-%d" % (text[:9], i) for i in range(P["size"])])
            R.tick()
            R.point("body")
            return value

        for op in R.plan["ops"]:
            R.op = op["id"]
            R.tick(op.get("gap", 1_000_000_000))
            R.events = []
            k = op["file"]
            cache = os.path.join(R.root, P["dir"] + "c%d.pickle" % k)
            if op["op"] == "edit":
                contents[k] = edit(k)
            elif op["op"] == "drop":
                if os.path.exists(cache):
                    os.unlink(cache)
            if op["op"] != "call":
                R.h("op", op["id"], op["op"], k)
                continue
            src = os.path.join(R.root, "in%d" % k)
            R.actor = lambda n: edit(k)
            fired = len(R.fired_log)
            status, val = R.life(lambda: files.pickle_or_new(src, cache, build))
            R.actor = None
            allowed = [contents[k]]
            for e in R.events:
                if e[0] == "edit":
                    contents[e[1]] = e[2]
                    allowed.append(e[2])
            built = any(e[0] == "build" for e in R.events)
            R.h("op", op["id"], "call", k, status, val if status == "error" else "", "built" if built else "cached")
            R.probe("built" if built else "served")
            if status == "error" and len(R.fired_log) == fired:
                violate("call-failed", "the call fails on what an earlier call left: %s" % val)
            if status != "ok":
                R.probe("call-" + status)
                continue
            if val["text"] not in allowed:
                violate("stale-result", "got the result for %r, the file holds %r" % (
                    val["text"][:20], allowed[-1][:20]))
            if val["data"] != ["%s-%d" % (val["text"][:9], i) for i in range(P["size"])]:
                violate("wrong-result", "the cached result is damaged")


@register
class CacheMemo(Scenario):
    name = "cache-memo"
    real = ["scripts/py_scriptutils/files.py (cache_file_processing_result)"]
    stub = ["file layer with simulated modification times", "cached functions", "other editors of the files"]
    menu = [("point", ["actor#", "interrupt"], 5), ("stat", ["EIO", "EACCES"], 1), ("body", ["error"], 1)]
    variants = 8
    max_faults = 2

    def workload(self, rng):
        ops = []
        for i in range(rng.randint(4, 14)):
            calls = [o for o in ops if o["op"] == "call"]
            if calls and rng.random() < 0.35:
                ops.append(dict(calls[-1], id=i))
            elif rng.random() < 0.7:
                ops.append(dict(id=i, op="call", fn=rng.choice(["one", "one", "two", "opt"]), a=rng.randrange(3),
                                b=rng.randrange(3), x=rng.randrange(2), how=rng.choice(["pos", "kw", "mix"]),
                                path=rng.random() < 0.5))
            else:
                ops.append(dict(id=i, op="edit", file=rng.randrange(3), same=rng.choice([None, None, 0, 1, 2])))
        for o in ops:
            o["gap"] = rng.choice([2_000_000, 100_000_000, 1_000_000_000])
        return dict(params=dict(shared=rng.random() < 0.4, equal=rng.random() < 0.5,
                                link=rng.random() < 0.2), ops=ops)

    def run(self, R):
        from pathlib import Path
        P = R.plan["params"]
        version = [0]
        stamps = set()

        def edit(k, same=None):
            version[0] += 1
            R.tick(5_000_000)
            path = simcore.put("f%d" % k, "version %d of %d" % (version[0], k))
            if same is not None and same != k:
                # e.g. unpacked from an archive: the time of another file, never used by this one
                st = simcore._real["stat"](os.path.join(R.root, "f%d" % same)).st_mtime_ns
                if (k, st) not in stamps:
                    simcore._real["utime"](path, ns=(st, st))
            stamps.add((k, simcore._real["stat"](path).st_mtime_ns))
            R.tick(5_000_000)

        def read(p):
            with simcore.unarmed():
                return simcore.get(str(p)).decode()

        calls = [0]
        for k in range(3):
            if P.get("link"):
                simcore.put("real%d" % k, "")
                simcore.link("f%d" % k, "real%d" % k)
            edit(k, 0 if P["equal"] else None)

        def work(*parts):
            calls[0] += 1
            R.point("body")
            r = [read(p) if "f" in str(p) else p for p in parts]
            R.point("body")
            if R.fault("body"):
                raise Boom()
            return r

        deco = files.cache_file_processing_result(["path"])
        deco2 = deco if P["shared"] else files.cache_file_processing_result(["path"])

        def one(path, x):
            return ["one"] + work(str(path), x)

        def two(path, other, x):
            return ["two"] + work(str(path), str(other), x)

        def opt(path, x=0, *, y=0):
            return ["opt"] + work(str(path), x, y)

        plain = dict(one=one, two=two, opt=opt)
        cached = dict(one=deco(one), two=files.cache_file_processing_result(["path", "other"])(two), opt=deco2(opt))

        for op in R.plan["ops"]:
            R.op = op["id"]
            R.tick(op.get("gap", 1_000_000_000))
            if op["op"] == "edit":
                edit(op["file"], op["same"])
                R.h("edit", op["file"], op["same"])
                continue
            mk = Path if op["path"] else str
            pa = mk(os.path.join(R.root, "f%d" % op["a"]))
            pb = mk(os.path.join(R.root, "f%d" % op["b"]))
            args, kw = [], {}
            if op["fn"] == "two":
                vals = [("path", pa), ("other", pb), ("x", op["x"])]
            else:
                vals = [("path", pa), ("x", op["x"])]
            if op["fn"] == "opt":
                kw["y"] = op["b"] % 2
            for n, v in vals:
                if op["how"] == "pos" or (op["how"] == "mix" and n == "path"):
                    args.append(v)
                else:
                    kw[n] = v
            allowed = []
            quiet = []

            def recompute():
                old, R.armed = R.armed, 0
                faults, R.faultmap = R.faultmap, {}
                counts = dict(R.counts)
                n = calls[0]
                allowed.append(plain[op["fn"]](*args, **kw))
                calls[0] = n
                R.counts = counts
                R.faultmap, R.armed = faults, old

            def actor(k):
                edit(k % 3)
                recompute()

            recompute()
            R.actor = actor
            fired = len(R.fired_log)
            before = calls[0]
            R.armed = 1
            import sys
            sys.settrace(simcore._tracer)
            err = None
            try:
                val = cached[op["fn"]](*args, **kw)
            except (simcore.Violation, simcore.HarnessError):
                raise
            except BaseException as e:
                err = e
            finally:
                sys.settrace(None)
                R.armed = 0
            R.actor = None
            R.h("call", op["fn"], op["a"], op["b"], op["x"], "computed" if calls[0] > before else "cached",
                type(err).__name__ if err else val)
            R.probe("computed" if calls[0] > before else "served")
            if err is not None:
                if len(R.fired_log) == fired:
                    violate("call-failed", "the call fails: %s" % simcore.describe_error(err))
                continue
            if val not in allowed:
                violate("stale-result", "got %s, recomputing gives %s" % (val, allowed[-1]))
