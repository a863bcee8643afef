"""Seeded search over plans of the Python scenarios; same interface as the C++ driver."""
import os
import sys

if os.environ.get("PYTHONHASHSEED") is None:
    # any fixed value will do: results must not depend on it
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)

import collections
import copy
import gc
import json
import logging
import pathlib
import pickle
import random
import shutil
import signal
import tempfile
import traceback

HERE = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
sys.dont_write_bytecode = True

import simcore  # noqa: E402
import stubs  # noqa: E402

rmtree = shutil.rmtree
T = simcore._real["monotonic"]
WALL_LIMIT = 30

SCENARIOS = {}


class Scenario:
    name = ""
    real = []
    stub = []
    menu = []          # (site, kinds, weight)
    variants = 12      # faulted runs per workload
    max_faults = 2
    threads = False

    def workload(self, rng):
        raise NotImplementedError

    def run(self, R):
        raise NotImplementedError

    def nontrivial(self, res):
        return bool(res["fired_log"])


def register(cls):
    SCENARIOS[cls.name] = cls()
    return cls


class Driver:
    def __init__(self, sc, scratch):
        self.sc = sc
        self.scratch = scratch
        self.n = 0

    def execute(self, plan):
        """One run in a forked child; returns its result dict."""
        for attempt in range(2):
            res = self._execute(plan)
            if res.get("class") != "wall-limit":
                return res
        return res

    def _execute(self, plan):
        self.n += 1
        root = os.path.join(self.scratch, "root")  # same name always: paths end up in data
        if os.path.exists(root):
            rmtree(root)
        os.mkdir(root)
        r, w = simcore._real["pipe"]()
        pid = simcore._real["fork"]()
        if pid == 0:
            code = 0
            try:
                simcore._real["os_close"](r)
                signal.alarm(WALL_LIMIT)
                run = simcore.Run(plan, root)
                simcore.R = run
                random.seed(12345)
                viol = None
                os.chdir(root)
                prof = None
                if os.environ.get("SIM_PROFILE"):
                    import cProfile
                    prof = cProfile.Profile()
                    prof.enable()
                try:
                    self.sc.run(run)
                except simcore.Violation as v:
                    viol = v
                if prof:
                    prof.disable()
                    prof.dump_stats(os.environ["SIM_PROFILE"])
                run.armed = 0
                run.flush_points()
                out = dict(
                    violated=viol is not None,
                    msg=viol.msg if viol else "", hist=run.hist,
                    probes=dict(run.probes), fired=dict(run.fired), fired_log=run.fired_log,
                    counts=run.counts, switches=run.switches, steps=run.steps + sum(n for (o, s), n in run.counts.items() if s == "point"),
                    sim_ns=run.mono_ns - run.start_ns)
                out["class"] = viol.cls if viol else ""
                out["hash"] = "%016x" % simcore.digest([run.hist, out["class"], out["msg"]])
                out["schedule"] = "%016x" % simcore.digest(run.fired_log)
                simcore._send(w, out)
            except BaseException:
                traceback.print_exc()
                code = simcore.HARNESS_FAILED
            finally:
                sys.stderr.flush()
                simcore._real["_exit"](code)
        simcore._real["os_close"](w)
        data = simcore._recv(r)
        simcore._real["os_close"](r)
        _, st = os.waitpid(pid, 0)
        if os.WIFSIGNALED(st):
            sig = os.WTERMSIG(st)
            cls = "wall-limit" if sig == signal.SIGALRM else "crash"
            return dict(violated=True, msg="run ended by signal %d" % sig, hist=[], probes={}, fired={},
                        fired_log=[], counts={}, switches=0, steps=0, sim_ns=0, hash=cls,
                        schedule=cls, **{"class": cls})
        if data is None or os.WEXITSTATUS(st) != 0:
            raise RuntimeError("run failed in the harness (plan %s)" % json.dumps(plan)[:3000])
        return pickle.loads(data)

    # ---- variations ----
    def vary(self, plan, base, rng):
        p = copy.deepcopy(plan)
        sites = []
        for site, kinds, weight in self.sc.menu:
            ops = [(op, n) for (op, s), n in sorted(base["counts"].items(), key=str) if s == site and n]
            if ops:
                sites.append((site, kinds, weight, ops))
        if not sites:
            return None
        faults = []
        k = 1 if rng.random() < 0.5 else rng.randint(1, self.sc.max_faults)
        for _ in range(k):
            site, kinds, _, ops = rng.choices(sites, [s[2] for s in sites])[0]
            if rng.random() < 0.5:
                op, n = ops[rng.randrange(len(ops))]
            else:
                op, n = rng.choices(ops, [o[1] for o in ops])[0]
            kind = rng.choice(kinds)
            if kind.endswith("#"):
                kind += str(rng.randrange(8))
            lim = max(1, n)
            faults.append(dict(op=op, site=site, n=rng.randrange(lim), kind=kind))
        p["faults"] = faults
        return p

    def minimise(self, plan, cls, budget=400):
        best = plan

        def fails(p):
            nonlocal budget
            if budget <= 0:
                return False
            budget -= 1
            r = self.execute(p)
            return r["violated"] and r["class"] == cls

        changed = True
        while changed and budget > 0:
            changed = False
            for key in ("faults", "ops"):
                size = max(1, len(best.get(key, [])) // 2)
                while size >= 1:
                    i = 0
                    while i < len(best.get(key, [])):
                        p = copy.deepcopy(best)
                        del p[key][i:i + size]
                        if fails(p):
                            best = p
                            changed = True
                        else:
                            i += size
                    size //= 2
            if self.sc.threads and "threads" in best:
                for t in range(len(best["threads"])):
                    i = 0
                    while i < len(best["threads"][t]):
                        p = copy.deepcopy(best)
                        del p["threads"][t][i]
                        if fails(p):
                            best = p
                            changed = True
                        else:
                            i += 1
        return best


def search(a, sc, scratch):
    d = Driver(sc, scratch)
    known = set(x for x in a["known"].split("\n") if x)
    out = dict(runs=0, workloads=0, nontrivial=0, steps=0, switches=0, sim_ns=0, discards=0, rechecks=0,
               mismatches=0, infra=0, out_of_time=False, samples=[], violation=None, real=sc.real,
               stub=sc.stub, guards=[])
    fired, probes, hits = collections.Counter(), collections.Counter(), collections.Counter()
    hashes, scheds = set(), set()
    t0 = T()

    def note(res):
        out["runs"] += 1
        for k in ("steps", "switches", "sim_ns"):
            out[k] += res[k]
        fired.update(res["fired"])
        probes.update(res["probes"])
        if sc.nontrivial(res):
            out["nontrivial"] += 1
            hashes.add(res["hash"])
            scheds.add(res["schedule"])

    stop = False
    for w in range(a["shard"], a["workloads"], a["shards"]):
        if stop:
            break
        if T() - t0 > a["seconds"]:
            out["out_of_time"] = True
            break
        rng = random.Random("%d/%s/%d" % (a["seed"], sc.name, w))
        plan = sc.workload(rng)
        plan["scenario"] = sc.name
        plan["seed"] = w
        plan.setdefault("faults", [])
        out["workloads"] += 1
        base = None
        for v in range(sc.variants + 1):
            if v == 0:
                p = plan
            else:
                p = d.vary(plan, base, rng)
                if p is None:
                    break
            res = d.execute(p)
            if base is None:
                base = res
            note(res)
            if len(out["samples"]) < 2 and v > 0:
                out["samples"].append(dict(plan=p, history=res["hist"][:40]))
            if (out["runs"] % 97) == 0:
                again = d.execute(p)
                out["rechecks"] += 1
                if again["hash"] != res["hash"]:
                    out["mismatches"] += 1
                    sys.stderr.write("not deterministic: %s\n%s\n%s\n" % (
                        json.dumps(p), "\n".join(res["hist"]), "\n".join(again["hist"])))
                    return out, 3
            if res["violated"]:
                if res["class"] in known:
                    hits[res["class"]] += 1
                    continue
                again = d.execute(p)
                if again["hash"] != res["hash"]:
                    sys.stderr.write("violation is not deterministic: %s\n%s\n---\n%s\n%s\n" % (
                        res["msg"], "\n".join(res["hist"]), again["msg"], "\n".join(again["hist"])))
                    return out, 3
                small = d.minimise(p, res["class"])
                res = d.execute(small)
                small["expect"] = dict(hash=res["hash"], msg=res["msg"], history=res["hist"])
                small["expect"]["class"] = res["class"]
                with simcore._real["open"](a["replay_out"], "w") as f:
                    json.dump(small, f, indent=1)
                out["violation"] = {"class": res["class"], "msg": res["msg"], "hash": res["hash"],
                                    "replay": a["replay_out"]}
                stop = True
                break
    out.update(fired=dict(fired), probes=dict(probes), known_hits=dict(hits), hashes=sorted(hashes),
               schedules=sorted(scheds), wall_s=T() - t0)
    return out, 1 if out["violation"] else 0


def main():
    argv = sys.argv[1:]
    opts = {argv[i][2:].replace("-", "_"): argv[i + 1] for i in range(0, len(argv) - 1, 2)}
    real_open = simcore._real["open"]
    scratch = tempfile.mkdtemp(prefix="pysim-", dir=os.environ.get("TMPDIR", "/tmp"))
    code = 3
    try:
        tempfile.tempdir = os.path.join(scratch, "import")
        os.mkdir(tempfile.tempdir)
        os.mkdir(os.path.join(scratch, "home"))
        os.environ["HOME"] = os.path.join(scratch, "home")
        sys._called_from_test = True
        logging.disable(logging.CRITICAL)
        stubs.install()
        sys.path[:0] = [simcore.CODE_ROOT + d for d in ("py_scriptutils", "py_repository", "py_ci", "py_cli")]
        simcore.install()
        sys.modules["sim_main"] = sys.modules["__main__"]
        if "replay" in opts:
            with real_open(opts["replay"]) as f:
                plan = json.load(f)
            name = plan["scenario"]
        else:
            name = opts["scenario"]
        import sc_all  # noqa: F401
        sc_all.load(name)
        sc = SCENARIOS[name]
        gc.collect()
        gc.freeze()
        gc.disable()
        if "replay" in opts:
            res = Driver(sc, scratch).execute(plan)
            if opts.get("pretty"):
                for line in res["hist"]:
                    print(line)
                if res["violated"]:
                    print("%s: %s" % (res["class"], res["msg"]))
            print(json.dumps({"violated": res["violated"], "class": res["class"], "msg": res["msg"],
                              "hash": res["hash"], "hist": res["hist"][-50:]}))
            code = 1 if res["violated"] else 0
        else:
            a = dict(seed=int(opts["seed"]), shard=int(opts.get("shard", 0)),
                     shards=int(opts.get("shards", 1)), workloads=int(opts["workloads"]),
                     seconds=float(opts.get("seconds", 100)), known=opts.get("known", ""),
                     replay_out=opts["replay_out"])
            out, code = search(a, sc, scratch)
            with real_open(opts["out"], "w") as f:
                json.dump(out, f)
    except BaseException:
        traceback.print_exc()
        code = 3
    finally:
        simcore.R = None
        rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


if __name__ == "__main__":
    main()
