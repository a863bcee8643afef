#!/usr/bin/env python3
"""Run one property check: build from /repo, search, gate, report.

  checks/run.py C01              run the check (VERIF_SEED, VERIF_TIER)
  checks/run.py --replay FILE    re-execute a replay file exactly
"""
import json
import os
import pathlib
import shutil
import subprocess
import sys
import time

VERIF = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(VERIF / "tools"))
sys.path.insert(0, str(VERIF / "checks"))
import build  # noqa: E402
from config import CHECKS  # noqa: E402

JOBS = max(1, min(8, os.cpu_count() or 1))
FINDINGS = VERIF / "known_findings.txt"


def known_for(prop):
    out = {}
    if FINDINGS.exists():
        for line in FINDINGS.read_text().splitlines():
            # known: property=C05 class=<violation class> <what fails>
            if line.startswith("known: "):
                parts = line.split(" ", 3)
                if parts[1] == "property=" + prop and parts[2].startswith("class="):
                    out[parts[2][len("class="):]] = parts[3]
    return out


def command(job):
    if job["kind"] == "cpp":
        return [str(build.build_target(job["target"]))]
    # the interpreter that has beartype; everything else missing is replaced by stand-ins
    return [shutil.which("python3-vt") or sys.executable, "-B", str(VERIF / "py" / "sim_main.py")]


def run_shards(cmd, job, seed, workloads, seconds, known, rundir):
    procs = []
    # stable per-check memory of the search lives in rundir only
    for i in range(JOBS):
        out = rundir / ("%s.%d.json" % (job["scenario"], i))
        rep = rundir / ("%s.%d.replay.json" % (job["scenario"], i))
        for p in (out, rep):
            if p.exists():
                p.unlink()
        argv = cmd + ["--scenario", job["scenario"], "--seed", str(seed), "--shard", str(i),
                      "--shards", str(JOBS), "--workloads", str(workloads), "--seconds",
                      str(seconds), "--known", "\n".join(known), "--out", str(out),
                      "--replay-out", str(rep)]
        err = open(rundir / ("%s.%d.err" % (job["scenario"], i)), "wb")
        procs.append((subprocess.Popen(argv, stdin=subprocess.DEVNULL, stdout=err, stderr=err,
                                       cwd=str(rundir)), out, rep, err))
    res = []
    deadline = time.time() + seconds * 1.5 + 240
    for i, (p, out, rep, err) in enumerate(procs):
        try:
            rc = p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = -9
        err.close()
        if rc not in (0, 1) or not out.exists():
            sys.stderr.write("shard %d of %s ended with %s\n%s\n" % (
                i, job["scenario"], rc,
                pathlib.Path(err.name).read_text(errors="replace")[-6000:]))
            for q, *_ in procs:
                q.kill()
            sys.exit(3)
        res.append(json.loads(out.read_text()))
    return res


def gate(cmd, scenario, v):
    """The violation must come back, identically, in a fresh process."""
    p = subprocess.run(cmd + ["--scenario", scenario, "--replay", v["replay"]],
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, timeout=600)
    try:
        j = json.loads(p.stdout.decode(errors="replace").strip().splitlines()[-1])
    except Exception:
        return "replay printed no result (exit %s)" % p.returncode
    if not j["violated"] or j["class"] != v["class"] or j["hash"] != v["hash"]:
        return "replay differs: %s" % json.dumps(j)[:600]
    return None


def symbolise(job, cmd, path):
    if job["kind"] != "cpp":
        return
    f = json.loads(path.read_text())
    names = []
    for pc in f.get("preempt_pcs", []):
        if not pc:
            names.append("step")
            continue
        try:
            o = subprocess.run(["addr2line", "-C", "-f", "-e", cmd[0], hex(pc)],
                               stdout=subprocess.PIPE, timeout=60).stdout.decode().split("\n")
            names.append(o[0][:160] + " at " + o[1])
        except Exception:
            names.append(hex(pc))
    if names:
        f["preempt_locations"] = names
        path.write_text(json.dumps(f, indent=1))


def add(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v


def main():
    if sys.argv[1] == "--replay":
        path = os.path.abspath(sys.argv[2])
        f = json.load(open(path))
        for c in CHECKS.values():
            for job in c["jobs"]:
                if job["scenario"] == f["scenario"]:
                    sys.exit(subprocess.call(command(job) + ["--scenario", f["scenario"],
                                                             "--replay", path, "--pretty", "1"]))
        sys.exit(3)
    prop = sys.argv[1]
    cfg = CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    (VERIF / "evidence").mkdir(exist_ok=True)
    rundir = VERIF / "build" / "runs" / ("%s-%d" % (prop, os.getpid()))
    rundir.mkdir(parents=True, exist_ok=True)
    known = known_for(prop)
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": cfg["rule"], "samples": []}
    tot = {"fired": {}, "probes": {}, "scenarios": [], "sim_s": 0.0}
    schedules = 0
    rechecks = discards = 0
    hits = {}
    viol = None
    build_s = search_s = 0.0
    real, stub = [], []
    for job in cfg["jobs"]:
        tb = time.time()
        try:
            cmd = command(job)
        except build.BuildError as e:
            sys.stderr.write("build failed: %s\n" % e)
            sys.exit(3)
        build_s += time.time() - tb
        ts = time.time()
        seconds = job.get("seconds", 150) if tier == "quick" else job.get("seconds_thorough", 1500)
        res = run_shards(cmd, job, seed, job["quick" if tier == "quick" else "thorough"],
                         seconds, sorted(known), rundir)
        search_s += time.time() - ts
        hashes, scheds, guards, states = set(), set(), set(), set()
        sc = {"scenario": job["scenario"], "runs": 0, "workloads": 0, "steps": 0, "switches": 0,
              "sim_ns": 0, "nontrivial_runs": 0, "fired": {}, "probes": {}, "guards_total": 0,
              "out_of_time": False}
        for r in res:
            for k in ("runs", "workloads", "steps", "switches", "sim_ns"):
                sc[k] += r.get(k, 0)
            sc["nontrivial_runs"] += r["nontrivial"]
            add(sc["fired"], r["fired"])
            add(sc["probes"], r["probes"])
            sc["guards_total"] = max(sc["guards_total"], r.get("guards_total", 0))
            sc["out_of_time"] |= r.get("out_of_time", False)
            hashes.update(r["hashes"])
            scheds.update(r["schedules"])
            guards.update(r.get("guards", []))
            rechecks += r["rechecks"]
            discards += r["discards"]
            add(hits, r["known_hits"])
            if len(cov["samples"]) < 6:
                cov["samples"] += r["samples"][:1]
            for x in r["real"]:
                if x not in real:
                    real.append(x)
            for x in r["stub"]:
                if x not in stub:
                    stub.append(x)
        sc["distinct_histories"] = len(hashes)
        sc["distinct_schedules"] = len(scheds)
        sc["code_locations_reached"] = len(guards)
        schedules += len(scheds)
        cov["evaluations"] += sc["runs"]
        cov["distinct_nontrivial"] += len(hashes)
        add(tot["fired"], sc["fired"])
        add(tot["probes"], sc["probes"])
        tot["sim_s"] += sc["sim_ns"] / 1e9
        tot["scenarios"].append(sc)
        for i, r in enumerate(res):
            if r["violation"]:
                viol = (job, cmd, r["violation"])
                break
        if viol:
            break
    wall = time.time() - t0
    cov.update({
        "faults_injected": tot["fired"],
        "reach_probes": tot["probes"],
        "simulated_seconds": round(tot["sim_s"], 6),
        "runs_per_hour": int(cov["evaluations"] / max(search_s, 1e-3) * 3600),
        "seeds_per_hour": int(sum(s["workloads"] for s in tot["scenarios"]) / max(search_s, 1e-3) * 3600),
        "distinct_schedules_and_fault_placements": schedules,
        "determinism_reruns": rechecks,
        "discarded_runs": discards,
        "per_scenario": tot["scenarios"],
        "components_real": real,
        "components_simulated": stub,
        "known_finding_hits": hits,
        "build_s": round(build_s, 2),
        "search_s": round(search_s, 2),
    })
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
          "level": cfg["level"], "coverage": cov, "assumptions": cfg.get("assumptions", []),
          "wall_s": round(wall, 3), "violations": 1 if viol else 0}
    (VERIF / "evidence" / (prop + ".json")).write_text(json.dumps(ev, indent=1))
    for cls in sorted(hits):
        print("KNOWN-FINDING: property=%s %s" % (prop, known.get(cls, cls)))
    rc = 0
    if viol:
        job, cmd, v = viol
        (VERIF / "replays").mkdir(exist_ok=True)
        dst = VERIF / "replays" / ("%s-%s-seed%d.json" % (prop, job["scenario"], seed))
        dst.write_text(pathlib.Path(v["replay"]).read_text())
        v = dict(v, replay=str(dst))
        bad = gate(cmd, job["scenario"], v)
        if bad:
            sys.stderr.write("violation did not survive the gate: %s\n%s\n" % (bad, v["msg"]))
            sys.exit(3)
        symbolise(job, cmd, dst)
        print("%s: %s" % (v["class"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, dst))
        rc = 1
    for p in rundir.iterdir():
        p.unlink()
    rundir.rmdir()
    if rc == 0:
        print("%s held: %d runs, %d distinct non-trivial histories, %.1fs build, %.1fs search" % (
            prop, cov["evaluations"], cov["distinct_nontrivial"], build_s, search_s))
    sys.exit(rc)


if __name__ == "__main__":
    main()
