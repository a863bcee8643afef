#!/usr/bin/env python3
"""Content-hash build of /repo sources plus simulator sources.

Everything is taken from the current working tree of the repository; objects
are cached by the content of the source, its headers and the flags, so a stale
object can never be used.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import pathlib
import re
import subprocess
import sys
import time

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
BUILD = pathlib.Path(os.environ.get("VERIF_BUILD", str(VERIF / "build")))
CXX = "clang++-18"
CACHE_VERSION = "7"

DEFS = [
    "-DORG_BUILD_EMCC=0", "-DORG_USE_CONAN_INSTALL=0", "-DORG_BUILD_WITH_PROTOBUF=0",
    "-DORG_BUILD_WITH_KIWI=0", "-DORG_BUILD_WITH_ELK=0", "-DORG_BUILD_WITH_ADAPTAGRAMS=0",
    "-DORG_BUILD_WITH_CGRAPH=0", "-DBOOST_LOG_DYN_LINK",
]


def common_flags():
    return [
        "-std=gnu++23", "-O1", "-g1", "-fno-omit-frame-pointer", "-ffunction-sections",
        "-Wno-everything", "-fmacro-prefix-map=%s/=/r/" % REPO,
        "-ffile-prefix-map=%s/=/r/" % REPO,
        "-I%s" % (VERIF / "shim"), "-I%s" % (BUILD / "genshim"),
        "-I%s/src" % REPO, "-I%s" % REPO, "-I%s" % (VERIF / "sim"),
        "-include", "algorithm", "-include", "format",
    ] + DEFS


SANCOV = ["-fsanitize-coverage=trace-pc-guard,pc-table"]

LD = ["--ld-path=/usr/bin/ld.lld-18"] if os.path.exists("/usr/bin/ld.lld-18") else []
LIBS = [
    "-lfmt", "-lboost_log", "-lboost_log_setup", "-lboost_thread", "-lboost_filesystem",
    "-lboost_system", "-lyaml-cpp", "-lcctz", "-lpthread", "-ldl",
]


def sha(data):
    return hashlib.sha256(data).hexdigest()


_file_hash_cache = {}


def file_hash(path):
    if path in _file_hash_cache:
        return _file_hash_cache[path]
    try:
        with open(path, "rb") as f:
            h = sha(f.read())
    except OSError:
        h = "missing"
    _file_hash_cache[path] = h
    return h


class BuildError(Exception):
    pass


def gen_shims():
    """Patched copies of three system headers the repository expects newer versions of."""
    out = BUILD / "genshim"
    (out / "fmt").mkdir(parents=True, exist_ok=True)
    (out / "bits").mkdir(parents=True, exist_ok=True)

    def put(path, text):
        if not path.exists() or path.read_text() != text:
            path.write_text(text)

    sysfmt = pathlib.Path("/usr/include/fmt")
    for h in sysfmt.glob("*.h"):
        text = h.read_text()
        if h.name == "core.h":
            needle = "FMT_INLINE operator basic_string_view<Char>() const { return str_; }"
            if needle not in text:
                raise BuildError("fmt/core.h does not look as expected")
            text = text.replace(
                needle, needle +
                "\n  FMT_INLINE basic_string_view<Char> get() const { return str_; }")
        put(out / "fmt" / h.name, text)
    pair = pathlib.Path("/usr/include/c++/13/bits/stl_pair.h").read_text()
    m = re.search(
        r"template<typename _T1, typename _T2>\n(\s+)(\[\[nodiscard\]\]\s+)?(inline )?(_GLIBCXX_CONSTEXPR|constexpr) bool\n\s+operator==\(const pair<_T1, _T2>& __x, const pair<_T1, _T2>& __y\)",
        pair)
    if not m:
        raise BuildError("bits/stl_pair.h does not look as expected")
    seg = m.group(0)
    new = seg.replace("typename _T1, typename _T2>",
                      "typename _T1, typename _T2, typename _U1, typename _U2>").replace(
                          "const pair<_T1, _T2>& __y", "const pair<_U1, _U2>& __y")
    put(out / "bits" / "stl_pair.h", pair.replace(seg, new, 1))


def parse_deps(text):
    text = text.replace("\\\n", " ")
    _, _, rest = text.partition(":")
    return [d for d in rest.split() if d]


_compiler_id = None


def compiler_id():
    global _compiler_id
    if _compiler_id is None:
        _compiler_id = subprocess.run([CXX, "--version"], capture_output=True,
                                      text=True).stdout
    return _compiler_id


def compile_one(src, flags):
    """Returns the object path; raises BuildError with the compiler output."""
    src = str(src)
    try:
        rel = str(pathlib.Path(src).relative_to(REPO))
    except ValueError:
        rel = str(pathlib.Path(src).relative_to(VERIF))
    norm = [f.replace(str(REPO), "<REPO>").replace(str(VERIF), "<VERIF>") for f in flags]
    ident = sha(json.dumps([CACHE_VERSION, rel, norm, compiler_id()]).encode())[:24]
    d = BUILD / "cache" / ident
    d.mkdir(parents=True, exist_ok=True)

    def key(deps):
        h = hashlib.sha256()
        for dep in deps:
            h.update(dep.encode())
            p = dep.replace("<REPO>", str(REPO)).replace("<VERIF>", str(VERIF)).replace(
                "<BUILD>", str(BUILD))
            h.update(file_hash(p).encode())
        return h.hexdigest()[:32]

    for dl in sorted(d.glob("*.deps")):
        deps = json.loads(dl.read_text())
        k = key(deps)
        obj = d / (k + ".o")
        if obj.exists():
            os.utime(obj)
            return obj
    tmp = d / ("tmp%d.o" % os.getpid())
    dep = d / ("tmp%d.d" % os.getpid())
    r = subprocess.run([CXX, *flags, "-MD", "-MF", str(dep), "-c", src, "-o", str(tmp)],
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("compilation of %s failed:\n%s" % (src, (r.stderr or r.stdout)[-6000:]))
    deps = []
    for p in parse_deps(dep.read_text()):
        p = os.path.normpath(p)
        if p.startswith("/usr/"):
            continue
        p = p.replace(str(BUILD) + "/", "<BUILD>/").replace(str(REPO) + "/", "<REPO>/").replace(
            str(VERIF) + "/", "<VERIF>/")
        deps.append(p)
    deps = sorted(set(deps))
    k = key(deps)
    obj = d / (k + ".o")
    os.replace(tmp, obj)
    dl = d / (sha(json.dumps(deps).encode())[:16] + ".deps")
    dl.write_text(json.dumps(deps))
    try:
        dep.unlink()
    except OSError:
        pass
    # keep the cache bounded: at most 6 variants of one object
    objs = sorted(d.glob("*.o"), key=lambda p: p.stat().st_mtime)
    for old in objs[:-6]:
        try:
            old.unlink()
        except OSError:
            pass
    return obj


def compile_many(items, tolerant=(), jobs=None):
    """items: [(src, flags)] -> ({src: obj}, errors); sources in tolerant may fail: they are
    archive members, and if one of them is really needed the link fails."""
    jobs = jobs or os.cpu_count() or 4
    out, errors = {}, []
    # slow ones first
    items = sorted(items, key=lambda it: ("/imm/" not in str(it[0]), -os.path.getsize(it[0])))
    with cf.ThreadPoolExecutor(jobs) as ex:
        futs = {ex.submit(compile_one, s, f): s for s, f in items}
        for fut in cf.as_completed(futs):
            s = futs[fut]
            try:
                out[str(s)] = fut.result()
            except BuildError as e:
                errors.append((str(s), str(e)))
    fatal = [e for s, e in errors if s not in tolerant]
    if fatal:
        raise BuildError("\n".join(fatal[:3]))
    return out, [e for _, e in errors]


def glob_sources(root, exclude=()):
    out = []
    for p in sorted((REPO / root).rglob("*.cpp")):
        rel = str(p.relative_to(REPO))
        if any(re.search(e, rel) for e in exclude):
            continue
        out.append(p)
    return out


HSTD_EXCLUDE = [r"graph/visual", r"perfetto", r"/geometry/", r"/test/", r"adaptagrams", r"elk", r"graphviz"]
HAX_EXCLUDE = [r"/test/", r"ImmOrgGraph\.cpp", r"Qt", r"proto"]


def hstd_sources():
    return glob_sources("src/hstd", HSTD_EXCLUDE)


def haxorg_sources():
    return glob_sources("src/haxorg", HAX_EXCLUDE)


def haxorg_flags(src, flags):
    """These sources are slow to compile."""
    flags = [f for f in flags if f != "-g1"]
    if "/imm/" in str(src) or "EvalContext" in str(src):
        flags = ["-O0" if f == "-O1" else f for f in flags]
    return flags


def make_archive(name, objs):
    objs = [str(o) for o in objs]
    k = sha("\n".join(sorted(objs)).encode())[:24]
    d = BUILD / "lib"
    d.mkdir(parents=True, exist_ok=True)
    a = d / ("%s-%s.a" % (name, k))
    if not a.exists():
        tmp = d / ("tmp-%s-%d.a" % (name, os.getpid()))
        if tmp.exists():
            tmp.unlink()
        subprocess.run(["ar", "qcT", str(tmp), *objs], check=True)
        os.replace(tmp, a)
        for old in sorted(d.glob(name + "-*.a"), key=lambda p: p.stat().st_mtime)[:-4]:
            old.unlink()
    return a


# target -> (scenario sources, libs, extra repo sources)
TARGETS = {
    "s_logger": dict(src=["sim/s_logger.cpp"], libs=["hstd"]),
    "s_files": dict(src=["sim/s_files.cpp", "sim/s_tracer.cpp"], libs=["hstd"]),
    "s_containers": dict(src=["sim/s_containers.cpp"], libs=["hstd"]),
    "s_doc": dict(src=["sim/s_doc.cpp", "sim/s_imm.cpp", "sim/s_eval.cpp"], libs=["haxorg"]),
    "s_viewer": dict(src=["sim/s_viewer.cpp"], libs=["haxorg"],
                     repo_src=["src/app/org_viewer/shared_org_logic.cpp"]),
    "s_proc": dict(src=["sim/s_proc.cpp"], libs=["hstd"],
                   repo_src=["scripts/cxx_executor/execution_flow_tracker.cpp"],
                   repo_flags=["-Dmain=tracker_main"]),
}


def flags_for(src):
    return common_flags()


def build_target(name, log=None):
    """Build /verif/build/bin/<name>; returns its path."""
    t = TARGETS[name]
    BUILD.mkdir(parents=True, exist_ok=True)
    with open(BUILD / ".lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        gen_shims()
        cov = common_flags() + SANCOV
        plain = common_flags()
        items = []
        sim = [VERIF / "sim" / "simkit.cpp", VERIF / "sim" / "driver.cpp"]
        for s in sim:
            items.append((s, plain))
        scen = [VERIF / s for s in t["src"]]
        for s in scen:
            items.append((s, cov + t.get("flags", [])))
        extra = [REPO / s for s in t.get("repo_src", [])]
        for s in extra:
            items.append((s, cov + t.get("flags", []) + t.get("repo_flags", [])))
        groups = {}
        if "haxorg" in t["libs"]:
            groups["haxorg"] = haxorg_sources()
        groups["hstd"] = hstd_sources()
        for gname, g in groups.items():
            for s in g:
                items.append((s, haxorg_flags(s, cov) if gname != "hstd" else cov))
        t0 = time.time()
        members = set(str(s) for g in groups.values() for s in g)
        objs, errors = compile_many(items, members)
        archives = [
            make_archive(g, [objs[str(s)] for s in srcs if str(s) in objs])
            for g, srcs in groups.items()
        ]
        main = [str(objs[str(s)]) for s in sim + scen + extra]
        binkey = sha("\n".join(main + [str(a) for a in archives]).encode())[:16]
        bindir = BUILD / "bin"
        bindir.mkdir(exist_ok=True)
        out = bindir / ("%s-%s" % (name, binkey))
        if not out.exists():
            tmp = bindir / ("tmp-%s-%d" % (name, os.getpid()))
            cmd = [
                CXX, "-rdynamic", "-no-pie", "-o", str(tmp), *main, "-Wl,--start-group",
                *[str(a) for a in archives], "-Wl,--end-group", "-Wl,--gc-sections",
                *LD,
                *LIBS, *t.get("ldlibs", [])
            ]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode != 0:
                raise BuildError("link of %s failed:\n%s\n%s" % (
                    name, r.stderr[-6000:], "\n".join(errors)[:6000]))
            os.replace(tmp, out)
            for old in sorted(bindir.glob(name + "-*"), key=lambda p: p.stat().st_mtime)[:-3]:
                old.unlink()
        return out


if __name__ == "__main__":
    names = sys.argv[1:] or list(TARGETS)
    try:
        for n in names:
            t0 = time.time()
            print(n, build_target(n), "%.1fs" % (time.time() - t0), flush=True)
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
