#!/usr/bin/env python3
"""cxxdemo.py <demo.cpp> [repo sources...] [-nolib] [-hax]: build demo.cpp together with repository
sources from the current directory in a scratch folder and run it there."""
import concurrent.futures as cf
import os, pathlib, re, shutil, subprocess, sys, tempfile

here = pathlib.Path(__file__).resolve().parent
repo = pathlib.Path.cwd()
scratch = pathlib.Path(tempfile.mkdtemp(prefix="demo_"))
LIB = sorted(repo.glob("src/hstd/stdlib/*.cpp")) + [
    repo / "src/hstd/ext" / n for n in ("logger.cpp", "hstd_serde.cpp", "error_write.cpp")]
HAX = [p for p in sorted(repo.glob("src/haxorg/**/*.cpp")) + sorted(repo.glob("src/hstd/system/*.cpp"))
       if not re.search(r"/test/|ImmOrgGraph\.cpp|Qt|proto", str(p))]


def shims():
    inc = scratch / "inc"
    (inc / "fmt").mkdir(parents=True)
    (inc / "bits").mkdir()
    (inc / "cpptrace").mkdir()
    for h in pathlib.Path("/usr/include/fmt").glob("*.h"):
        t = h.read_text()
        if h.name == "core.h":
            n = "FMT_INLINE operator basic_string_view<Char>() const { return str_; }"
            t = t.replace(n, n + "\n  FMT_INLINE basic_string_view<Char> get() const { return str_; }")
        (inc / "fmt" / h.name).write_text(t)
    (inc / "fmt" / "base.h").write_text("#pragma once\n#include <fmt/core.h>\n#include <fmt/format.h>\n")
    pair = pathlib.Path("/usr/include/c++/13/bits/stl_pair.h").read_text()
    m = re.search(
        r"template<typename _T1, typename _T2>\n(\s+)(\[\[nodiscard\]\]\s+)?(inline )?(_GLIBCXX_CONSTEXPR|constexpr) bool\n\s+operator==\(const pair<_T1, _T2>& __x, const pair<_T1, _T2>& __y\)",
        pair)
    seg = m.group(0)
    new = seg.replace("typename _T1, typename _T2>",
                      "typename _T1, typename _T2, typename _U1, typename _U2>").replace(
                          "const pair<_T1, _T2>& __y", "const pair<_U1, _U2>& __y")
    (inc / "bits" / "stl_pair.h").write_text(pair.replace(seg, new, 1))
    for f in (here / "cpptrace").glob("*"):
        shutil.copy(f, inc / "cpptrace" / f.name)
    for d in ("lexy", "lexy_ext"):
        if (here / d).exists():
            shutil.copytree(here / d, inc / d)
    return inc


def main():
    args = sys.argv[1:]
    srcs = [a for a in args[1:] if not a.startswith("-")]
    inc = shims()
    flags = ["-std=gnu++23", "-O0", "-ffunction-sections", "-Wno-everything", "-I%s" % inc,
             "-I%s/src" % repo, "-I%s" % repo, "-include", "algorithm", "-include", "format",
             "-DORG_BUILD_EMCC=0", "-DORG_USE_CONAN_INSTALL=0", "-DORG_BUILD_WITH_PROTOBUF=0",
             "-DORG_BUILD_WITH_KIWI=0", "-DORG_BUILD_WITH_ELK=0", "-DORG_BUILD_WITH_ADAPTAGRAMS=0",
             "-DORG_BUILD_WITH_CGRAPH=0", "-DBOOST_LOG_DYN_LINK"]

    def comp(i, s):
        o = scratch / ("o%d.o" % i)
        extra = ["-Dmain=repo_main"] if s.endswith("@main") else []
        s = s.removesuffix("@main")
        r = subprocess.run(["clang++-18", *flags, *extra, "-c", s, "-o", str(o)],
                           capture_output=True, text=True)
        return (o if r.returncode == 0 else None), s, r.stderr
    own = [str(here / args[0])] + [str(repo / s) for s in srcs]
    lib = [str(s) for s in LIB if s.exists()] if "-nolib" not in sys.argv else []
    if "-hax" in sys.argv:
        # slow ones first
        lib = sorted(map(str, HAX), key=lambda p: "/imm/" not in p) + lib
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda t: comp(*t), enumerate(own + lib)))
    ar = scratch / "lib.a"
    subprocess.run(["ar", "qc", str(ar), *[str(o) for o, _, _ in res[len(own):] if o]], check=True)
    res = res[:len(own)]
    for o, s, err in res:
        if o is None:
            print("cannot compile", s, err[-1500:])
            return 90
    exe = scratch / "demo"
    r = subprocess.run(["clang++-18", "-o", str(exe), *[str(o) for o, _, _ in res], str(ar),
                        "-Wl,--gc-sections", "--ld-path=/usr/bin/ld.lld-18", "-lfmt", "-lboost_log",
                        "-lboost_log_setup", "-lboost_thread", "-lboost_filesystem", "-lboost_system",
                        "-lyaml-cpp", "-lcctz", "-lpthread", "-ldl"], capture_output=True, text=True)
    if r.returncode:
        print(r.stderr[-3000:])
        return 91
    work = scratch / "work"
    work.mkdir()
    try:
        return subprocess.run([str(exe)], cwd=work, timeout=120).returncode
    except subprocess.TimeoutExpired:
        return 92


try:
    rc = main()
finally:
    shutil.rmtree(scratch, ignore_errors=True)
sys.exit(rc if rc >= 0 else 128 - rc)
