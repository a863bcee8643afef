// C04 / C05 / C06: plain file writing, reading and directory creation under
// disk faults and races.
#include "simkit.hpp"
#include <hstd/stdlib/Filesystem.hpp>
#include <optional>
#include <set>
#include <unistd.h>

using namespace sim;

namespace {

std::string gen_content(u64 seed, i64 size) {
    // a short random block repeated; cheap, and position dependent enough
    Rng         r(seed);
    std::string block;
    for (i64 i = 0; i < 61 && i < size; ++i) {
        u64 k = r.below(40);
        block.push_back(k == 0 ? '\n' : k == 1 ? '\0' : k == 2 ? (char)0xff : k == 3 ? '\r' : (char)('a' + k % 26));
    }
    std::string s;
    for (u64 n = 0; (i64)s.size() < size; ++n) { s += block + std::to_string(n); }
    s.resize((size_t)size);
    return s;
}
i64 gen_size(Rng& r) {
    static i64 const a[] = {0, 1, 2, 100, 511, 512, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 20000, 65536, 200000};
    return a[r.below(16)] + (r.chance(1, 3) ? (i64)r.below(50) : 0);
}

// ------------------------------------------------------------------- C04 ----
void c04_workload(Rng& r, Plan& p) {
    int n = (int)r.range(1, 5);
    for (int i = 0; i < n; ++i) {
        static char const* paths[] = {"/sim/a.txt", "/sim/b.txt", "/sim/d/c.txt", "/sim/link.txt", "/sim/d", "/sim/none/x.txt"};
        static char const* how[]   = {"writeFile", "writeFile", "writeFile", "writeFileOrStdout", "writeFileOrStdout", "writeDebugFile", "writeDebugFile", "stdout"};
        int                k       = (int)r.below(12);
        json op{{"op", "write"}, {"how", how[r.below(8)]}, {"path", paths[k < 4 ? 0 : k < 6 ? 1 : k < 8 ? 2 : k < 10 ? 3 : k < 11 ? 4 : 5]},
                {"seed", r.below(1u << 30)}, {"size", gen_size(r)}};
        if (i > 0 && r.chance(1, 2)) {
            // a variation of the text written to the same place before
            static char const* from[] = {"flip", "same", "shorter", "longer"};
            op["from"]                = from[r.below(4)];
            op["at"]                  = r.below(1000);
            if (r.chance(2, 3)) { op["path"] = p.ops[i - 1]["path"], op["how"] = p.ops[i - 1]["how"]; }
        }
        p.ops.push_back(op);
    }
    p.params["pre"] = r.below(3); // what a.txt holds before
}

void c04_run(Plan const& p) {
    std::map<std::string, std::optional<std::string>> model; // nullopt: unspecified
    std::map<std::string, std::string>                last;  // what was last meant to be there
    {
        Quiet q;
        put_file("/sim/d/keep.txt", "kept");
        model["d/keep.txt"] = "kept";
        if (p.params["pre"] != 0) {
            std::string c = gen_content(7, p.params["pre"] == 1 ? 30 : 300000);
            put_file("/sim/a.txt", c);
            model["a.txt"] = c;
        }
        put_file("/sim/target.txt", "old");
        model["target.txt"] = "old";
        if (::symlink("/sim/target.txt", "/sim/link.txt") != 0) { discard("symlink"); }
    }
    for (auto const& op : p.ops) {
        std::string path = op["path"], how = op["how"];
        std::string content = gen_content(op["seed"], op["size"]);
        std::string key     = path.substr(5);
        bool        must_fail = path == "/sim/d" || path == "/sim/none/x.txt";
        bool        debug     = how == "writeDebugFile";
        if (debug) {
            key       = "@tmp";
            must_fail = false;
        }
        if (key == "link.txt") { key = "target.txt"; }
        if (auto it = last.find(key); it != last.end() && !it->second.empty() && op.contains("from")) {
            std::string from = op["from"];
            content          = it->second;
            size_t at        = content.size() * op["at"].get<int>() / 1000;
            if (from == "flip") {
                content[at] = content[at] == '#' ? '%' : '#';
            } else if (from == "shorter") {
                content.resize(at);
            } else if (from == "longer") {
                content += content.substr(0, at);
            }
            probe("rewrite-" + from);
        }
        last[key]          = content;
        i64         before = fired_total();
        bool        threw  = false;
        std::string what;
        try {
            FaultRegion f;
            if (how == "writeFile") {
                hstd::writeFile(path, content);
            } else if (how == "writeFileOrStdout") {
                hstd::writeFileOrStdout(path, content, true);
            } else if (how == "stdout") {
                std::stringbuf out;
                auto*          old = std::cout.rdbuf(&out);
                hstd::writeFileOrStdout(path, content, false);
                std::cout.rdbuf(old);
                Quiet q;
                if (out.str() != content) {
                    violate("write-lost", "standard output of " + std::to_string(content.size()) + " bytes got " + std::to_string(out.str().size()));
                }
                continue;
            } else {
                hstd::writeDebugFile(content, "log", false, "_x", 12, "func", "/src/some_file.cpp");
            }
        } catch (std::exception const& e) {
            threw = true;
            what  = e.what();
        }
        Quiet q;
        bool  faulted = fired_total() > before;
        hist(how + " " + path + " " + std::to_string(content.size()) + (threw ? " threw" : " ok"));
        std::string got;
        bool        have = get_file(debug ? "/tmp/some_file_func_x.log" : path, got);
        if (!threw) {
            if (!have || got != content) {
                violate("write-lost",
                        how + " to " + path + " of " + std::to_string(content.size())
                            + " bytes returned normally, but the file " + (have ? "holds " + std::to_string(got.size()) + " bytes" + (got.size() == content.size() ? " that differ" : "") : "does not exist"));
            }
            model[key] = content;
        } else {
            if (!faulted && !must_fail) { violate("write-refused", how + " to " + path + " failed without a reason: " + what); }
            if (must_fail) { continue; }
            model[key] = std::nullopt;
        }
        // no other file changed
        for (auto const& [k, v] : model) {
            if (!v || k == "@tmp") { continue; }
            std::string c;
            if (!get_file("/sim/" + k, c) || c != *v) { violate("other-file", "file " + k + " changed while " + path + " was written"); }
        }
    }
}

// ------------------------------------------------------------------- C05 ----
void c05_workload(Rng& r, Plan& p) {
    int n = (int)r.range(1, 5);
    for (int i = 0; i < n; ++i) {
        int k = (int)r.below(10);
        p.ops.push_back({{"op", "read"},
                         {"kind", k < 7 ? "file" : k < 8 ? "link" : k < 9 ? "dir" : "missing"},
                         {"seed", r.below(1u << 30)},
                         {"size", gen_size(r)}});
    }
}

void c05_run(Plan const& p) {
    int i = 0;
    for (auto const& op : p.ops) {
        std::string kind = op["kind"];
        std::string path = "/sim/f" + std::to_string(i++);
        std::string content = gen_content(op["seed"], op["size"]);
        {
            Quiet q;
            if (kind == "file") {
                put_file(path, content);
            } else if (kind == "link") {
                put_file(path + ".real", content);
                if (::symlink((path + ".real").c_str(), path.c_str()) != 0) { discard("symlink"); }
            } else if (kind == "dir") {
                put_file(path + "/x", "y");
            }
        }
        auto        before = fired_map();
        bool        threw  = false;
        std::string got, what;
        try {
            FaultRegion f;
            got = hstd::readFile(path);
        } catch (std::exception const& e) {
            threw = true;
            what  = e.what();
        }
        Quiet q;
        bool  hard = false;
        for (auto const& [k, v] : fired_map()) {
            if (k != "read:short" && k != "read:EINTR" && v > before[k]) { hard = true; }
        }
        hist("read " + kind + " " + std::to_string(content.size()) + (threw ? " threw" : " ok"));
        if (!threw) {
            if (kind == "dir" || kind == "missing") { violate("read-nothing", "reading a " + kind + " returned " + std::to_string(got.size()) + " bytes instead of failing"); }
            if (got != content) {
                violate("read-partial", "reading a file of " + std::to_string(content.size()) + " bytes returned " + std::to_string(got.size()) + " bytes normally");
            }
        } else if ((kind == "file" || kind == "link") && !hard) {
            violate("read-refused", "reading a readable file failed: " + what);
        }
    }
}

// ------------------------------------------------------------------- C06 ----
char const* kDirs[] = {"/sim/a", "/sim/a/b", "/sim/a/b/c", "/sim/a/x", "/sim/have", "/sim/have/sub", "/sim/have/sub/deep",
                       "/sim/file", "/sim/file/below", "/sim/ln", "/sim/ln/new", "/sim/dangling", "/sim/a/b/", "rel", "rel/deep", "./dot/q", "/sim/a//dbl"};

void c06_workload(Rng& r, Plan& p) {
    int nt              = r.chance(1, 3) ? 1 : (int)r.range(2, 3);
    p.params["threads"] = nt;
    int span            = (int)r.range(2, 17);
    for (int t = 1; t <= nt; ++t) {
        int n = (int)r.range(1, 3);
        for (int i = 0; i < n; ++i) {
            p.ops.push_back({{"t", t}, {"op", "mkdir"}, {"path", kDirs[r.below((u64)span)]}, {"parents", r.chance(2, 3)}, {"existsOk", r.chance(1, 2)}});
        }
    }
}

std::string normal(std::string const& path) {
    // relative to /sim, without empty or dot parts
    std::string s = path.rfind("/sim/", 0) == 0 ? path.substr(5) : path;
    std::string out, part;
    for (size_t i = 0; i <= s.size(); ++i) {
        if (i == s.size() || s[i] == '/') {
            if (!part.empty() && part != ".") { out += (out.empty() ? "" : "/") + part; }
            part.clear();
        } else {
            part += s[i];
        }
    }
    if (out == "ln" || out.rfind("ln/", 0) == 0) { out = "have" + out.substr(2); }
    return out;
}
std::string parent_of(std::string const& n) {
    auto k = n.rfind('/');
    return k == std::string::npos ? "" : n.substr(0, k);
}

struct MkResult {
    json        op;
    bool        threw = false;
    i64         faults = 0;
    std::string what;
    bool        existed_before = false;
    u64         from = 0, to = 0;
};

void c06_run(Plan const& p) {
    std::set<std::string> initial{"have"};
    {
        Quiet q;
        put_file("/sim/have/f", "1");
        put_file("/sim/file", "2");
        if (::symlink("have", "/sim/ln") != 0 || ::symlink("nowhere", "/sim/dangling") != 0) { discard("symlink"); }
    }
    std::vector<MkResult> results;
    u64                   clock = 0;
    int                   nt = p.params["threads"];
    for (int t = 1; t <= nt; ++t) {
        spawn([&, t] {
            for (auto const& op : p.ops) {
                if (op["t"] != t) { continue; }
                MkResult    r;
                std::string path;
                bool        par, ok;
                {
                    Quiet q;
                    r.op             = op;
                    path             = op["path"];
                    par              = op["parents"];
                    ok               = op["existsOk"];
                    r.existed_before = is_dir(path);
                    r.from           = clock++;
                }
                i64 f0 = fired_total();
                try {
                    FaultRegion f;
                    hstd::createDirectory(path, par, ok);
                } catch (std::exception const& e) {
                    Quiet q;
                    r.threw = true;
                    r.what  = e.what();
                }
                Quiet q;
                r.to     = clock++;
                r.faults = fired_total() - f0;
                if (!r.threw && !is_dir(path)) {
                    violate("dir-missing", "creation of " + path + " returned normally, but the directory does not exist");
                }
                hist("mkdir " + path + (par ? " parents" : "") + (ok ? " existsOk" : "") + (r.threw ? " threw" : " ok"));
                results.push_back(r);
            }
        });
    }
    join_all();
    Quiet q;
    // nothing but requested directories and their parents
    std::set<std::string> allowed{"have"};
    for (auto const& r : results) {
        std::string n = normal(r.op["path"]);
        while (!n.empty()) {
            allowed.insert(n);
            n = r.op["parents"] ? parent_of(n) : "";
        }
    }
    std::set<std::string> present;
    for (auto const& e : list_tree("/sim")) {
        if (e == "have/f" || e == "file" || e == "ln" || e == "dangling") { continue; }
        std::string n = e;
        if (n.back() == '/') { n.pop_back(); }
        if (!allowed.count(n) || e.back() != '/') { violate("dir-extra", "created " + e + ", which nobody asked for"); }
        present.insert(n);
    }
    std::string f;
    if (!get_file("/sim/file", f) || f != "2" || !get_file("/sim/have/f", f) || f != "1") { violate("dir-damage", "an existing file changed"); }
    // failures must have a reason
    std::map<std::string, int> exclusive;
    for (auto const& r : results) {
        std::string n   = normal(r.op["path"]);
        bool        par = r.op["parents"], ok = r.op["existsOk"];
        if (!r.threw) {
            if (!ok && ++exclusive[n] > 1) { violate("dir-exclusive", "two callers that forbade an existing directory both created " + n); }
            if (!ok && r.existed_before) { violate("dir-exclusive", "creation of existing " + n + " succeeded although that was forbidden"); }
            continue;
        }
        bool reason = r.faults > 0;
        reason      = reason || n == "file" || n.rfind("file/", 0) == 0 || n == "dangling";
        bool others = false; // somebody else may have created it before or meanwhile
        for (auto const& o : results) {
            if (&o == &r || o.from > r.to) { continue; }
            std::string m = normal(o.op["path"]);
            others = others || m == n || m.rfind(n + "/", 0) == 0;
        }
        if (!ok && (initial.count(n) || r.existed_before || others)) { reason = true; }
        std::string pn = parent_of(n);
        if (!par && !pn.empty()) {
            // the parent may have been missing when it was looked at
            bool parent_sure = initial.count(pn);
            for (auto const& o : results) {
                std::string m = normal(o.op["path"]);
                if (!o.threw && o.to < r.from && (m == pn || m.rfind(pn + "/", 0) == 0)) { parent_sure = true; }
            }
            reason = reason || !parent_sure;
        }
        if (!reason) { violate("dir-refused", "creation of " + std::string(r.op["path"]) + " failed without a reason: " + r.what); }
    }
}

struct Reg {
    Reg() {
        Scenario a;
        a.name     = "file-write";
        a.property = "C04";
        a.workload = c04_workload;
        a.run      = c04_run;
        a.menu     = {{"open", {"EACCES", "EMFILE", "ENOSPC", "EINTR", "EROFS"}, 1},
                      {"write", {"EIO", "ENOSPC", "EINTR", "short", "EDQUOT"}, 4},
                      {"close", {"EIO", "lost", "lost"}, 2},
                      {"capacity", {"full"}, 2}};
        a.variants = 12;
        a.real     = {"src/hstd/stdlib/Filesystem.cpp (real)", "libstdc++ streams (real)", "kernel file system (real, scratch directory)"};
        a.stub     = {"results of open/write/close/read/mkdir/stat calls (fault-injected)"};
        register_scenario(a);
        Scenario b = a;
        b.name     = "file-read";
        b.property = "C05";
        b.workload = c05_workload;
        b.run      = c05_run;
        b.menu     = {{"open", {"EACCES", "EMFILE", "EIO"}, 1}, {"read", {"EIO", "EINTR", "short", "short", "ESTALE"}, 4}, {"close", {"EIO"}, 1}};
        register_scenario(b);
        Scenario c = a;
        c.name     = "dir-create";
        c.property = "C06";
        c.workload = c06_workload;
        c.run      = c06_run;
        c.preempt  = true;
        c.menu     = {{"mkdir", {"EACCES", "ENOSPC", "EIO", "EROFS", "EMLINK"}, 2}, {"stat", {"EACCES", "EIO", "ELOOP"}, 1}};
        c.variants = 20;
        c.stub.push_back("thread scheduler (simulated)");
        register_scenario(c);
    }
} reg;
} // namespace
