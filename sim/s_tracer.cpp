// C08: operation traces, driven through random call trees with exceptions,
// destination switches, tracing on/off and disk faults that must be absorbed.
#include "simkit.hpp"
#include <hstd/stdlib/TraceBase.hpp>
#include <set>
#include <sstream>

using namespace sim;
using hstd::OperationsTracer;

namespace {
struct Boom : std::exception {};

void gen(Rng& r, json& ops, int depth, int& budget) {
    int n = (int)r.range(1, 6);
    for (int i = 0; i < n && budget > 0; ++i) {
        --budget;
        int k = (int)r.below(20);
        if (k < 8) {
            ops.push_back({{"op", "msg"}, {"how", r.below(4)}, {"multi", r.chance(1, 5)}, {"meta", r.chance(1, 6)}});
            if (r.chance(1, 12)) { ops.back()["empty"] = true; }
        } else if (k < 13 && depth < 4) {
            ops.push_back({{"op", "scope"}, {"named", r.chance(2, 3)}, {"how", r.below(6)}});
            gen(r, ops, depth + 1, budget);
            static char const* ends[] = {"end", "end", "endmsg", "throw"};
            ops.push_back({{"op", ends[r.below(4)]}});
        } else if (k < 15) {
            ops.push_back({{"op", "trace"}, {"on", r.chance(1, 2)}});
            gen(r, ops, depth, budget);
            ops.push_back({{"op", "untrace"}});
            if (r.chance(1, 4)) { ops.back()["throw"] = true; }
        } else if (k < 18) {
            static char const* f[] = {"/sim/t0.log", "/sim/d/e/t1.log", "/sim/t2.log"};
            ops.push_back({{"op", "file"}, {"path", f[r.below(3)]}, {"overwrite", r.chance(1, 2)}});
        } else if (k < 19) {
            static char const* d[] = {"buffer", "stream", "stdout"};
            ops.push_back({{"op", d[r.below(3)]}});
        } else {
            ops.push_back({{"op", "adjacent"}, {"name", (r.chance(1, 3) ? "sub/adj" : "adj") + std::to_string(r.below(3)) + ".txt"}});
        }
    }
}

void workload(Rng& r, Plan& p) {
    p.params["structured"] = r.chance(1, 3);
    int budget             = (int)r.range(4, 40);
    p.ops.push_back({{"op", "file"}, {"path", "/sim/t0.log"}, {"overwrite", true}});
    gen(r, p.ops, 0, budget);
}

struct Run {
    Plan const&       p;
    OperationsTracer  tr;
    bool              structured;
    size_t            pos = 0;
    int               seq = 0;
    struct Rec {
        std::string kind; // "M" message, "B" begin, "E" end
        std::string token;
        int         level;
        int         lines;
    };
    std::map<std::string, std::vector<Rec>> files; // expected content
    std::vector<Rec>                        buffer;
    std::map<std::string, std::vector<Rec>> streams;
    std::shared_ptr<std::ostringstream>     memory = std::make_shared<std::ostringstream>();
    std::stringbuf                          out; // standard output
    std::string                             dest; // "" = buffer
    bool                                    on = false;
    int                                     level = 0;
    std::map<std::string, std::string>      adjacent;

    explicit Run(Plan const& p) : p(p), structured(p.params["structured"]) { tr.traceStructured = structured; }

    void expect(std::string const& kind, std::string const& token, int lvl, int lines = 1) {
        Quiet q;
        auto& d = dest == "@buffer" ? buffer : dest[0] == '@' ? streams[dest] : files[dest];
        d.push_back({kind, token, lvl, lines});
    }
    std::string token() { return "<m" + std::to_string(seq++) + ">"; }
    static std::string body(std::string const& t, bool multi) {
        return multi ? t + " first\nsecond" + t + "\nthird" + t : t + " one line";
    }

    void block(int depth) {
        while (pos < p.ops.size()) {
            json const& op = p.ops[pos++];
            std::string k  = op["op"];
            if (k == "msg") {
                std::string t = token();
                bool        multi = op["multi"];
                bool        empty = op.value("empty", false);
                std::string b = empty ? "" : body(t, multi);
                if (on) { expect("M", empty ? "" : t, level, !empty && multi && !structured ? 3 : 1); }
                int how = op["how"];
                if (how == 0) {
                    tr.message(b, "func", 10, "/src/file.cpp");
                } else if (how == 1) {
                    hstd::OperationsMsg m;
                    m.msg      = b;
                    m.level    = tr.activeLevel;
                    m.function = "func";
                    m.file     = "/src/file.cpp";
                    m.line     = 3;
                    if (op["meta"]) { m.metadata = std::make_shared<json>(json{{"k", t}}); }
                    tr.message(m);
                } else if (how == 2) {
                    OperationsTracer* pt = &tr;
                    OP_TRACER_MESSAGE(pt, "{}", b);
                } else {
                    tr.sendMessage(b, "f", 9, "file.cpp");
                }
            } else if (k == "scope") {
                bool named = op["named"];
                if (structured && !on) { named = named; }
                std::string t = token();
                // a structured scope is an event of its own; it is only opened
                // while tracing is on
                bool events = structured;
                if (events && !on) {
                    // skip the scope itself, run what is inside
                    try {
                        block(depth + 1);
                    } catch (Boom const&) {}
                    continue;
                }
                int before = tr.activeLevel;
                if (events) {
                    expect("B", named ? t : "", level);
                } else if (named && on) {
                    expect("M", t, level);
                }
                try {
                    auto text = named ? hstd::Opt<std::string>{body(t, false)} : std::nullopt;
                    std::optional<OperationsTracer::ScopeHandle> kept;
                    std::vector<OperationsTracer::ScopeHandle>   list;
                    int how = op.value("how", 0);
                    if (how == 1 && named) { // only formats its text while tracing
                        OperationsTracer* pt = &tr;
                        auto first = OP_TRACER_MESSAGE_SCOPE_HANDLE(pt, "{}", body(t, false));
                        kept.emplace(std::move(first));
                    } else if (how == 2) { // handed on twice
                        OperationsTracer::ScopeHandle first = tr.begin_scope(text, "func", 5, "/src/file.cpp");
                        OperationsTracer::ScopeHandle second{std::move(first)};
                        kept.emplace(std::move(second));
                    } else if (how == 3) { // kept in a list that moves its elements
                        list.push_back(tr.begin_scope_nop());
                        list.push_back(tr.begin_scope(text, "func", 5, "/src/file.cpp"));
                        list.reserve(list.capacity() + 3);
                    } else {
                        kept.emplace(tr.begin_scope(text, "func", 5, "/src/file.cpp"));
                    }
                    OperationsTracer::ScopeHandle& h = kept ? *kept : list.back();
                    ++level;
                    std::string last;
                    {
                        struct Dec {
                            Run* s;
                            ~Dec() { --s->level; }
                        } dec{this};
                        try {
                            last = block(depth + 1, true);
                        } catch (Boom const&) {
                            Quiet q;
                            if (structured) { expect("E", "", level - 1); }
                            throw;
                        }
                    }
                    if (last == "endmsg") {
                        std::string e = token();
                        if (structured) {
                            expect("E", e, level);
                        } else if (on) {
                            expect("M", e, level);
                        }
                        h.end(body(e, false), "func", 6, "/src/file.cpp");
                    } else if (structured) {
                        expect("E", "", level);
                    }
                } catch (Boom const&) { probe("scope-left-by-exception"); }
                if (tr.activeLevel != before) {
                    violate("level", "indentation level is " + std::to_string(tr.activeLevel) + " after a scope that began at " + std::to_string(before));
                }
            } else if (k == "throw") {
                if (depth == 0) { continue; }
                throw Boom{};
            } else if (k == "end" || k == "endmsg") {
                if (depth == 0) { continue; }
                last_end = k;
                return;
            } else if (k == "trace") {
                bool prev = on;
                bool next = op["on"];
                try {
                    auto s = tr.scopeTrace(next);
                    on     = next;
                    struct Back {
                        Run* r;
                        bool v;
                        ~Back() { r->on = v; }
                    } back{this, prev};
                    trace_block(depth);
                } catch (Boom const&) {
                    check_on(prev);
                    throw;
                }
                check_on(prev);
            } else if (k == "untrace") {
                if (in_trace > 0) {
                    last_end = "untrace";
                    if (op.value("throw", false)) { throw Boom{}; }
                    return;
                }
            } else if (k == "file") {
                set_file(op["path"], op["overwrite"]);
            } else if (k == "buffer") {
                tr.traceToBuffer = true;
                tr.traceColored  = false;
                dest             = "@buffer";
            } else if (k == "stream") {
                tr.setTraceFile(std::static_pointer_cast<std::ostream>(memory));
                tr.traceToBuffer = false;
                tr.traceColored  = false;
                dest             = "@memory";
                on               = true;
            } else if (k == "stdout") {
                tr.traceToBuffer = false;
                tr.traceToFile   = false;
                tr.traceColored  = false;
                dest             = "@stdout";
            } else if (k == "adjacent") {
                // only while tracing into a file that is really in use
                if (dest.empty() || dest[0] == '@') { continue; }
                std::string t    = token();
                std::string name = op["name"];
                auto before = fired_map();
                try {
                    tr.writeAdjacentToTraceFile(name, t, true, "func", 1, "/src/file.cpp");
                } catch (std::exception const& e) {
                    bool hard = false;
                    for (auto const& [k, v] : fired_map()) {
                        if (v > before[k]) { hard = true; }
                    }
                    if (!hard) { violate("adjacent", std::string("writing next to the trace failed: ") + e.what()); }
                    adjacent.erase(dest.substr(0, dest.rfind('/')) + "/" + name);
                    continue;
                }
                if (on) {
                    expect("W", name, level);
                    adjacent[dest.substr(0, dest.rfind('/')) + "/" + name] = t;
                }
            }
        }
        last_end = "eof";
    }
    int         in_trace = 0;
    std::string last_end;
    std::string block(int depth, bool) {
        int keep = in_trace;
        in_trace = 0;
        struct R {
            Run* r;
            int  k;
            ~R() { r->in_trace = k; }
        } rr{this, keep};
        block(depth);
        return last_end;
    }
    void trace_block(int depth) {
        ++in_trace;
        struct R {
            Run* r;
            ~R() { --r->in_trace; }
        } rr{this};
        int d = pos;
        (void)d;
        inner_trace(depth);
    }
    void inner_trace(int depth) {
        // an "end"/"throw" inside belongs to an inner scope by construction,
        // but minimisation may remove its "scope"; depth 0 ignores those
        block(0);
    }
    void check_on(bool want) {
        if (tr.TraceState != want) { violate("trace-state", "tracing state was not restored"); }
    }
    void set_file(std::string const& path, bool overwrite) {
        i64  f0 = fired_total();
        bool threw = false;
        auto before = fired_map();
        try {
            FaultRegion f;
            tr.setTraceFile(hstd::fs::path{path}, overwrite);
        } catch (std::exception const& e) { threw = true; }
        bool hard = false;
        for (auto const& [k, v] : fired_map()) {
            if (v > before[k] && k != "write:short" && k != "write:EINTR") { hard = true; }
        }
        (void)f0;
        if (threw) {
            if (!hard) { violate("file-refused", "setting trace file " + path + " failed without a reason"); }
            probe("trace-file-failed");
            // the destination is unknown now: choose another one
            tr.stream        = nullptr;
            tr.traceToBuffer = true;
            tr.traceColored  = false;
            dest             = "@buffer";
            tr.TraceState    = on;
            return;
        }
        tr.traceToBuffer = false;
        dest             = path;
        bool was         = on;
        on               = true;
        (void)was;
        if (overwrite) {
            files[path].clear();
        } else {
            files[path];
        }
    }

    void check_text(std::string const& name, std::string const& text, std::vector<Rec> const& recs) {
        std::istringstream       in(text);
        std::string              line;
        std::vector<std::string> lines;
        while (std::getline(in, line)) { lines.push_back(line); }
        size_t i = 0;
        for (auto const& r : recs) {
            if (i >= lines.size()) { violate("trace-lost", name + " ends before message " + r.kind + " " + r.token); }
            if (structured) {
                json j = json::parse(lines[i], nullptr, false);
                if (j.is_discarded()) { violate("trace-garbled", name + " line is not an event: " + lines[i]); }
                std::string ph = j.value("ph", "");
                std::string want = r.kind == "B" ? "B" : r.kind == "E" ? "E" : "i";
                std::string msg  = j.contains("args") && j["args"].contains("message") && j["args"]["message"].is_string() ? j["args"]["message"].get<std::string>() : "";
                bool phok = want == "i" ? (ph == "i" || ph == "I") : ph == want;
                if (!phok || (r.kind != "W" && !r.token.empty() && msg.find(r.token) != 0) || (r.kind == "W" && msg.find(r.token) == std::string::npos)
                    || (r.token.empty() && msg.find("<m") != std::string::npos)) {
                    violate("trace-order", name + ": expected " + r.kind + " " + r.token + ", found " + lines[i]);
                }
                ++i;
                continue;
            }
            size_t ind = lines[i].find_first_not_of(' ');
            if (lines[i].find(r.token) == std::string::npos) {
                violate("trace-order", name + ": expected message " + r.token + ", found " + lines[i]);
            }
            if (ind != (size_t)(2 * r.level)) {
                violate("trace-indent", name + ": message " + r.token + " at nesting " + std::to_string(r.level) + " is indented by " + std::to_string(ind));
            }
            if (r.lines == 3) {
                // with metadata the first line of the text moves down by one
                size_t k = i;
                if (lines[i].find("first") == std::string::npos) { ++k; }
                if (k + 2 >= lines.size() || lines[k].find("first") == std::string::npos
                    || lines[k + 1].find("second" + r.token) == std::string::npos
                    || lines[k + 2].find("third" + r.token) == std::string::npos) {
                    violate("trace-lost", name + ": lines of message " + r.token + " are missing");
                }
                i = k + 3;
            } else {
                ++i;
            }
        }
        if (i != lines.size()) { violate("trace-extra", name + " has an additional line: " + lines[i]); }
    }
};

void run(Plan const& p) {
    Run   r(p);
    auto* cout_buf = std::cout.rdbuf(&r.out);
    struct Restore {
        std::streambuf* b;
        ~Restore() { std::cout.rdbuf(b); }
    } restore{cout_buf};
    {
        // writes are interrupted or shortened; they must be completed
        FaultRegion f;
        try {
            r.block(0);
        } catch (Boom const&) {}
    }
    Quiet q;
    if (r.tr.activeLevel != 0) { violate("level", "indentation level is " + std::to_string(r.tr.activeLevel) + " at the end"); }
    r.tr.stream = nullptr;
    for (auto const& [path, recs] : r.files) {
        if (path.empty()) { continue; }
        std::string text;
        if (!get_file(path, text)) { violate("trace-lost", path + " does not exist"); }
        r.check_text(path, text, recs);
    }
    r.check_text("buffer", r.tr.traceBuffer, r.buffer);
    r.check_text("stream", r.memory->str(), r.streams["@memory"]);
    r.check_text("standard output", r.out.str(), r.streams["@stdout"]);
    for (auto const& [path, text] : r.adjacent) {
        std::string got;
        if (!get_file(path, got) || got != text) { violate("adjacent", "file " + path + " does not hold what was written next to the trace"); }
    }
    hist(std::to_string(r.seq) + " messages, level " + std::to_string(r.tr.activeLevel));
    if (!r.structured) {
        hist(r.tr.traceBuffer);
        for (auto const& [path, recs] : r.files) {
            std::string t;
            get_file(path, t);
            hist(path + "\n" + t);
        }
    }
}

struct Reg {
    Reg() {
        Scenario a;
        a.name     = "operation-trace";
        a.property = "C08";
        a.workload = workload;
        a.run      = run;
        a.menu     = {{"open", {"EACCES", "EMFILE", "EIO"}, 1}, {"mkdir", {"EACCES", "ENOSPC"}, 1}, {"write", {"EINTR", "short"}, 4}};
        a.variants = 10;
        a.max_faults = 6;
        a.real     = {"src/hstd/stdlib/TraceBase.cpp, ColText.cpp, Filesystem.cpp (real)", "libstdc++ streams (real)"};
        a.stub     = {"results of open/mkdir/write calls (fault-injected)", "clock (simulated)"};
        register_scenario(a);
    }
} reg;
} // namespace
