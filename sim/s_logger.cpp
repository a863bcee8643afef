// C01 / C02: the logger under concurrent use and under reconfiguration.
#include "simkit.hpp"
#include <boost/log/sinks/basic_sink_backend.hpp>
#include <boost/log/sinks/sync_frontend.hpp>
#include <boost/make_shared.hpp>
#include <hstd/ext/logger.hpp>
#include <hstd/stdlib/Filesystem.hpp>
#include <memory>
#include <set>
#include <sstream>

using namespace sim;
namespace L = hstd::log;

namespace {

struct Cap {
    std::string msg, cat, file, func, meta;
    int         line = 0, sev = 0;
};

struct CapBackend
    : boost::log::sinks::basic_sink_backend<boost::log::sinks::synchronized_feeding> {
    std::vector<Cap>* out = nullptr;
    void              consume(boost::log::record_view const& rec) {
        auto ref = rec[HSLOG_RECORD_FIELD].extract<L::log_record>();
        if (!ref) {
            violate("record-missing", "a sink was given a record without its data");
        }
        Cap c;
        c.msg  = ref->data.message;
        c.cat  = ref->data.category.category;
        c.file = ref->data.file ? ref->data.file : "";
        c.func = ref->data.function ? ref->data.function : "";
        c.line = ref->data.line;
        c.sev  = (int)ref->data.severity;
        c.meta = ref->data.metadata ? ref->data.metadata->dump() : "";
        out->push_back(c);
    }
};

L::sink_ptr make_capture(std::vector<Cap>* out) {
    auto be = boost::make_shared<CapBackend>();
    be->out = out;
    return boost::make_shared<boost::log::sinks::synchronous_sink<CapBackend>>(be);
}

char const* kFiles[] = {"/src/alpha.cpp", "/src/beta.cpp", "/src/gamma.cpp"};
char const* kFuncs[] = {"run", "stop", "iterate"};

std::string token_of(int t, int i) { return "<" + std::to_string(t) + ":" + std::to_string(i) + ">"; }

struct Expect {
    int         thread, index;
    std::string msg, cat, file, func, meta;
    int         line, sev, depth;
};

// callsites of the logging macros, one per severity
constexpr int kMacroLine = __LINE__ + 4;
void macro_log(int sev, std::string const& a, int n, std::string const& b) {
    // clang-format off
    switch (sev) {
        case 0: { HSLOG_TRACE("{}{}{}", a, n, b); break; }
        case 1: { HSLOG_DEBUG("{}{}{}", a, n, b); break; }
        case 2: { HSLOG_INFO("{}{}{}", a, n, b); break; }
        case 3: { HSLOG_WARNING("{}{}{}", a, n, b); break; }
        case 4: { HSLOG_ERROR("{}{}{}", a, n, b); break; }
        default: { HSLOG_FATAL("{}{}{}", a, n, b); break; }
    }
    // clang-format on
}

// how one logging operation is performed, from its json description
void do_log(json const& op, std::string const& msg) {
    auto sev  = (L::severity_level)op["sev"].get<int>();
    auto file = kFiles[op["file"].get<int>()];
    auto func = kFuncs[op["func"].get<int>()];
    int  line = op["line"];
    std::string via = op["via"];
    if (via == "record") {
        L::log_record r;
        r.message(hstd::Str{msg}).line(line).file(file).function(func).severity(sev);
        if (op.contains("cat")) { r.category(L::log_category{op["cat"].get<std::string>()}); }
        if (op.contains("meta")) { r.metadata(std::make_shared<json>(op["meta"])); }
        r.end();
    } else if (via == "fields") {
        L::log_record r;
        r.severity(sev).file(file).function(func).line(line);
        // message assembled in pieces, metadata field by field
        r.message(msg.substr(0, msg.size() / 2).c_str());
        r.message(hstd::Str{msg.substr(msg.size() / 2)});
        if (op.contains("cat")) { r.category(L::log_category{op["cat"].get<std::string>()}); }
        if (op.contains("meta")) {
            for (auto const& [k, v] : op["meta"].items()) { r.metadata(hstd::Str{k}, v); }
        }
        r.end();
    } else if (via == "pieces") {
        // numbers, formatted parts, spaces and a late prefix; "<t:i>7 rest"
        auto        gt = msg.find('>') + 1;
        L::log_record r;
        switch (op["sev"].get<int>()) {
            case 0: r.as_trace(); break;
            case 1: r.as_debug(); break;
            case 2: r.as_info(); break;
            case 3: r.as_warning(); break;
            case 4: r.as_error(); break;
            default: r.as_fatal(); break;
        }
        r.set_callsite(line, func, file);
        r.message(op["num"].get<int>()).maybe_space().maybe_space();
        r.fmt_message("{}", op["msg"].get<std::string>());
        r.prepend_message(msg.substr(0, gt));
        if (op.contains("cat")) { r.category(L::log_category{op["cat"].get<std::string>()}); }
        if (op.contains("meta")) { r.metadata(std::make_shared<json>(op["meta"])); }
        if (op.contains("depth")) { r.depth(op["depth"]); }
        r.source_id(hstd::Str{"id"}).source_scope_add(hstd::Str{"scope"});
        r.end();
    } else if (via == "operation") {
        hstd::OperationsMsg m;
        m.msg      = msg;
        m.file     = file;
        m.function = func;
        m.line     = line;
        m.level    = op["depth"];
        if (op.contains("meta")) { m.metadata = std::make_shared<json>(op["meta"]); }
        auto r = L::log_record::from_operations(m);
        r.severity(sev);
        if (op.contains("cat")) { r.category(L::log_category{op["cat"].get<std::string>()}); }
        r.end();
    } else if (via == "macro") {
        auto gt = msg.find('>') + 1;
        macro_log(op["sev"], msg.substr(0, gt), op["num"], op["msg"].get<std::string>());
    } else if (via == "handed") {
        // a builder that is handed on before it is finished
        L::log_builder a;
        a.message(hstd::Str{msg.substr(0, msg.size() / 2)}).severity(sev);
        L::log_builder b{std::move(a)};
        b.set_callsite(line, func, file).message(hstd::Str{msg.substr(msg.size() / 2)});
        if (op.contains("cat")) { b.rec.category(L::log_category{op["cat"].get<std::string>()}); }
        if (op.contains("meta")) {
            for (auto const& [k, v] : op["meta"].items()) { b.metadata(hstd::Str{k}, v); }
        }
        if (op.contains("depth")) { b.depth(op["depth"]); }
    } else if (via == "taken") {
        // the record is taken out of its builder and sent on its own
        L::log_builder a;
        a.message(hstd::Str{msg}).severity(sev).set_callsite(line, func, file);
        if (op.contains("cat")) { a.rec.category(L::log_category{op["cat"].get<std::string>()}); }
        if (op.contains("meta")) {
            for (auto const& [k, v] : op["meta"].items()) { a.metadata(hstd::Str{k}, v); }
        }
        auto           rec = a.get_record();
        L::log_builder b{std::move(a)};
        rec.end();
    } else {
        L::log_builder b;
        b.message(hstd::Str{msg});
        b.set_callsite(line, func, file).severity(sev);
        if (op.contains("cat")) { b.rec.category(L::log_category{op["cat"].get<std::string>()}); }
        if (op.contains("meta")) {
            for (auto const& [k, v] : op["meta"].items()) { b.metadata(hstd::Str{k}, v); }
        }
    }
}

json gen_log_op(Rng& r, int t) {
    json op{{"t", t}, {"op", "log"}, {"sev", r.below(6)}, {"file", r.below(3)}, {"func", r.below(3)},
            {"line", r.range(1, 500)}};
    static char const* vias[] = {"record", "fields", "builder", "pieces", "operation", "macro", "handed", "taken"};
    std::string        via    = vias[r.below(8)];
    op["via"]                 = via;
    static char const* body[] = {"short", "a somewhat longer message that has to be stored on the heap", "x", "value = 42"};
    std::string m = body[r.below(4)];
    if (r.chance(1, 6)) { m += std::string(r.below(300), 'y'); }
    if (r.chance(1, 20)) { m += std::string(r.range(2000, 12000), 'z'); }
    if (r.chance(1, 8)) { m += "\nsecond line\nthird line"; }
    op["msg"] = m;
    if (via == "pieces" || via == "macro") { op["num"] = r.range(-50, 5000); }
    if (via == "operation" || ((via == "pieces" || via == "handed") && r.chance(1, 3))) { op["depth"] = r.below(5); }
    if (via == "macro") { return op; }
    if (r.chance(1, 2)) {
        static char const* cats[] = {"net", "parse", "ui"};
        op["cat"]                 = cats[r.below(3)];
    }
    if (r.chance(1, 3)) {
        json m = json::object();
        int  n = (int)r.range(1, 3);
        for (int i = 0; i < n; ++i) { m["k" + std::to_string(i)] = r.below(1000); }
        op["meta"] = m;
    }
    return op;
}

std::string full_msg(json const& op, int t, int i) {
    std::string num;
    if (op.contains("num")) { num = std::to_string(op["num"].get<int>()) + (op["via"] == "pieces" ? " " : ""); }
    return token_of(t, i) + num + op["msg"].get<std::string>();
}

Expect expect_of(json const& op, int t, int i, int depth) {
    Expect e;
    e.thread = t;
    e.index  = i;
    e.msg    = full_msg(op, t, i);
    e.cat    = op.value("cat", std::string());
    e.file   = kFiles[op["file"].get<int>()];
    e.func   = kFuncs[op["func"].get<int>()];
    e.line   = op["line"];
    e.sev    = op["sev"];
    e.meta   = op.contains("meta") ? op["meta"].dump() : "";
    e.depth  = op.value("depth", depth);
    if (op["via"] == "macro") {
        e.file = __FILE__;
        e.func = "macro_log";
        e.line = kMacroLine + std::min(e.sev, 5);
    }
    return e;
}

std::string show(Cap const& c) {
    return c.msg + " sev=" + std::to_string(c.sev) + " cat=" + c.cat + " at " + c.file + ":" + c.func + ":"
         + std::to_string(c.line) + " meta=" + c.meta;
}

void check_fields(std::string const& sink, Cap const& c, Expect const& e) {
    if (c.msg != e.msg || c.cat != e.cat || c.file != e.file || c.func != e.func || c.line != e.line
        || c.sev != e.sev || c.meta != e.meta) {
        violate("record-mixed",
                "sink " + sink + " got [" + show(c) + "] for record " + token_of(e.thread, e.index)
                    + " logged as [" + show(Cap{e.msg, e.cat, e.file, e.func, e.meta, e.line, e.sev}) + "]");
    }
}

std::pair<int, int> parse_token(std::string const& m) {
    int a = -1, b = -1;
    if (sscanf(m.c_str(), "<%d:%d>", &a, &b) != 2) { return {-1, -1}; }
    return {a, b};
}

// ------------------------------------------------------------------- C01 ----
bool accepts(json const& f, Expect const& e) {
    if (f.is_null()) { return true; }
    if (f["kind"] == "sev") { return e.sev >= f["v"].get<int>(); }
    if (f["kind"] == "throw") { return true; }
    return e.cat == f["v"].get<std::string>();
}

void set_filter(L::sink_ptr s, json const& f) {
    if (f.is_null()) { return; }
    if (f["kind"] == "sev") {
        int v = f["v"];
        L::set_sink_filter(s, [v](L::log_record const& r) { return (int)r.data.severity >= v; });
    } else if (f["kind"] == "throw") {
        // a filter that cannot decide lets the record through
        int v = f["v"];
        L::set_sink_filter(s, [v](L::log_record const& r) -> bool {
            if ((int)r.data.severity < v) { throw std::runtime_error("no answer"); }
            return true;
        });
    } else {
        std::string v = f["v"];
        L::set_sink_filter(s, [v](L::log_record const& r) { return r.data.category.category == v; });
    }
}

json gen_filter(Rng& r) {
    if (r.chance(1, 2)) { return nullptr; }
    if (r.chance(1, 2)) { return json{{"kind", "sev"}, {"v", r.below(6)}}; }
    if (r.chance(1, 4)) { return json{{"kind", "throw"}, {"v", r.below(7)}}; }
    static char const* cats[] = {"net", "parse", "ui"};
    return json{{"kind", "cat"}, {"v", cats[r.below(3)]}};
}

void c01_workload(Rng& r, Plan& p) {
    int nt              = (int)r.range(2, 4);
    p.params["threads"] = nt;
    p.params["sinks"]   = json::array();
    int ns              = (int)r.range(1, 3);
    for (int i = 0; i < ns; ++i) { p.params["sinks"].push_back(gen_filter(r)); }
    // text sinks besides the log file
    p.params["diff"]   = r.chance(1, 3) ? (int)r.range(1, 2) : 0;
    p.params["stdout"] = r.chance(1, 3);
    // several runs of a section whose log is compared with the one before
    json runs = json::array();
    if (p.params["diff"] != 0) {
        std::vector<int> prev;
        for (int k = (int)r.range(1, 3); k > 0; --k) {
            std::vector<int> cur;
            for (int x : prev) {
                if (r.chance(1, 5)) { cur.push_back((int)r.below(4)); }
                if (r.chance(4, 5)) { cur.push_back(x); }
            }
            while (r.chance(2, 3) && cur.size() < 6) { cur.push_back((int)r.below(4)); }
            runs.push_back(cur);
            prev = cur;
        }
    }
    p.params["runs"] = runs;
    for (int t = 1; t <= nt; ++t) {
        int n = (int)r.range(2, 6);
        int d = 0;
        for (int i = 0; i < n; ++i) {
            if (r.chance(1, 5)) {
                p.ops.push_back({{"t", t}, {"op", "in"}});
                ++d;
            } else if (d > 0 && r.chance(1, 5)) {
                p.ops.push_back({{"t", t}, {"op", "out"}});
                --d;
            } else if (r.chance(1, 8)) {
                p.ops.push_back({{"t", t}, {"op", "unique"}, {"v", r.below(2)}, {"line", r.below(2)}, {"sev", 3 + r.below(2)},
                                 {"cat", r.chance(1, 3) ? "net" : "ui"}, {"func", r.below(2)}, {"file", r.below(2)}});
            } else if (r.chance(1, 8)) {
                int v = (int)r.below(3);
                for (int k = (int)r.range(1, 3); k > 0; --k) { p.ops.push_back({{"t", t}, {"op", "same"}, {"v", v}}); }
            } else if (r.chance(1, 10)) {
                p.ops.push_back({{"t", t}, {"op", "boom"}, {"v", r.range(1, 3)}});
            } else if (t == 1 && r.chance(1, 5)) {
                p.ops.push_back({{"t", t}, {"op", "changed"}, {"v", r.below(2)}, {"line", r.below(2)}});
            } else {
                p.ops.push_back(gen_log_op(r, t));
            }
        }
    }
}

void check_text(std::string const& name, std::string const& text, std::vector<Expect> const& expected,
                std::map<std::pair<int, int>, Expect> const& by_token, bool no_depth) {
    std::istringstream in(text);
    std::string        line;
    std::map<std::pair<int, int>, int> seen;
    std::map<int, int> last;
    std::vector<std::string> lines;
    while (std::getline(in, line)) { lines.push_back(line); }
    for (size_t i = 0; i < lines.size(); ++i) {
        auto pos = lines[i].find('<');
        if (pos == std::string::npos) { continue; }
        auto tk = parse_token(lines[i].substr(pos));
        if (tk.first < 0) { continue; }
        auto it = by_token.find(tk);
        if (it == by_token.end()) { violate("file-unknown", name + " has " + lines[i]); }
        Expect const& e = it->second;
        if (++seen[tk] > 1) { violate("file-duplicated", name + " has twice: " + lines[i]); }
        if (last.count(tk.first) && last[tk.first] > tk.second) {
            violate("file-reordered", name + ": out of order at " + lines[i]);
        }
        last[tk.first] = tk.second;
        std::string place = e.file.substr(e.file.rfind('/') + 1) + ":" + e.func + ":" + std::to_string(e.line);
        bool multi = e.msg.find('\n') != std::string::npos;
        std::string first_msg = multi ? e.msg.substr(0, e.msg.find('\n')) : e.msg;
        std::string head = multi ? (i > 0 ? lines[i - 1] : "") : lines[i];
        if (lines[i].find(first_msg) == std::string::npos || head.find(place) == std::string::npos
            || (!e.meta.empty() && head.find(e.meta) == std::string::npos)) {
            violate("file-mixed", name + " has [" + head + "][" + lines[i] + "] for record " + e.msg + " at " + place + " meta " + e.meta);
        }
        size_t indent = head.find_first_not_of(' ');
        if (indent != (size_t)(no_depth ? 0 : 2 * e.depth)) {
            violate("depth", name + ": record " + e.msg + " logged inside " + std::to_string(e.depth) + " depth scopes is indented by " + std::to_string(indent) + " columns");
        }
        if (multi) {
            if (i + 2 >= lines.size() || lines[i + 1].find("second line") == std::string::npos
                || lines[i + 2].find("third line") == std::string::npos) {
                violate("file-torn", name + ": lines of one record are not together: " + e.msg);
            }
        }
    }
    for (auto const& e : expected) {
        if (!seen.count({e.thread, e.index})) { violate("file-lost", name + " misses " + e.msg); }
    }
}

void c01_run(Plan const& p) {
    int                            nt = p.params["threads"];
    std::vector<std::vector<Cap>>  caps(p.params["sinks"].size());
    std::vector<Expect>            expected;
    std::map<std::pair<int, int>, Expect> by_token;
    std::map<std::string, Expect>  uniq;
    std::vector<std::string>       changed;
    std::map<int, int>             same;
    std::stringbuf                 out;
    std::streambuf*                cout_buf = nullptr;
    L::log_differential_sink_factory diff{"/sim/diff.txt"};
    {
        Quiet q;
        L::clear_sink_backends();
        int i = 0;
        for (auto const& f : p.params["sinks"]) {
            auto s = make_capture(&caps[i++]);
            set_filter(s, f);
            L::push_sink(s);
        }
        L::push_sink(L::init_file_sink(std::string{"/sim/log.txt"}));
        if (p.params.value("diff", 0) != 0) {
            diff.ignore_depth(p.params["diff"] == 2);
            L::push_sink(diff());
        }
        if (p.params.value("stdout", false)) {
            cout_buf = std::cout.rdbuf(&out);
            L::push_sink(L::init_stdout_sink());
        }
        // expectations
        std::map<int, int> depth, index;
        for (auto const& op : p.ops) {
            int t = op["t"];
            int i = index[t]++;
            if (op["op"] == "in") { ++depth[t]; }
            if (op["op"] == "out" && depth[t] > 0) { --depth[t]; }
            if (op["op"] == "unique") {
                Expect e{0, 0, "<u" + std::to_string(op["v"].get<int>()) + ">", op["cat"], kFiles[op["file"].get<int>()],
                         kFuncs[op["func"].get<int>()], "", op["line"], op["sev"], 0};
                uniq[show(Cap{e.msg, e.cat, e.file, e.func, e.meta, e.line, e.sev})] = e;
            }
            if (op["op"] == "same") { ++same[op["v"].get<int>()]; }
            if (op["op"] == "changed") {
                std::string m = "<c" + std::to_string(op["v"].get<int>()) + ">" + std::to_string(op["line"].get<int>());
                if (changed.empty() || changed.back() != m) { changed.push_back(m); }
            }
            if (op["op"] == "log") {
                auto e = expect_of(op, t, i, depth[t]);
                expected.push_back(e);
                by_token[{t, i}] = e;
            }
        }
    }
    for (int t = 1; t <= nt; ++t) {
        spawn([&, t] {
            std::vector<std::unique_ptr<L::log_scoped_depth_attr::raii>> scopes;
            int                                                          i = 0;
            for (auto const& op : p.ops) {
                if (op["t"] != t) { continue; }
                int idx = i++;
                if (op["op"] == "in") {
                    scopes.push_back(std::make_unique<L::log_scoped_depth_attr::raii>());
                } else if (op["op"] == "out") {
                    if (!scopes.empty()) { scopes.pop_back(); }
                } else if (op["op"] == "unique") {
                    L::log_builder first;
                    first.set_finalizer(L::log_builder_get_mutable_finalizer_filter_unique_records<90001>());
                    L::log_builder b{std::move(first)};
                    b
                        .message(hstd::Str{"<u" + std::to_string(op["v"].get<int>()) + ">"})
                        .severity((L::severity_level)op["sev"].get<int>())
                        .set_callsite(op["line"], kFuncs[op["func"].get<int>()], kFiles[op["file"].get<int>()]);
                    b.rec.category(L::log_category{op["cat"].get<std::string>()});
                } else if (op["op"] == "same") {
                    // equal records, perhaps without a text
                    int v = op["v"];
                    L::log_record{}
                        .message(v == 2 ? "" : "same")
                        .set_callsite(700 + v, "same_place", "/src/same.cpp")
                        .severity(L::severity_level::fatal)
                        .end();
                } else if (op["op"] == "boom") {
                    try {
                        std::vector<L::log_scoped_depth_attr::raii> inner(op["v"].get<int>());
                        HSLOG_DEPTH_SCOPE_ANON();
                        throw std::runtime_error("boom");
                    } catch (std::runtime_error const&) {}
                } else if (op["op"] == "changed") {
                    L::log_builder b;
                    b.set_finalizer(L::log_builder_get_mutable_finalizer_filter_changed_value<90002>())
                        .message(hstd::Str{"<c" + std::to_string(op["v"].get<int>()) + ">"})
                        .line(op["line"])
                        .severity(L::severity_level::fatal);
                } else {
                    do_log(op, full_msg(op, t, idx));
                    hist("logged " + token_of(t, idx));
                }
            }
            while (!scopes.empty()) { scopes.pop_back(); }
        });
    }
    join_all();
    Quiet q;
    // what was logged is in the file, even if the process never closes it
    std::string early;
    get_file("/sim/log.txt", early);
    L::clear_sink_backends();
    if (cout_buf) { std::cout.rdbuf(cout_buf); }

    for (size_t s = 0; s < caps.size(); ++s) {
        std::string                name = "capture" + std::to_string(s);
        std::map<std::pair<int, int>, int> seen;
        std::map<int, int>         last;
        std::map<std::string, int> useen;
        std::vector<std::string>   cseen;
        std::map<int, int>         sseen;
        for (auto const& c : caps[s]) {
            if (c.msg.rfind("<u", 0) == 0) {
                ++useen[show(c)];
                continue;
            }
            if (c.func == "same_place") {
                ++sseen[c.line - 700];
                continue;
            }
            if (c.msg.rfind("<c", 0) == 0) {
                cseen.push_back(c.msg + std::to_string(c.line));
                continue;
            }
            auto tk = parse_token(c.msg);
            auto it = by_token.find(tk);
            if (it == by_token.end()) { violate("record-unknown", "sink " + name + " got [" + show(c) + "]"); }
            check_fields(name, c, it->second);
            if (!accepts(p.params["sinks"][s], it->second)) {
                violate("filter-ignored", "sink " + name + " got a record its filter rejects: " + show(c));
            }
            if (++seen[tk] > 1) { violate("record-duplicated", "sink " + name + " got " + show(c) + " twice"); }
            if (last.count(tk.first) && last[tk.first] > tk.second) {
                violate("record-reordered", "sink " + name + ": records of thread " + std::to_string(tk.first) + " out of order at " + show(c));
            }
            last[tk.first] = tk.second;
        }
        for (auto const& e : expected) {
            if (accepts(p.params["sinks"][s], e) && !seen.count({e.thread, e.index})) {
                violate("record-lost", "sink " + name + " never got " + e.msg);
            }
        }
        for (auto const& [k, e] : uniq) {
            int want = accepts(p.params["sinks"][s], e);
            if (useen[k] != want) {
                violate("unique-filter", "sink " + name + " got unique record [" + k + "] " + std::to_string(useen[k]) + " times, not " + std::to_string(want));
            }
            useen.erase(k);
        }
        for (auto const& [k, n] : useen) { violate("unique-filter", "sink " + name + " got [" + k + "] that was never logged"); }
        if ((p.params["sinks"][s].is_null() || p.params["sinks"][s]["kind"] != "cat") && sseen != same) {
            violate("equal-records", "sink " + name + " got another number of equal records than were logged");
        }
        if ((p.params["sinks"][s].is_null() || p.params["sinks"][s]["kind"] != "cat") && cseen != changed) {
            violate("changed-filter", "sink " + name + " got " + json(cseen).dump() + " of the records logged when changed, expected " + json(changed).dump());
        }
    }
    // text sinks: one line (or block) per record, indentation = own thread's depth
    std::string text;
    if (!get_file("/sim/log.txt", text) && !expected.empty()) { violate("file-missing", "log file was not created"); }
    auto check_text = [&](std::string const& name, std::string const& text, std::vector<Expect> const& expected,
                          std::map<std::pair<int, int>, Expect> const& by_token, bool no_depth) {
        ::check_text(name, text, expected, by_token, no_depth);
        for (int v = 0; v < 3; ++v) {
            int         n = 0;
            std::string place = "same.cpp:same_place:" + std::to_string(700 + v);
            for (auto at = text.find(place); at != std::string::npos; at = text.find(place, at + 1)) { ++n; }
            if (n != same[v]) {
                violate("equal-records", name + " has " + std::to_string(n) + " of " + std::to_string(same[v]) + " equal records");
            }
        }
    };
    check_text("log file", text, expected, by_token, false);
    check_text("log file still open", early, expected, by_token, false);
    hist(text);
    if (p.params.value("diff", 0) != 0) {
        std::string d, plain;
        if (!get_file("/sim/diff.txt", d)) { violate("file-missing", "difference log was not created"); }
        std::istringstream in(d);
        for (std::string line; std::getline(in, line);) {
            // nothing was logged before, so everything is new
            if (line.rfind("+ ", 0) != 0) { violate("diff-prefix", "difference log has [" + line + "] in the first run"); }
            plain += line.substr(2) + "\n";
        }
        check_text("difference log", plain, expected, by_token, p.params["diff"] == 2);
    }
    std::vector<std::string> prev;
    L::log_differential_sink_factory again{"/sim/again.txt"};
    for (auto const& run : p.params.value("runs", json::array())) {
        std::vector<std::string> cur, minus, plus;
        {
            L::log_sink_scope scope;
            L::push_sink(again());
            for (int v : run) {
                std::string m = "message " + std::to_string(v);
                L::log_record{}.message(hstd::Str{m}).line(3).file("/src/again.cpp").function("f").end();
                cur.push_back(m + " again.cpp:f:3");
            }
        }
        std::string d;
        get_file("/sim/again.txt", d);
        std::istringstream in(d);
        for (std::string line; std::getline(in, line);) {
            auto head = line.substr(0, 2), rest = line.size() > 2 ? line.substr(2) : std::string();
            if (head != "+ ") { minus.push_back(rest); }
            if (head != "- ") { plus.push_back(rest); }
        }
        if (plus != cur || minus != prev) {
            violate("diff-wrong", "difference log\n" + d + "is not the difference of " + json(prev).dump() + " and " + json(cur).dump());
        }
        prev = cur;
    }
    if (cout_buf) { check_text("standard output", out.str(), expected, by_token, false); }
}

// ------------------------------------------------------------------- C02 ----
struct Boom : std::exception {
    char const* what() const noexcept override { return "boom"; }
};

// The reconfiguring thread executes a tree of operations; other threads log.
void gen_tree(Rng& r, json& ops, int depth, int& budget, int& sinkno) {
    int n = (int)r.range(1, 5);
    for (int i = 0; i < n && budget > 0; ++i) {
        --budget;
        int k = (int)r.below(12);
        if (k >= 10) {
            if (r.chance(1, 3)) {
                ops.push_back({{"t", 0}, {"op", "again"}, {"sink", r.below(sinkno)}});
            } else {
                ops.push_back({{"t", 0}, {"op", "filter"}, {"sink", r.below(sinkno)}, {"filter", gen_filter(r)}});
            }
        } else if (k < 3) {
            ops.push_back({{"t", 0}, {"op", "push"}, {"sink", sinkno++}, {"filter", gen_filter(r)}});
            if (r.chance(1, 4)) { ops.back()["file"] = true; }
        } else if (k < 4) {
            ops.push_back({{"t", 0}, {"op", "clear"}});
        } else if (k < 6 && depth < 3) {
            ops.push_back({{"t", 0}, {"op", "scope"}, {"how", r.chance(1, 2) ? 0 : (int)r.range(1, 5)}});
            if (ops.back()["how"] == 5) {
                ops.back()["sink"]   = sinkno++;
                ops.back()["filter"] = gen_filter(r);
                ops.back()["fail"]   = r.chance(1, 4);
            }
            gen_tree(r, ops, depth + 1, budget, sinkno);
            if (r.chance(1, 4)) {
                ops.push_back({{"t", 0}, {"op", "throw"}});
            } else {
                ops.push_back({{"t", 0}, {"op", "end"}});
            }
        } else if (k < 7 && depth > 0) {
            ops.push_back({{"t", 0}, {"op", "drop"}});
        } else if (k < 8) {
            ops.push_back({{"t", 0}, {"op", "last"}});
        } else {
            ops.push_back(gen_log_op(r, 0));
        }
    }
}

void c02_workload(Rng& r, Plan& p) {
    int nt              = (int)r.range(0, 2);
    p.params["threads"] = nt;
    int sinkno          = 0;
    int budget          = (int)r.range(4, 22);
    int base            = (int)r.range(1, 2);
    for (int i = 0; i < base; ++i) {
        p.ops.push_back({{"t", 0}, {"op", "push"}, {"sink", sinkno++}, {"filter", gen_filter(r)}});
    }
    p.params["base"] = base;
    gen_tree(r, p.ops, 0, budget, sinkno);
    for (int t = 1; t <= nt; ++t) {
        int n = (int)r.range(1, 5);
        for (int i = 0; i < n; ++i) { p.ops.push_back(gen_log_op(r, t)); }
    }
}

struct SinkModel {
    std::vector<Cap> caps;
    // filter and the epochs it was in force, at the ends perhaps next to another
    struct Filter {
        json   f;
        size_t from, to;
    };
    std::vector<Filter> filters;
    std::string         file; // of a file sink
    L::sink_ptr         ptr;
};

// sink handed out by the factory of a scope, or its failure
L::sink_ptr next_sink;
bool        next_fails = false;
struct Factory {
    L::sink_ptr operator()() {
        if (next_fails) { throw Boom{}; }
        return next_sink;
    }
};

struct Epoch {
    std::vector<int> sure, maybe; // sink numbers
};

struct C02 {
    Plan const&                  p;
    std::map<int, std::unique_ptr<SinkModel>> sinks;
    std::vector<int>             stack; // model of registered sinks
    std::vector<Epoch>           epochs;
    struct Sent {
        Expect e;
        size_t from, to;
        bool   failed = false; // the call threw
    };
    std::vector<Sent> sent;
    size_t            pos = 0;
    std::vector<json> main_ops;

    explicit C02(Plan const& p) : p(p) {
        epochs.push_back({});
        for (auto const& op : p.ops) {
            if (op["t"] == 0) { main_ops.push_back(op); }
        }
    }
    void begin(std::vector<int> const& next) {
        Quiet q;
        Epoch e;
        for (int s : stack) {
            if (std::count(next.begin(), next.end(), s)) { e.sure.push_back(s); }
            e.maybe.push_back(s);
        }
        for (int s : next) { e.maybe.push_back(s); }
        epochs.push_back(e);
    }
    void end(std::vector<int> const& next) {
        Quiet q;
        stack = next;
        Epoch e;
        e.sure = e.maybe = stack;
        epochs.push_back(e);
    }
    void log(json const& op, int t, int i) {
        Sent        s;
        std::string msg;
        {
            Quiet q;
            s.e    = expect_of(op, t, i, 0);
            s.from = epochs.size() - 1;
            msg    = full_msg(op, t, i);
        }
        try {
            FaultRegion region;
            do_log(op, msg);
        } catch (std::exception const& ex) {
            Quiet q;
            // only a log file that cannot be opened is a reason to fail
            if (fired_total() == 0) { violate("log-threw", "logging " + msg + " threw " + ex.what()); }
            s.failed = true;
            probe("log-call-failed");
        }
        Quiet q;
        s.to = epochs.size() - 1;
        sent.push_back(s);
        hist("logged " + token_of(t, i));
    }
    SinkModel* make(int n, json const& op) {
        auto m = std::make_unique<SinkModel>();
        if (op.value("file", false)) {
            m->file = "/sim/logs/s" + std::to_string(n) + ".txt";
            m->ptr  = L::init_file_sink(m->file);
        } else {
            m->ptr = make_capture(&m->caps);
        }
        set_filter(m->ptr, op["filter"]);
        Quiet q;
        m->filters.push_back({op["filter"], 0, size_t(-1)});
        auto* raw = m.get();
        sinks[n]  = std::move(m);
        return raw;
    }
    // runs operations until the end of the current scope
    void block(int depth, L::log_sink_scope* scope) {
        while (pos < main_ops.size()) {
            int         idx = (int)pos;
            json const& op  = main_ops[pos++];
            std::string k   = op["op"];
            if (k == "push") {
                int n = op["sink"];
                if (sinks.count(n)) { continue; }
                auto* raw  = make(n, op);
                auto  next = stack;
                next.push_back(n);
                begin(next);
                L::push_sink(raw->ptr);
                end(next);
            } else if (k == "again") {
                int n = op["sink"];
                if (!sinks.count(n)) { continue; }
                auto next = stack;
                next.push_back(n);
                begin(next);
                L::push_sink(sinks.at(n)->ptr);
                end(next);
            } else if (k == "filter") {
                int n = op["sink"];
                if (!sinks.count(n)) { continue; }
                auto* raw = sinks.at(n).get();
                begin(stack);
                {
                    Quiet q;
                    raw->filters.back().to = epochs.size() - 1;
                    raw->filters.push_back({op["filter"], epochs.size() - 1, size_t(-1)});
                }
                if (op["filter"].is_null()) {
                    L::set_sink_filter(raw->ptr, [](L::log_record const&) { return true; });
                } else {
                    set_filter(raw->ptr, op["filter"]);
                }
                end(stack);
            } else if (k == "clear") {
                if (depth == 0) { continue; } // base sinks stay
                begin({});
                L::clear_sink_backends();
                end({});
            } else if (k == "drop") {
                if (!scope) { continue; }
                begin({});
                scope->drop_current_sinks();
                end({});
            } else if (k == "last") {
                auto l = L::get_last_sink();
                bool ok = stack.empty() ? !l.has_value() : (l.has_value() && *l == sinks.at(stack.back())->ptr);
                if (!ok) { violate("last-sink", "the most recently pushed sink is not reported as the last one"); }
            } else if (k == "scope") {
                auto before = stack;
                try {
                    struct Closer {
                        C02*             self;
                        std::vector<int> before;
                        ~Closer() { self->begin(before); }
                    };
                    int how = op.value("how", 0);
                    if (how == 0) {
                        L::log_sink_scope s;
                        Closer            closer{this, before};
                        block(depth + 1, &s);
                    } else if (how == 1) { // handed over, the first owner dies last
                        L::log_sink_scope first;
                        auto              s = std::make_unique<L::log_sink_scope>(std::move(first));
                        Closer            closer{this, before};
                        block(depth + 1, s.get());
                    } else if (how == 2) { // handed over, the first owner dies before the scope ends
                        auto   first = std::make_unique<L::log_sink_scope>();
                        auto   s     = std::make_unique<L::log_sink_scope>(std::move(*first));
                        first.reset();
                        Closer closer{this, before};
                        block(depth + 1, s.get());
                    } else if (how == 3) { // handed over and back
                        L::log_sink_scope s;
                        L::log_sink_scope other{std::move(s)};
                        s = std::move(other);
                        Closer closer{this, before};
                        block(depth + 1, &s);
                    } else if (how == 5) { // with a sink of its own, whose construction may fail
                        int n = op["sink"];
                        if (sinks.count(n)) { continue; }
                        auto* raw  = make(n, op);
                        next_sink  = raw->ptr;
                        next_fails = op["fail"];
                        auto next  = before;
                        if (!next_fails) { next.push_back(n); }
                        begin(next);
                        std::optional<L::log_sink_scope> s;
                        try {
                            s.emplace(L::log_sink_scoped_factory<90100>(Factory{}));
                        } catch (Boom const&) {
                            probe("sink-construction-failed");
                            s.emplace();
                        }
                        next_sink = nullptr;
                        end(next);
                        Closer closer{this, before};
                        block(depth + 1, &*s);
                    } else { // kept in a container that moves its elements
                        std::vector<L::log_sink_scope> v;
                        v.emplace_back();
                        v.reserve(v.capacity() + 4);
                        Closer closer{this, before};
                        block(depth + 1, &v.front());
                    }
                } catch (Boom const&) { probe("scope-left-by-exception"); }
                end(before);
            } else if (k == "throw") {
                if (depth == 0) { continue; }
                throw Boom{};
            } else if (k == "end") {
                if (depth == 0) { continue; }
                return;
            } else if (k == "log") {
                log(op, 0, idx);
            }
        }
    }
    // what a file sink wrote, as far as the text tells
    void from_file(SinkModel& m) {
        std::string text;
        get_file(m.file, text);
        std::istringstream in(text);
        for (std::string line; std::getline(in, line);) {
            auto pos = line.find('<');
            if (pos == std::string::npos) { continue; }
            auto tk = parse_token(line.substr(pos));
            if (tk.first < 0) { continue; }
            for (auto const& s : sent) {
                auto const& e = s.e;
                if (e.thread != tk.first || e.index != tk.second) { continue; }
                auto first = e.msg.substr(0, e.msg.find('\n'));
                Cap  c{e.msg, e.cat, e.file, e.func, e.meta, e.line, e.sev};
                if (line.compare(pos, first.size(), first) != 0) { c.msg = line.substr(pos); }
                m.caps.push_back(c);
            }
        }
    }
    void check() {
        for (auto const& [n, m] : sinks) {
            std::string name = "sink s" + std::to_string(n) + (m->file.empty() ? "" : " (file)");
            if (!m->file.empty()) { from_file(*m); }
            std::map<std::pair<int, int>, int> seen;
            for (auto const& c : m->caps) {
                auto tk = parse_token(c.msg);
                ++seen[tk];
                bool known = false;
                for (auto const& s : sent) {
                    if (s.e.thread == tk.first && s.e.index == tk.second) {
                        known = true;
                        check_fields(name, c, s.e);
                    }
                }
                if (!known) { violate("record-unknown", name + " got " + show(c)); }
            }
            for (auto const& s : sent) {
                bool sure = !s.failed, maybe = false;
                for (size_t i = s.from; i <= s.to; ++i) {
                    auto const& e = epochs[i];
                    sure  = sure && std::count(e.sure.begin(), e.sure.end(), n);
                    maybe = maybe || std::count(e.maybe.begin(), e.maybe.end(), n);
                }
                bool all = true, any = false;
                for (auto const& f : m->filters) {
                    if (f.from > s.to || f.to < s.from) { continue; }
                    bool a = accepts(f.f, s.e);
                    all    = all && a;
                    any    = any || a;
                }
                int got = seen[{s.e.thread, s.e.index}];
                if (got > 1) { violate("record-duplicated", name + " got " + s.e.msg + " " + std::to_string(got) + " times"); }
                if (sure && all && got == 0) {
                    violate("sink-missed", name + " was registered all the time but never got " + s.e.msg);
                }
                if (got && !any) { violate("filter-ignored", name + " got a record its filter rejects: " + s.e.msg); }
                if (got && !maybe) { violate("sink-stale", name + " was not registered but got " + s.e.msg); }
            }
        }
    }
};

void c02_run(Plan const& p) {
    int nt = p.params["threads"];
    {
        Quiet q;
        L::clear_sink_backends();
    }
    C02 c(p);
    for (int t = 1; t <= nt; ++t) {
        spawn([&, t] {
            int i = 0;
            for (auto const& op : p.ops) {
                if (op["t"] == t) { c.log(op, t, i++); }
            }
        });
    }
    spawn([&] { c.block(0, nullptr); });
    join_all();
    Quiet q;
    L::clear_sink_backends();
    c.check();
    for (auto const& [n, m] : c.sinks) {
        for (auto const& x : m->caps) { hist("s" + std::to_string(n) + " " + show(x)); }
    }
}

void warm() {
    // initialise the logging core once, before the first simulated run
    L::clear_sink_backends();
    std::vector<Cap> c;
    L::push_sink(make_capture(&c));
    L::log_record{}.message("warm").line(1).file("x").function("y").end();
    L::clear_sink_backends();
}

struct Reg {
    Reg() {
        Scenario a;
        a.name     = "logger-concurrent";
        a.property = "C01";
        a.warmup   = warm;
        a.workload = c01_workload;
        a.run      = c01_run;
        a.preempt  = true;
        a.variants = 30;
        a.real     = {"src/hstd/ext/logger.cpp/.hpp (real)", "Boost.Log core, sinks, locks (real)", "log file on disk (real, scratch)"};
        a.stub     = {"thread scheduler (simulated)", "clock (simulated)"};
        register_scenario(a);
        Scenario b = a;
        b.name     = "logger-reconfigure";
        b.property = "C02";
        b.workload = c02_workload;
        b.run      = c02_run;
        b.menu     = {{"open", {"EACCES", "EMFILE", "ENOSPC", "EISDIR"}, 1}, {"mkdir", {"EACCES", "ENOSPC", "EROFS"}, 1}};
        b.max_faults = 2;
        register_scenario(b);
    }
} reg;
} // namespace
