// Evaluation of code blocks with a simulated evaluator.
#include "simkit.hpp"
#include "docgen.hpp"
#include <haxorg/api/EvalContext.hpp>
#include <haxorg/api/ParseContext.hpp>
#include <haxorg/api/SemBaseApi.hpp>
#include <optional>

using namespace sim;

namespace {
using Node = org::sem::SemId<org::sem::Org>;

void drop_keys(json& j, std::vector<char const*> const& keys) {
    if (j.is_object()) {
        for (auto k : keys) { j.erase(k); }
    }
    if (j.is_structured()) {
        for (auto& it : j) { drop_keys(it, keys); }
    }
}
std::string text_of(Node const& n, std::vector<char const*> const& keys) {
    json j = json::parse(org::exportToJsonString(n));
    drop_keys(j, keys);
    return j.dump();
}

/// variable of a block or a call: name, value, optional part of the value
std::string assignment(json const& v) {
    return v[0].get<std::string>() + "=" + v[1].get<std::string>() + (v.size() > 2 ? "[" + v[2].get<std::string>() + "]" : "");
}

/// part of a table: "rows" or "rows,cells", each "i", "i:j" or "*", negative numbers count from the end
json part_of(json const& rows, std::string const& part) {
    size_t      comma = part.find(',');
    std::string head = part.substr(0, comma), tail = comma == std::string::npos ? "" : part.substr(comma + 1);
    int         n = (int)rows.size(), a = 0, b = n - 1;
    if (head != "*") {
        size_t colon = head.find(':');
        a            = std::stoi(head.substr(0, colon));
        if (a < 0) { a += n; }
        b = colon == std::string::npos ? a : std::stoi(head.substr(colon + 1));
        if (b < 0) { b += n; }
    }
    json res = json::array();
    for (int i = a; i <= b; ++i) { res.push_back(tail.empty() ? rows.at(i) : part_of(rows.at(i), tail)); }
    return res;
}

/// one element of a document -> its text
std::string source(json const& op) {
    std::string k = op["k"], s, pad;
    if (k == "text") { return op["text"].get<std::string>() + "\n\n"; }
    if (k == "head") { return "* " + op["text"].get<std::string>() + "\n\n"; }
    std::string in = op.value("in", "");
    if (in == "list") {
        s   = "- item\n\n";
        pad = "  ";
    } else if (in == "quote") {
        s = "#+begin_quote\n";
    }
    auto line = [&](std::string const& t) { s += pad + t + "\n"; };
    if (op.contains("name")) { line("#+name: " + op["name"].get<std::string>()); }
    if (k == "table") {
        for (auto const& row : op["rows"]) {
            std::string t = "|";
            for (auto const& c : row) { t += " " + c.get<std::string>() + " |"; }
            line(t);
        }
    } else if (k == "block") {
        std::string h = "#+begin_src " + op.value("lang", "test");
        if (op.contains("results")) { h += " :results " + op["results"].get<std::string>(); }
        if (!op["vars"].empty()) {
            h += " :var";
            for (auto const& v : op["vars"]) { h += " " + assignment(v); }
        }
        line(h);
        std::string code = op["code"];
        for (size_t at = 0, end; at <= code.size(); at = end + 1) {
            end = std::min(code.find('\n', at), code.size());
            line(code.substr(at, end - at));
        }
        line("#+end_src");
    } else if (k == "call") {
        std::string a;
        for (auto const& v : op["vars"]) { a += (a.empty() ? "" : ", ") + assignment(v); }
        line("#+call: " + op["target"].get<std::string>() + "(" + a + ")");
    }
    if (in == "quote") { s += "#+end_quote\n"; }
    return s + "\n";
}

struct Output {
    std::string out, err;
    int         code = 0;
    std::string cmd; // command that was run
    json        rows; // the output as a table
};
struct Result {
    std::vector<Output> raw;
};

/// blocks and calls of a document in order
void collect(Node const& n, std::vector<Node>& out) {
    if (n->getKind() == OrgSemKind::BlockCode || n->getKind() == OrgSemKind::CmdCall) { out.push_back(n); }
    for (auto const& s : n->subnodes) { collect(s, out); }
}

void c14_run(Plan const& p) {
    std::optional<Quiet> q0(std::in_place);
    std::map<int, std::vector<json>> docs;
    for (auto const& op : p.ops) { docs[op["d"].get<int>()].push_back(op); }
    auto shared  = org::parse::ParseContext::shared();
    bool share   = p.params["share"];
    int  counter = 0;

    for (auto const& [d, ops] : docs) {
        std::string text;
        for (auto const& op : ops) { text += source(op); }
        auto                               ctx  = share ? shared : org::parse::ParseContext::shared();
        auto                               doc  = org::parse::ParseContext::shared()->parseString(text, "<doc>");
        std::vector<Node>                  before;
        collect(doc, before);
        std::vector<json> active; // elements that can be evaluated
        std::map<std::string, json> by_name;
        for (auto const& op : ops) {
            if (op["k"] == "block" || op["k"] == "call") { active.push_back(op); }
            if (op.contains("name")) { by_name[op["name"]] = op; }
        }
        if (before.size() != active.size()) { discard("document reads differently"); }

        // ---- model, advanced by the calls that really happen ----
        size_t                                next = 0; // element expected to be evaluated
        std::vector<std::vector<Result>>      results(active.size());
        std::map<std::string, size_t>         block_no;
        for (size_t i = 0; i < active.size(); ++i) {
            if (active[i]["k"] == "block" && active[i].contains("name")) { block_no[active[i]["name"]] = i; }
        }
        auto target_of = [&](size_t i) -> std::optional<size_t> {
            if (active[i]["k"] == "block") { return i; }
            auto it = block_no.find(active[i]["target"]);
            if (it == block_no.end()) { return std::nullopt; }
            return it->second;
        };
        auto skip_unknown = [&] {
            while (next < active.size() && !target_of(next)) { ++next; }
        };
        auto value_of = [&](json const& var) -> json {
            std::string v    = var[1];
            auto        part = [&](json const& rows) { return var.size() > 2 ? part_of(rows, var[2]) : rows; };
            auto        it   = by_name.find(v);
            if (it == by_name.end()) { return v; }
            if (it->second["k"] == "table") { return part(it->second["rows"]); }
            if (it->second["k"] == "block") {
                auto const& rs = results[block_no[v]];
                if (!rs.empty() && !rs.back().raw.back().rows.is_null()) { return part(rs.back().raw.back().rows); }
            }
            return v;
        };
        for (int round = 0; round < p.params["rounds"].get<int>(); ++round) {
            bool        thrown = false;
            std::string thrown_text, doc_text = text_of(doc, {"loc"});
            next = 0;

            org::OrgCodeEvalParameters conf{ctx};
            conf.currentFile = p.params["file"].get<std::string>();
            conf.evalBlock   = [&](org::sem::OrgCodeEvalInput const& in) -> hstd::Vec<org::sem::OrgCodeEvalOutput> {
                auto  f = fault_at("eval");
                Quiet q;
                skip_unknown();
                if (thrown) { violate("after-failure", "the evaluator is called after it has failed"); }
                if (next >= active.size()) { violate("extra-call", "evaluated '" + std::string(in.tangledCode) + "' again"); }
                size_t      me   = next++;
                size_t      to   = *target_of(me);
                std::string code = in.tangledCode;
                if (code != active[to]["code"].get<std::string>()) {
                    violate("wrong-call", "evaluated '" + code + "', expected '" + active[to]["code"].get<std::string>() + "'");
                }
                std::map<std::string, json> vars, got;
                for (auto const& v : active[to]["vars"]) { vars[v[0]] = value_of(v); }
                if (me != to) {
                    for (auto const& v : active[me]["vars"]) { vars[v[0]] = value_of(v); }
                }
                for (auto const& a : in.argList) { got[a.name] = json::parse(a.value.value->dump()); }
                if (got != vars) {
                    violate("wrong-arguments", "evaluated '" + code + "' with " + json(got).dump() + ", expected " + json(vars).dump());
                }
                if (std::string(in.language) != active[to].value("lang", "test")) {
                    violate("wrong-call", "evaluated '" + code + "' as '" + std::string(in.language) + "'");
                }
                using I          = org::sem::OrgCodeEvalInput;
                std::string want = " " + active[to].value("results", "") + " ";
                auto        says = [&](char const* w) { return want.find(std::string(" ") + w + " ") != std::string::npos; };
                if (in.resultType != (says("table") ? I::ResultType::Table : says("list") ? I::ResultType::List : I::ResultType::Scalar)
                    || in.resultFormat
                           != (says("raw")      ? I::ResultFormat::Raw
                               : says("drawer") ? I::ResultFormat::Drawer
                               : says("code")   ? I::ResultFormat::Code
                                                : I::ResultFormat::None)) {
                    violate("wrong-call", "evaluated '" + code + "' for another kind of result than '" + want + "'");
                }
                hist("eval " + code + " " + json(vars).dump());
                std::string kind = f ? f->kind : "";
                int         no   = ++counter;
                if (kind == "throw") {
                    thrown      = true;
                    thrown_text = "evaluator failure " + std::to_string(no);
                    throw std::runtime_error(thrown_text);
                }
                Result res;
                auto   add = [&] {
                    Output o;
                    std::string tag = std::to_string(no) + (res.raw.empty() ? "" : "b");
                    if (no % 3 == 0) { o.cmd = "cmd" + std::to_string(no); }
                    if (kind == "error" || kind == "failed") {
                        o.code = (int)(1 + no % 250);
                        o.err  = "error " + std::to_string(no);
                    }
                    if (kind == "silent" || kind == "failed") {
                    } else if (active[to]["out"] == "table") {
                        for (int i = 0; i < 2; ++i) {
                            json row = json::array();
                            row.push_back("r" + tag);
                            row.push_back("c" + std::to_string(i));
                            o.rows.push_back(row);
                            o.out += "| r" + tag + " | c" + std::to_string(i) + " |\n";
                        }
                    } else if (active[to]["out"] == "same") {
                        o.out = "same";
                    } else {
                        o.out = "out" + tag;
                    }
                    res.raw.push_back(o);
                };
                if (kind != "empty") { add(); }
                if (kind == "two") { add(); }
                hstd::Vec<org::sem::OrgCodeEvalOutput> out;
                for (auto const& o : res.raw) {
                    org::sem::OrgCodeEvalOutput x;
                    x.stdoutText = hstd::Str(o.out);
                    x.stderrText = hstd::Str(o.err);
                    x.code       = o.code;
                    if (!o.cmd.empty()) {
                        x.cmd  = hstd::Str(o.cmd);
                        x.cwd  = hstd::Str("/dir " + o.cmd);
                        x.args = {hstd::Str("-a"), hstd::Str(o.cmd)};
                    }
                    out.push_back(x);
                }
                if (!res.raw.empty()) {
                    auto& rs = results[me];
                    if (says("append")) {
                        rs.push_back(res);
                    } else if (says("prepend")) {
                        rs.insert(rs.begin(), res);
                    } else if (!says("silent") && !says("none") && !says("discard")) {
                        rs = {res};
                    }
                }
                return out;
            };

            std::optional<Node> ev;
            std::string         err;
            {
                q0.reset();
                FaultRegion fr;
                try {
                    ev = org::evaluateCodeBlocks(doc, conf);
                } catch (std::exception const& ex) {
                    Quiet q;
                    err = ex.what();
                    if (err.empty()) { err = "?"; }
                }
                q0.emplace();
            }
            if (text_of(doc, {"loc"}) != doc_text) { violate("modified", "the document passed in was changed"); }
            if (thrown) {
                if (ev) { violate("swallowed", "the evaluator failed, the evaluation did not"); }
                if (err != thrown_text) { violate("wrong-error", "reported '" + err.substr(0, 300) + "' instead of '" + thrown_text + "'"); }
                hist("failed as the evaluator did");
                probe("evaluator threw");
                break;
            }
            if (!ev) { violate("wrong-error", "evaluation failed: " + err.substr(0, 400)); }
            skip_unknown();
            if (next != active.size()) { violate("missing-call", "element " + std::to_string(next) + " was not evaluated"); }
            std::vector<Node> after;
            collect(*ev, after);
            if (after.size() != active.size()) { violate("lost", "blocks disappeared"); }
            for (size_t i = 0; i < after.size(); ++i) {
                auto        rs    = after[i]->getKind() == OrgSemKind::BlockCode ? after[i].as<org::sem::BlockCode>()->result
                                                                                 : after[i].as<org::sem::CmdCall>()->result;
                std::string where = "element " + std::to_string(i);
                if (rs.size() != results[i].size()) {
                    violate("wrong-result", where + " has " + std::to_string(rs.size()) + " results instead of " + std::to_string(results[i].size()));
                }
                for (size_t r = 0; r < (size_t)rs.size(); ++r) {
                    auto const& raw  = rs.at(r)->raw;
                    auto const& want = results[i][r].raw;
                    if ((size_t)raw.size() != want.size()) { violate("wrong-result", where + " has another number of outputs"); }
                    for (size_t o = 0; o < want.size(); ++o) {
                        if (std::string(raw.at(o).stdoutText) != want[o].out || std::string(raw.at(o).stderrText) != want[o].err
                            || raw.at(o).code != want[o].code || std::string(raw.at(o).cmd.value_or("")) != want[o].cmd
                            || (!want[o].cmd.empty() && std::string(raw.at(o).cwd) != "/dir " + want[o].cmd)
                            || (size_t)raw.at(o).args.size() != (want[o].cmd.empty() ? 0 : 2)
                            || (!want[o].cmd.empty() && std::string(raw.at(o).args.at(1)) != want[o].cmd)) {
                            violate("wrong-result", where + " has '" + std::string(raw.at(o).stdoutText) + "', code " + std::to_string(raw.at(o).code)
                                                        + " instead of '" + want[o].out + "', code " + std::to_string(want[o].code));
                        }
                    }
                    auto parsed = org::parse::ParseContext::shared()->parseString(want.back().out, "<out>");
                    std::string a, b;
                    for (auto const& s : parsed->subnodes) { a += text_of(s, {"loc"}); }
                    for (auto const& s : rs.at(r)->node->subnodes) { b += text_of(s, {"loc"}); }
                    if (a != b) { violate("wrong-result", where + " holds the parsed output " + b.substr(0, 200) + " instead of " + a.substr(0, 200)); }
                }
                if (!rs.empty()) { probe("results stored"); }
            }
            if (text_of(*ev, {"loc", "result"}) != text_of(doc, {"loc", "result"})) {
                violate("modified", "the evaluated document differs in more than the results");
            }
            hist("evaluated");
            if (round > 0) { probe("evaluated again"); }
            doc = *ev;
        }
    }
}

void c14_workload(Rng& r, Plan& p) {
    p.params["share"]  = r.chance(1, 2);
    p.params["file"]   = r.chance(1, 2) ? "a.org" : "";
    p.params["rounds"] = r.chance(1, 3) ? 2 : 1;
    bool parts         = r.chance(1, 2);
    int nd             = (int)r.range(1, 3);
    for (int d = 0; d < nd; ++d) {
        std::vector<std::string> names, blocks;
        int                      n = (int)r.range(1, 7), fresh = 0;
        auto                     vars = [&](bool call) {
            json vs = json::array();
            for (int i = 0, m = (int)r.below(3); i < m; ++i) {
                std::string v = names.empty() || r.chance(1, 2) ? "v" + std::to_string(r.below(5)) : names[r.below(names.size())];
                vs.push_back(json::array({"x" + std::to_string(i + (call ? 1 : 0)), v}));
                // every table here has two columns and at least one row, a result two rows
                static char const* part[] = {"0", "-1", "*", "0:-1", "0,1", "*,0", "0,0:1", "-1,-1", "0:0", "*,*"};
                if (parts && !v.empty() && v[0] == 'n' && r.chance(1, 3)) { vs.back().push_back(part[r.below(10)]); }
            }
            return vs;
        };
        static char const* in[]  = {"", "", "", "list", "quote"};
        static char const* how[] = {"replace", "append", "prepend", "silent", "none", "discard", "table"};
        static char const* out[] = {"text", "text", "table", "same"};
        for (int i = 0; i < n; ++i) {
            json op = {{"d", d}};
            switch (r.below(10)) {
                case 0:
                    op["k"]    = "text";
                    op["text"] = "alpha " + std::to_string(r.below(3));
                    break;
                case 1:
                    op["k"]    = "head";
                    op["text"] = "head " + std::to_string(i);
                    break;
                case 2: {
                    op["k"]    = "table";
                    op["rows"] = json::array();
                    for (int a = 0, m = (int)r.range(1, 3); a < m; ++a) {
                        op["rows"].push_back(json::array({"a" + std::to_string(r.below(9)), "b" + std::to_string(r.below(9))}));
                    }
                    op["name"] = std::string("n") + (char)('a' + fresh++);
                    names.push_back(op["name"]);
                    break;
                }
                case 3:
                case 4:
                    op["k"]      = "call";
                    op["target"] = blocks.empty() || r.chance(1, 6) ? "unknown" : blocks[r.below(blocks.size())];
                    op["vars"]   = vars(true);
                    break;
                default:
                    op["k"]    = "block";
                    op["code"] = r.chance(1, 3) ? "same code" : "code " + std::to_string(i);
                    for (int l = 0, m = r.chance(1, 3) ? (int)r.range(1, 3) : 0; l < m; ++l) {
                        op["code"] = op["code"].get<std::string>() + "\nline " + std::to_string(r.below(3));
                    }
                    if (r.chance(1, 3)) { op["lang"] = r.chance(1, 2) ? "python" : "sh"; }
                    op["vars"] = vars(false);
                    op["out"]  = out[r.below(4)];
                    op["in"]   = in[r.below(5)];
                    if (r.chance(1, 2)) { op["results"] = how[r.below(7)]; }
                    static char const* more[] = {"table", "list", "raw", "drawer", "code", "scalar"};
                    if (op.contains("results") && op["results"] != "table" && r.chance(1, 3)) {
                        std::string a = op["results"], b = more[r.below(6)];
                        op["results"] = r.chance(1, 2) ? a + " " + b : b + " " + a;
                    }
                    // names of elements inside of lists are read differently
                    if (op["in"] != "list" && r.chance(2, 3)) {
                        op["name"] = std::string("n") + (char)('a' + fresh++);
                        names.push_back(op["name"]);
                        blocks.push_back(op["name"]);
                    }
            }
            p.ops.push_back(op);
            // a call in front of other text belongs to that text
            if (op["k"] == "call" && !r.chance(1, 8)) {
                p.ops.push_back({{"d", d}, {"k", "head"}, {"text", "head " + std::to_string(i)}});
            }
        }
    }
}

struct Register {
    Register() {
        Scenario s;
        s.name       = "eval-blocks";
        s.property   = "C14";
        s.workload   = c14_workload;
        s.run        = c14_run;
        s.menu       = {{"eval", {"throw", "error", "failed", "empty", "silent", "two"}, 4},
                        {"open", {"EACCES", "EROFS", "EMFILE"}, 1},
                        {"write", {"ENOSPC", "EIO"}, 1}};
        s.max_faults = 4;
        s.variants   = 10;
        s.real       = {"code block evaluation, immutable store, parser"};
        s.stub       = {"evaluator", "file system", "parser combinator library (lexy)"};
        register_scenario(s);
    }
} register_;
} // namespace
