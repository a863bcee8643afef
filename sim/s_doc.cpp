// Whole documents: parsed, converted, formatted, exported.
#include "simkit.hpp"
#include "docgen.hpp"
#include <haxorg/api/ParseContext.hpp>
#include <haxorg/api/SemBaseApi.hpp>
#include <haxorg/exporters/ExporterUltraplain.hpp>
#include <haxorg/imm/ImmOrg.hpp>
#include <haxorg/imm/ImmOrgAdapter.hpp>
#include <haxorg/sem/SemOrgFormat.hpp>
#include <haxorg/exporters/exportertree.hpp>
#include <functional>
#include <optional>
#include <set>
#include <unistd.h>

using namespace sim;

namespace {
using Node = org::sem::SemId<org::sem::Org>;

char const* kOuts[] = {"format", "json", "yaml", "tree", "plain", "imm", "track"};

org::OrgTreeExportOpts tree_opts() {
    org::OrgTreeExportOpts o;
    o.withOriginalId = false;
    o.withColor      = false;
    return o;
}

/// numbers of the sources in a parse context are not part of the document
std::string without_ids(std::string const& s) {
    std::string res;
    for (size_t i = 0; i < s.size(); ++i) {
        res += s[i];
        if (res.ends_with(" Id(")) {
            while (i + 1 < s.size() && isdigit(s[i + 1])) { ++i; }
        }
    }
    return res;
}

std::string render(Node const& node, std::string const& out) {
    if (out == "format") { return org::formatToString(node); }
    if (out == "json") { return org::exportToJsonString(node); }
    if (out == "yaml") { return org::exportToYamlString(node, org::OrgYamlExportOpts{.skipNullFields = true, .skipFalseFields = true}); }
    if (out == "tree") { return org::exportToTreeString(node, tree_opts()); }
    if (out == "plain") { return org::algo::ExporterUltraplain::toStr(node); }
    if (out == "imm") {
        auto store = org::initImmutableAstContext();
        auto v     = store->addRoot(node);
        return org::formatToString(org::imm::sem_from_immer(v.getRoot(), *v.context));
    }
    hstd::Vec<Node> nodes;
    nodes.push_back(node);
    auto        map = org::getAstTrackingMap(nodes);
    std::string s;
    for (auto const& g : org::getSubnodeGroups(node, map)) { s += std::to_string((int)g.getKind()); }
    return s + " " + std::to_string(map.subtrees.size()) + " " + std::to_string(map.names.size()) + " "
         + std::to_string(map.footnotes.size());
}

struct Job {
    std::string              text;
    std::vector<std::string> outs;
    bool                     comments = false; // document taken from the comments of a program
};

Node parse(Job const& job, std::shared_ptr<org::parse::ParseContext> const& ctx, std::string const& name) {
    if (!job.comments) { return ctx->parseString(job.text, name); }
    auto opts          = org::parse::OrgParseParameters::shared();
    opts->getFragments = [](std::string const& text) {
        return org::parse::extractCommentBlocks(text, hstd::Vec<std::string>{"///", "//!"});
    };
    return ctx->parseStringOpts(job.text, name, opts);
}

std::map<int, Job> jobs_of(Plan const& p) {
    std::map<int, Job> jobs;
    for (auto const& [k, v] : p.params["outs"].items()) { jobs[std::stoi(k)].outs = v.get<std::vector<std::string>>(); }
    for (auto const& op : p.ops) {
        Job&        j    = jobs[op["t"].get<int>()];
        std::string text = op["text"];
        j.comments       = p.params["comments"].contains(std::to_string(op["t"].get<int>()));
        if (j.comments) {
            std::string out;
            for (size_t i = 0; i < text.size();) {
                size_t e = text.find('\n', i);
                out += "    /// " + text.substr(i, e - i) + "\n";
                i = e == std::string::npos ? text.size() : e + 1;
            }
            text = out + "int code();\n";
        }
        j.text += text;
    }
    return jobs;
}

/// everything a user sees of one document
std::vector<std::string> process(Job const& job, int t) {
    std::vector<std::string> res;
    try {
        auto ctx  = org::parse::ParseContext::shared();
        auto node = parse(job, ctx, "<doc" + std::to_string(t) + ">");
        for (auto const& o : job.outs) {
            try {
                res.push_back(render(node, o));
            } catch (std::exception const& e) { res.push_back(std::string("render failed: ") + e.what()); }
        }
    } catch (std::exception const& e) { res.push_back(std::string("parse failed: ") + e.what()); }
    return res;
}

std::string diff_at(std::string const& a, std::string const& b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) { ++i; }
    size_t from = i > 30 ? i - 30 : 0;
    return "at " + std::to_string(i) + ": ..." + a.substr(from, 80) + "... against ..." + b.substr(from, 80) + "...";
}

// ------------------------------------------------------------------- C03 ----
void c03_workload(Rng& r, Plan& p) {
    int nt              = (int)r.range(2, 3);
    p.params["comments"] = json::object();
    p.params["threads"] = nt;
    p.params["first"]   = r.below(3); // when the documents are processed alone
    for (int t = 1; t <= nt; ++t) {
        json outs = json::array();
        for (auto o : kOuts) {
            if (r.chance(1, 3)) { outs.push_back(o); }
        }
        if (outs.empty()) { outs.push_back("format"); }
        p.params["outs"][std::to_string(t)] = outs;
        if (r.chance(1, 6)) { p.params["comments"][std::to_string(t)] = 1; }
        int level = 0, n = (int)r.range(1, 4);
        for (int i = 0; i < n; ++i) { p.ops.push_back({{"t", t}, {"text", docgen::block(r, level)}}); }
    }
}

void c03_run(Plan const& p) {
    std::map<int, Job>                      jobs;
    std::map<int, std::vector<std::string>> alone, got;
    auto do_alone = [&] {
        Quiet q;
        for (auto const& [t, j] : jobs) { alone[t] = process(j, t); }
    };
    {
        Quiet q;
        jobs = jobs_of(p);
        for (auto const& [t, j] : jobs) { got[t]; }
    }
    if (p.params["first"] == 0) { do_alone(); }
    for (auto const& it : jobs) {
        spawn([&, t = it.first] {
            auto res = process(jobs.at(t), t);
            Quiet q;
            got[t] = res;
            hist("done " + std::to_string(t));
        });
    }
    join_all();
    if (p.params["first"] != 0) { do_alone(); }
    Quiet q;
    for (auto const& [t, j] : jobs) {
        for (auto const& s : alone[t]) {
            hist(s);
            if (s.find("failed: ") != std::string::npos) { probe("failing document"); }
        }
        if (got[t].size() != alone[t].size()) {
            violate("different", "document " + std::to_string(t) + " failed in one case: "
                                     + (got[t].empty() ? "" : got[t].back().substr(0, 400)) + " | alone "
                                     + (alone[t].empty() ? "" : alone[t].back().substr(0, 400)));
        }
        for (size_t i = 0; i < got[t].size(); ++i) {
            if (got[t][i] != alone[t][i]) {
                violate("different", "document " + std::to_string(t) + ", " + (i < j.outs.size() ? j.outs[i] : "") + " "
                                         + diff_at(got[t][i], alone[t][i]));
            }
        }
    }
}

// ------------------------------------------------------------------- C12 ----
void c12_workload(Rng& r, Plan& p) {
    p.params["comments"] = json::object();
    json outs = json::array();
    for (std::string o : kOuts) {
        // the JSON library itself allocates in destructors
        if (o != "json" && r.chance(1, 4)) { outs.push_back(o); }
    }
    p.params["outs"]["1"] = outs;
    if (r.chance(1, 6)) { p.params["comments"]["1"] = 1; }
    int level = 0, n = (int)r.range(1, 4);
    for (int i = 0; i < n; ++i) { p.ops.push_back({{"t", 1}, {"text", docgen::block(r, level)}}); }
}

void c12_run(Plan const& p) {
    Quiet q0;
    Job   job = jobs_of(p)[1];
    auto  ctx = org::parse::ParseContext::shared();
    auto  want_node = parse(job, ctx, "<expected>");
    std::map<std::string, std::string> want;
    auto check_all = [&](Node const& n, char const* when) {
        for (auto const& [o, w] : want) {
            std::string g = without_ids(render(n, o));
            if (g != w) { violate("different", std::string(when) + ", " + o + " " + diff_at(g, w)); }
        }
    };
    want["format"] = render(want_node, "format");
    for (auto const& o : job.outs) { want[o] = without_ids(render(want_node, o)); }
    for (auto const& [o, w] : want) { hist(w); }

    auto        parser = org::parse::ParseContext::shared();
    Node        node   = Node::Nil();
    std::string name   = "<doc>";
    // an operation under failing allocations: nullopt if it ran out of memory
    auto attempt = [&](std::string const& what, auto&& fn) {
        i64  before = fired("alloc");
        bool done   = false;
        try {
            AllocRegion a;
            fn();
            done = true;
        } catch (std::bad_alloc const&) { hist(what + " ran out of memory"); } catch (std::exception const& e) {
            violate("wrong-error", what + " failed with " + std::string(e.what()).substr(0, 400));
        } catch (...) { violate("wrong-error", what + " failed with an unknown exception"); }
        if (!done && fired("alloc") == before) { violate("wrong-error", what + " ran out of memory without reason"); }
        if (done && fired("alloc") != before) { probe("failure absorbed"); }
        return done;
    };
    for (int i = 0;; ++i) {
        std::optional<Node> n;
        if (attempt("parse", [&] { n = parse(job, parser, name); })) {
            node = *n;
            break;
        }
        if (i > 4) { violate("no-recovery", "parsing keeps failing"); }
    }
    check_all(node, "after parsing");
    for (auto const& o : job.outs) {
        for (int i = 0;; ++i) {
            std::string g;
            if (attempt(o, [&] { g = render(node, o); })) {
                g = without_ids(g);
                if (g != want[o]) { violate("different", o + " " + diff_at(g, want[o])); }
                break;
            }
            if (i > 4) { violate("no-recovery", o + " keeps failing"); }
        }
        check_all(node, ("after " + o).c_str());
    }
    check_all(want_node, "the other document");
}

// -------------------------------------------------------------- C04, C05 ----
struct Prepared {
    std::string                        text;
    Node                               node = Node::Nil();
    std::map<std::string, std::string> want;
};
std::vector<Prepared> g_docs;
char const*           kExports[] = {"json", "yaml", "tree", "treerepr"};

/// absolute targets are virtual paths
void link_to(std::string const& target, std::string const& path) {
    if (::symlink(target.c_str(), path.c_str()) != 0) { discard("symlink"); }
}

/// documents every run finds parsed, from a few bytes to several buffers
void prepare_docs() {
    Rng r(20240607);
    for (int n : {0, 1, 2, 3, 5, 8, 14}) {
        Prepared d;
        int      level = 0;
        for (int i = 0; i < n; ++i) { d.text += docgen::block(r, level); }
        auto ctx = org::parse::ParseContext::shared();
        d.node   = ctx->parseString(d.text, "<prepared>");
        for (std::string e : kExports) {
            d.want[e] = e == "treerepr" ? org::algo::ExporterTree::treeRepr(d.node).toString(false) : render(d.node, e);
        }
        g_docs.push_back(d);
    }
}

void c04_workload(Rng& r, Plan& p) {
    int n = (int)r.range(1, 5);
    for (int i = 0; i < n; ++i) {
        static char const* paths[] = {"/sim/a.txt", "/sim/a.txt", "/sim/b.txt", "/sim/d/c.txt", "/sim/link.txt", "/sim/d", "/sim/none/x.txt"};
        p.ops.push_back({{"how", kExports[r.below(4)]}, {"path", paths[r.below(7)]}, {"doc", r.below(7)}});
    }
    p.params["pre"] = r.below(3);
}

void c04_run(Plan const& p) {
    {
        Quiet q;
        put_file("/sim/d/keep.txt", "kept");
        put_file("/sim/target.txt", "old");
        link_to("/sim/target.txt", "/sim/link.txt");
        if (p.params["pre"] != 0) { put_file("/sim/a.txt", std::string(p.params["pre"] == 1 ? 10 : 400000, 'q')); }
    }
    for (auto const& op : p.ops) {
        std::string     path = op["path"], how = op["how"];
        Prepared const& d         = g_docs.at(op["doc"].get<size_t>());
        bool            must_fail = path == "/sim/d" || path == "/sim/none/x.txt";
        i64             before    = fired_total();
        std::string     error;
        try {
            FaultRegion f;
            if (how == "json") {
                org::exportToJsonFile(d.node, path);
            } else if (how == "yaml") {
                org::exportToYamlFile(d.node, path, org::OrgYamlExportOpts{.skipNullFields = true, .skipFalseFields = true});
            } else if (how == "tree") {
                org::exportToTreeFile(d.node, path, tree_opts());
            } else {
                org::algo::ExporterTree::treeRepr(d.node, std::filesystem::path{path});
            }
        } catch (std::exception const& e) { error = std::string("!") + e.what(); }
        Quiet       q;
        std::string got;
        bool        have = get_file(path, got);
        hist(how + " " + path + (error.empty() ? " ok" : " threw"));
        if (error.empty()) {
            auto const& want = d.want.at(how);
            if (!have || got != want) {
                violate("write-lost", how + " export to " + path + " returned normally, the file "
                                          + (have ? "has " + std::to_string(got.size()) + " of " + std::to_string(want.size()) + " bytes, " + diff_at(got, want)
                                                  : "does not exist"));
            }
        } else if (fired_total() == before && !must_fail) {
            violate("write-refused", how + " export to " + path + " failed without a reason: " + error);
        }
        if (!get_file("/sim/d/keep.txt", got) || got != "kept") { violate("other-file", "another file changed"); }
    }
}

void c05_workload(Rng& r, Plan& p) {
    int n = (int)r.range(1, 3);
    for (int i = 0; i < n; ++i) {
        int k = (int)r.below(12);
        p.ops.push_back({{"how", r.below(3)}, {"kind", k < 9 ? "file" : k < 10 ? "link" : k < 11 ? "dir" : "missing"}, {"doc", r.below(7)}, {"pad", r.chance(1, 3) ? r.range(3900, 8300) : 0}});
    }
}

void c05_run(Plan const& p) {
    int  i   = 0;
    auto ctx = org::parse::ParseContext::shared();
    for (auto const& op : p.ops) {
        std::string kind = op["kind"], path = "/sim/f" + std::to_string(i++) + ".org", text, want;
        {
            Quiet q;
            // a long comment in front puts the document across a buffer boundary
            text = g_docs.at(op["doc"].get<size_t>()).text;
            if (op["pad"].get<int>()) { text = "# " + std::string(op["pad"].get<size_t>(), 'c') + "\n\n" + text; }
            if (kind == "file") {
                put_file(path, text);
            } else if (kind == "link") {
                put_file(path + ".real", text);
                link_to(path + ".real", path);
            } else if (kind == "dir") {
                put_file(path + "/x", "y");
            }
            if (kind == "file" || kind == "link") { want = render(org::parse::ParseContext::shared()->parseString(text, "<want>"), "format"); }
        }
        auto        before = fired_map();
        std::string error;
        Node        node = Node::Nil();
        try {
            FaultRegion f;
            if (op["how"] == 0) {
                node = ctx->parseFile(path);
            } else if (op["how"] == 1) {
                node = ctx->parseFileOpts(path, org::parse::OrgParseParameters::shared());
            } else {
                node = ctx->parseFileWithIncludes(path, org::parse::OrgDirectoryParseParameters::shared());
            }
        } catch (std::exception const& e) { error = std::string("!") + e.what(); }
        Quiet q;
        bool  hard = false;
        for (auto const& [k, v] : fired_map()) {
            if (k != "read:short" && k != "read:EINTR" && v > before[k]) { hard = true; }
        }
        hist("parse " + kind + (error.empty() ? " ok" : " threw"));
        if (error.empty()) {
            if (kind == "dir" || kind == "missing") { violate("read-nothing", "parsing a " + kind + " did not fail"); }
            if (op["how"] == 2) {
                if (node->subnodes.size() != 1) { violate("read-nothing", "parsing a file gave no document"); }
                node = node->subnodes.at(0);
            }
            std::string got = render(node, "format");
            if (got != want) { violate("read-partial", "document differs from the file's, " + diff_at(got, want)); }
            std::string const& stored = ctx->source->getContentTextForPath(path);
            if (stored != text) { violate("read-partial", "registered source differs from the file's, " + diff_at(stored, text)); }
        } else if ((kind == "file" || kind == "link") && !hard) {
            violate("read-refused", "parsing a readable file failed: " + error);
        }
    }
}

// ------------------------------------------------------------------- C07 ----
char const* kPlaces[] = {"root", "root/d0", "root/d1", "root/d0/d2", "root/d0/d2/d3", "out", "out/e0"};

void c07_workload(Rng& r, Plan& p) {
    static char const* calls[] = {"dir", "dir", "dir", "dir-rel", "dir-slash", "file"};
    p.params["call"]      = calls[r.below(6)];
    p.params["dir_order"] = r.below(1u << 30);
    std::vector<std::string> orgs, others, links;
    auto place = [&](int n) { return std::string(kPlaces[r.below((u64)n)]); };
    int  nd = (int)r.below(4), nf = (int)r.range(1, 5);
    for (int i = 0; i < nd; ++i) { p.ops.push_back({{"op", "dir"}, {"path", place(7)}}); }
    int spread = (int)r.range(1, 7);
    for (int i = 0; i < nf; ++i) {
        std::string path = (i == 0 ? std::string("root") : place(spread)) + "/f" + std::to_string(i) + (r.chance(1, 8) ? ".ORG" : ".org");
        orgs.push_back(path);
        p.ops.push_back({{"op", "file"}, {"path", path}});
    }
    for (int i = (int)r.below(3); i > 0; --i) {
        std::string path = place(spread) + "/t" + std::to_string(i) + ".txt";
        others.push_back(path);
        p.ops.push_back({{"op", "text"}, {"path", path}, {"lines", r.chance(1, 4) ? r.range(300, 1500) : r.range(0, 3)}});
    }
    if (r.chance(1, 4)) { // names the caller does not want
        static char const* names[] = {"d0", "d1", "d2", "e0", "f1.org", "f2.org", "f3.org", "l1", "l2.org"};
        p.params["skip"]           = json::array();
        for (int i = (int)r.range(1, 3); i > 0; --i) { p.params["skip"].push_back(names[r.below(9)]); }
    }
    int mode = (int)r.below(4); // which kinds of references there are
    if (mode == 1 || mode == 3) {
        for (int i = (int)r.range(1, 4); i > 0; --i) {
            std::string path = place(7) + "/l" + std::to_string(i) + (r.chance(1, 2) ? ".org" : ""), to;
            u64         k    = r.below(8);
            if (k < 3) { to = kPlaces[r.below(7)]; } else if (k < 6) { to = r.pick(orgs); } else if (k < 7 && !links.empty()) { to = r.pick(links); } else { to = "root/none"; }
            links.push_back(path);
            p.ops.push_back({{"op", "link"}, {"path", path}, {"to", to}, {"style", r.below(3)}});
        }
    }
    if (mode >= 2) {
        for (int i = (int)r.range(1, 5); i > 0; --i) {
            std::string to;
            u64         k    = r.below(8);
            std::string kind = "org";
            if (k < 6 || others.empty()) {
                to = r.pick(orgs);
            } else if (k < 7) {
                to = r.pick(others);
            } else {
                to = "root/none.org";
            }
            static char const* kinds[] = {"src", "example", "export", "custom"};
            if (r.chance(1, 4)) { kind = kinds[r.below(4)]; }
            p.ops.push_back({{"op", r.chance(2, 3) ? "include" : "filelink"}, {"in", r.pick(orgs)}, {"to", to}, {"style", r.below(3)}, {"kind", kind}});
        }
    }
}

std::string dir_of(std::string const& path) {
    auto k = path.rfind('/');
    return k == std::string::npos ? "" : path.substr(0, k);
}
std::string base_of(std::string const& path) { return path.substr(path.rfind('/') + 1); }

/// how `to` is written inside directory `from`: absolute, relative, with detours
std::string spell(std::string const& from, std::string const& to, int style) {
    if (style == 0) { return "/sim/" + to; }
    std::string up;
    std::string d = from;
    while (!d.empty() && to.rfind(d + "/", 0) != 0) {
        up += "../";
        d = dir_of(d);
    }
    std::string rest = up + (d.empty() ? to : to.substr(d.size() + 1));
    if (style == 1) { return rest; }
    return "../" + base_of(from) + "/" + rest;
}

struct Ref {
    bool        link;
    std::string to, kind;
};

/// reference: what is on the disk, and what has to be found
struct Disk {
    std::map<std::string, std::string>      links; // path -> target (paths relative to /sim)
    std::set<std::string>                   dirs;
    std::map<std::string, std::string>      files; // path -> content
    std::map<std::string, std::vector<Ref>> refs;
    std::set<std::string>                   skip; // names that are not wanted

    /// path with every link in it followed; empty if it leads nowhere
    std::string real(std::string const& path, int depth = 0) const {
        if (depth > 20) { return "!loop"; }
        std::string cur, part;
        std::vector<std::string> parts;
        for (size_t i = 0; i <= path.size(); ++i) {
            if (i == path.size() || path[i] == '/') {
                if (!part.empty() && part != ".") { parts.push_back(part); }
                part.clear();
            } else {
                part += path[i];
            }
        }
        for (size_t i = 0; i < parts.size(); ++i) {
            if (parts[i] == "..") {
                cur = dir_of(cur);
                continue;
            }
            std::string next = cur.empty() ? parts[i] : cur + "/" + parts[i];
            if (auto l = links.find(next); l != links.end()) {
                std::string rest = l->second;
                for (size_t k = i + 1; k < parts.size(); ++k) { rest += "/" + parts[k]; }
                return real(rest, depth + 1);
            }
            if (!dirs.count(next) && !files.count(next)) { return ""; }
            cur = next;
        }
        return cur;
    }
    std::vector<std::string> entries(std::string const& d) const {
        std::vector<std::string> out;
        auto                     add = [&](std::string const& x) {
            if (x != d && dir_of(x) == d) { out.push_back(x); }
        };
        for (auto const& x : dirs) { add(x); }
        for (auto const& [x, _] : files) { add(x); }
        for (auto const& [x, _] : links) { add(x); }
        return out;
    }
};

struct Found {
    std::set<std::string> files, dirs, links;
    bool                  loop = false;
};

void explore(Disk const& d, std::string const& path, Found& f) {
    // an entry is identified by its real directory and its name
    if (d.skip.count(base_of(path))) {
    } else if (d.links.count(path)) {
        if (!f.links.insert(path).second) { return; }
        std::string t = d.real(path);
        if (t == "!loop") {
            f.loop = true;
            return;
        }
        if (t.empty()) {
            f.links.erase(path);
            return;
        }
        std::string first = d.links.at(path), fd = d.real(dir_of(first));
        explore(d, fd.empty() ? base_of(first) : fd + "/" + base_of(first), f);
    } else if (d.dirs.count(path)) {
        if (!f.dirs.insert(path).second) { return; }
        for (auto const& e : d.entries(path)) { explore(d, e, f); }
    } else if (d.files.count(path) && path.size() > 4 && (path.substr(path.size() - 4) == ".org" || path.substr(path.size() - 4) == ".ORG")) {
        if (!f.files.insert(path).second) { return; }
        if (auto it = d.refs.find(path); it != d.refs.end()) {
            for (auto const& r : it->second) {
                if (!r.link && r.kind == "org" && !d.real(r.to).empty()) { explore(d, r.to, f); }
            }
        }
    }
}

Disk make_disk(Plan const& p) {
    Disk d;
    auto add_dir = [&](std::string x) {
        while (!x.empty()) {
            d.dirs.insert(x);
            x = dir_of(x);
        }
    };
    add_dir("root");
    add_dir("out");
    std::map<std::string, std::string> body;
    for (auto const& op : p.ops) {
        std::string k = op["op"];
        if (k == "dir") { add_dir(op["path"]); }
        if (k == "file" || k == "text") {
            std::string path = op["path"];
            add_dir(dir_of(path));
            if (k == "file") {
                d.files[path] = "* marker " + base_of(path).substr(0, base_of(path).size() - 4) + "\n\n";
            } else {
                std::string c;
                for (int i = 0; i < op["lines"].get<int>(); ++i) { c += "line" + std::to_string(i) + "\n"; }
                d.files[path] = c;
            }
        }
    }
    for (auto const& op : p.ops) {
        std::string k = op["op"];
        if (k == "link") {
            std::string path = op["path"];
            if (d.files.count(path) || d.dirs.count(path)) { continue; }
            add_dir(dir_of(path));
            d.links[path] = op["to"];
        }
        if ((k == "include" || k == "filelink") && d.files.count(op["in"].get<std::string>())) {
            std::string in = op["in"], to = op["to"], s = spell(dir_of(in), to, op["style"]), kind = op["kind"];
            d.refs[in].push_back({k == "filelink", to, kind});
            if (k == "include") {
                d.files[in] += "#+include: \"" + s + "\"" + (kind == "org" ? "" : kind == "custom" ? " other" : kind == "example" ? " example" : " " + kind + " cpp") + "\n\n";
            } else {
                d.files[in] += "[[file:" + s + "]]\n\n";
            }
        }
    }
    return d;
}

std::string node_kind(Node const& n) { return std::to_string((int)n->getKind()); }

void c07_run(Plan const& p) {
    Quiet q0;
    Disk  d = make_disk(p);
    for (auto const& x : d.dirs) {
        put_file("/sim/" + x + "/.keep", "");
        remove_path("/sim/" + x + "/.keep");
    }
    for (auto const& [x, c] : d.files) { put_file("/sim/" + x, c); }
    std::set<std::string> linked;
    for (auto const& op : p.ops) {
        if (op["op"] != "link" || !d.links.count(op["path"].get<std::string>())) { continue; }
        std::string path = op["path"];
        if (!linked.insert(path).second) { continue; }
        link_to(spell(dir_of(path), op["to"], op["style"]), "/sim/" + path);
    }
    for (auto& [path, to] : d.links) { // the last one with a name wins in the model, the first on disk
        for (auto const& op : p.ops) {
            if (op["op"] == "link" && op["path"] == path) {
                to = op["to"];
                break;
            }
        }
    }
    std::string call = p.params["call"], start = "root";
    if (call == "file") {
        start = "";
        for (auto const& op : p.ops) {
            if (op["op"] == "file") {
                start = op["path"];
                break;
            }
        }
        if (start.empty()) { discard("no file"); }
    }
    auto opts = org::parse::OrgDirectoryParseParameters::shared();
    if (p.params.contains("skip")) {
        for (auto const& n : p.params["skip"]) { d.skip.insert(n.get<std::string>()); }
        d.skip.erase(base_of(start));
        opts->shouldProcessPath = [&](std::string const& path) {
            Quiet q;
            return d.skip.count(base_of(path)) == 0;
        };
        probe("unwanted names");
    }
    Found want;
    explore(d, start, want);

    auto                ctx = org::parse::ParseContext::shared();
    std::string         error;
    std::optional<Node> tree;
    auto                before = fired_map();
    try {
        FaultRegion f;
        if (call == "file") {
            tree = ctx->parseFileWithIncludes("/sim/" + start, opts);
        } else {
            std::string path = call == "dir" ? "/sim/root" : call == "dir-rel" ? "root" : "/sim/root/";
            auto        res  = opts->shouldProcessPath ? ctx->parseDirectoryOpts(path, opts) : ctx->parseDirectory(path);
            if (res) { tree = *res; }
        }
    } catch (std::exception const& e) { error = std::string("!") + e.what(); }
    bool hard = false;
    for (auto const& [k, v] : fired_map()) {
        if (k != "read:short" && k != "read:EINTR" && v > before[k]) { hard = true; }
    }
    hist(call + (error.empty() ? " ok" : " threw"));
    if (want.loop) { probe("endless links"); }
    if (!error.empty()) {
        if (!hard && !want.loop) { violate("parse-refused", "parsing failed without a reason: " + error.substr(0, 500)); }
        return;
    }
    if (!tree) { violate("nothing", "no result"); }

    auto rel = [&](std::string abs) {
        if (abs.rfind("/sim/", 0) != 0) { violate("bad-path", "node has the path '" + abs + "'"); }
        if (abs.back() == '/') { abs.pop_back(); }
        std::string r = d.real(dir_of(abs.substr(5)));
        return (r.empty() ? "" : r + "/") + base_of(abs);
    };
    std::map<std::string, int> files, dirs;
    std::multiset<std::string> links, want_links;
    std::function<void(Node const&, std::string const&, bool)> walk = [&](Node const& n, std::string const& in, bool plain) {
        std::string here = in;
        if (auto f = n.asOpt<org::sem::File>()) {
            if (f->subnodes.empty()) { return; } // target of a link
            here = rel(f->absPath.toBase());
            ++files[here];
            if (!d.files.count(here)) { violate("unknown-file", "result has the file " + here); }
            std::string title;
            for (auto const& s : f->subnodes.at(0)->subnodes) {
                if (auto t = s.asOpt<org::sem::Subtree>()) {
                    title = org::formatToString(t->title.asOrg());
                    break;
                }
            }
            std::string mark = "marker " + base_of(here).substr(0, base_of(here).size() - 4);
            if (title.find(mark) == std::string::npos) { violate("wrong-content", "file " + here + " has the content of another one: " + title); }
            if (plain && call == "dir" && "root/" + f->relPath.toBase() != here) { violate("bad-path", "file " + here + " has the relative path " + f->relPath.toBase()); }
            // references, in order
            std::vector<Node> refs;
            std::function<void(Node const&)> collect = [&](Node const& x) {
                if (x.asOpt<org::sem::CmdInclude>() || x.asOpt<org::sem::Link>()) {
                    refs.push_back(x);
                    return;
                }
                for (auto const& s : x->subnodes) { collect(s); }
            };
            collect(f->subnodes.at(0));
            auto const& have = d.refs[here];
            if (refs.size() != have.size()) { violate("references", "file " + here + " has " + std::to_string(refs.size()) + " references instead of " + std::to_string(have.size())); }
            for (size_t i = 0; i < refs.size(); ++i) {
                Node const& x      = refs[i];
                auto const& ref    = have[i];
                std::string target = d.real(ref.to);
                std::string where  = "reference " + std::to_string(i) + " of " + here + " to " + ref.to;
                if (ref.link) {
                    if (x->subnodes.size() != (target.empty() ? 0 : 1)) { violate("references", where + " has " + std::to_string(x->subnodes.size()) + " targets"); }
                    if (!target.empty()) {
                        auto tf = x->subnodes.at(0).asOpt<org::sem::File>();
                        if (!tf || d.real(tf->absPath.toBase().substr(5)) != target) { violate("references", where + " has another target"); }
                    }
                    continue;
                }
                if (target.empty()) {
                    size_t own = ref.kind == "src" || ref.kind == "example" || ref.kind == "export" ? 1 : 0;
                    if (x->subnodes.size() != own + 1 || !x->subnodes.at(own).asOpt<org::sem::ErrorItem>()) { violate("references", where + " is not reported once"); }
                } else if (ref.kind == "org") {
                    if (x->subnodes.size() > 1) { violate("references", where + " is there " + std::to_string(x->subnodes.size()) + " times"); }
                    for (auto const& s : x->subnodes) {
                        if (!s.asOpt<org::sem::File>()) { violate("references", where + " has something else"); }
                    }
                } else if (ref.kind != "custom") {
                    if (x->subnodes.size() != 1) { violate("references", where + " has " + std::to_string(x->subnodes.size()) + " blocks"); }
                    std::string got, content = d.files.at(target);
                    auto        b = x->subnodes.at(0);
                    if (ref.kind == "src") {
                        for (auto const& l : b.as<org::sem::BlockCode>()->lines) {
                            for (auto const& part : l.parts) { got += part.getRaw().code.toBase(); }
                            got += "\n";
                        }
                    } else if (ref.kind == "example") {
                        for (auto const& s : b->subnodes) { got += s.as<org::sem::RawText>()->text.toBase() + "\n"; }
                    } else {
                        got = b.as<org::sem::BlockExport>()->content.toBase();
                    }
                    if (got != content && got != content + "\n") { violate("wrong-content", where + " has [" + got + "] instead of [" + content + "]"); }
                }
            }
        } else if (auto dir = n.asOpt<org::sem::Directory>()) {
            std::string x = rel(dir->absPath.toBase());
            ++dirs[x];
            if (plain && call == "dir" && x != "root" && "root/" + dir->relPath.toBase() != x) { violate("bad-path", "directory " + x + " has the relative path " + dir->relPath.toBase()); }
        } else if (auto sym = n.asOpt<org::sem::Symlink>()) {
            std::string x = sym->absPath.toBase();
            if (x.rfind("/sim/", 0) != 0) { violate("bad-path", "link has the target '" + x + "'"); }
            links.insert((sym->isDirectory ? "dir " : "file in ") + d.real(x.substr(5)));
            plain = false;
        }
        if (n.asOpt<org::sem::CmdInclude>()) { plain = false; }
        for (auto const& s : n->subnodes) { walk(s, here, plain); }
    };
    walk(*tree, "", true);
    for (auto const& l : want.links) {
        std::string t = d.real(l), first = d.links.at(l);
        want_links.insert(d.dirs.count(t) ? "dir " + t : "file in " + d.real(dir_of(first)));
    }
    auto compare = [&](char const* what, std::set<std::string> const& w, std::map<std::string, int> const& g) {
        for (auto const& x : w) {
            auto it = g.find(x);
            if (it == g.end()) { violate("left-out", std::string(what) + " " + x + " is not in the result"); }
            if (it->second != 1) { violate("repeated", std::string(what) + " " + x + " is in the result " + std::to_string(it->second) + " times"); }
        }
        for (auto const& [x, _] : g) {
            if (!w.count(x)) { violate("unknown", std::string(what) + " " + x + " should not be in the result"); }
        }
    };
    compare("file", want.files, files);
    compare("directory", want.dirs, dirs);
    if (links != want_links) {
        std::string m;
        for (auto const& x : want_links) { m += " " + x + ","; }
        m += " got";
        for (auto const& x : links) { m += " " + x + ","; }
        violate("links", "expected links to" + m);
    }
    for (auto const& [x, n] : files) { hist(x); }
    if (!want.links.empty()) { probe("links followed"); }
    if (files.size() > 1) { probe("several files"); }
}

struct Register {
    Register() {
        {
            Scenario s;
            s.name     = "doc-export";
            s.property = "C04";
            s.warmup   = prepare_docs;
            s.workload = c04_workload;
            s.run      = c04_run;
            s.menu     = {{"open", {"EACCES", "EMFILE", "ENOSPC", "EINTR", "EROFS"}, 1},
                          {"write", {"EIO", "ENOSPC", "EINTR", "short", "EDQUOT"}, 4},
                          {"close", {"EIO", "lost", "lost"}, 2},
                          {"capacity", {"full"}, 2}};
            s.variants = 12;
            s.real     = {"haxorg exporters and file writing", "libstdc++ streams", "kernel file system (scratch directory)"};
            s.stub     = {"results of open/write/close calls (fault-injected)", "parser combinator library (lexy)"};
            register_scenario(s);
            s.name     = "doc-parse-file";
            s.property = "C05";
            s.workload = c05_workload;
            s.run      = c05_run;
            s.menu     = {{"open", {"EACCES", "EMFILE", "EIO"}, 1}, {"read", {"EIO", "EINTR", "short", "short", "ESTALE"}, 4}, {"close", {"EIO"}, 1}, {"stat", {"EACCES", "EIO"}, 1}};
            s.variants = 6;
            s.real     = {"haxorg file parsing", "libstdc++ streams", "kernel file system (scratch directory)"};
            register_scenario(s);
            s.name     = "dir-parse";
            s.property = "C07";
            s.warmup   = nullptr;
            s.workload = c07_workload;
            s.run      = c07_run;
            s.menu     = {{"open", {"EACCES", "EMFILE", "EIO"}, 1},
                          {"read", {"EIO", "EINTR", "short", "ESTALE"}, 2},
                          {"opendir", {"EACCES", "EMFILE"}, 2},
                          {"readdir", {"EIO"}, 2},
                          {"readlink", {"EIO", "EACCES"}, 1},
                          {"stat", {"EACCES", "EIO"}, 2}};
            s.vary     = [](Rng& r, Plan& p, json const&) { p.params["dir_order"] = r.below(1u << 30); };
            s.variants = 6;
            s.real     = {"haxorg directory parsing, include and link resolution, parser", "std::filesystem", "kernel file system (scratch directory)"};
            s.stub     = {"directory listing order", "results of file calls (fault-injected)", "parser combinator library (lexy)"};
            register_scenario(s);
        }
        {
            Scenario s;
            s.name       = "doc-memory";
            s.property   = "C12";
            s.workload   = c12_workload;
            s.run        = c12_run;
            s.menu       = {{"alloc", {"fail"}, 1}};
            s.max_faults = 3;
            s.variants   = 20;
            s.real       = {"haxorg parser, converter, formatter, exporters, immutable store"};
            s.stub       = {"memory allocation", "parser combinator library (lexy)"};
            register_scenario(s);
        }
        {
            Scenario s;
            s.name     = "doc-parallel";
            s.property = "C03";
            s.workload = c03_workload;
            s.run      = c03_run;
            s.preempt  = true;
            s.variants = 8;
            s.real     = {"haxorg parser, converter, formatter, exporters, immutable store"};
            s.stub     = {"thread scheduler", "parser combinator library (lexy)"};
            register_scenario(s);
        }
    }
} register_;
} // namespace
