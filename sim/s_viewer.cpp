// The viewer's cache of file times and its loading of documents.
#include "simkit.hpp"
#include "docgen.hpp"
#include <app/org_viewer/shared_org_logic.hpp>
#include <optional>

using namespace sim;

namespace {
void drop_keys(json& j, std::vector<char const*> const& keys) {
    if (j.is_object()) {
        for (auto k : keys) { j.erase(k); }
    }
    if (j.is_structured()) {
        for (auto& it : j) { drop_keys(it, keys); }
    }
}
std::string text_of(org::sem::SemId<org::sem::Org> const& n) {
    json j = json::parse(org::exportToJsonString(n));
    drop_keys(j, {"loc"});
    return j.dump();
}

using Times = std::map<std::string, i64>;

struct World {
    Times                              times; // all files
    std::map<std::string, std::string> text;
    std::string                        mode;
};

/// the files the cache is about, with their times
Times watched(World const& w) {
    Times res;
    for (auto const& [f, t] : w.times) {
        bool org = f.size() > 4 && f.substr(f.size() - 4) == ".org";
        if (w.mode == "file" || w.mode == "link-file") {
            if (f == "a.org") { res[f] = t; }
        } else if (org && f.find('/') == std::string::npos) {
            res[f] = t;
        }
    }
    return res;
}

enum class Same { Yes, No, Close };
Same compare(Times const& a, Times const& b) {
    if (a.size() != b.size()) { return Same::No; }
    bool close = false;
    for (auto const& [f, t] : a) {
        auto it = b.find(f);
        if (it == b.end() || std::abs(it->second - t) >= 1'000'000) { return Same::No; }
        if (it->second != t) { close = true; }
    }
    return close ? Same::Close : Same::Yes;
}

/// kinds of faults that do not excuse an error
bool hard_faults(std::map<std::string, i64> const& before) {
    for (auto const& [k, v] : fired_map()) {
        auto it = before.find(k);
        if (k == "read:short" || k == "read:EINTR" || k == "write:short" || k == "write:EINTR" || k.starts_with("clock:")) { continue; }
        if (v > (it == before.end() ? 0 : it->second)) { return true; }
    }
    return false;
}

void c11_run(Plan const& p) {
    std::optional<Quiet> q(std::in_place);
    World                w;
    w.mode = p.params["mode"];
    std::string in =
        w.mode == "dir" ? "/sim/notes" : w.mode == "dir-rel" ? "notes" : w.mode == "file" ? "/sim/notes/a.org" : "/sim/in";
    std::string cache = "/sim/cache/times.json";
    auto        put   = [&](std::string const& f, std::string const& text) {
        put_file("/sim/notes/" + f, text);
        w.times[f] = now_ns();
        w.text[f]  = text;
    };
    put_file("/sim/cache/.keep", "");
    put_file("/sim/notes/.keep", "");
    put("a.org", "alpha\n");
    if (w.mode == "link-dir") { make_link("notes", "/sim/in"); }
    if (w.mode == "link-file") { make_link("notes/a.org", "/sim/in"); }

    // what the cache can hold: nothing at first, several after a failed write
    std::vector<std::optional<Times>> held = {std::nullopt};
    bool                              damaged = false, locked = false;
    for (auto const& op : p.ops) {
        std::string k = op["k"], f = op.value("f", "");
        advance_ns(op["dt"].get<i64>());
        if (k == "edit") {
            put(f, op["text"]);
        } else if (k == "touch") {
            if (w.text.count(f)) { put(f, std::string(w.text[f])); }
        } else if (k == "delete") {
            if (f != "a.org" && w.text.count(f)) {
                remove_path("/sim/notes/" + f);
                w.text.erase(f);
                w.times.erase(f);
            }
        } else if (k == "lock") { // editors leave links that lead nowhere
            if (!locked) { make_link("someone@host.1234", "/sim/notes/.#a.org"); }
            locked = true;
        } else if (k == "forget") {
            if (exists(cache)) { remove_path(cache); }
            held    = {std::nullopt};
            damaged = false;
        } else if (k == "write") {
            auto before = fired_map();
            bool ok     = true;
            std::string err;
            q.reset();
            try {
                FaultRegion fr;
                writeOrgFileCache(in, cache);
            } catch (std::exception const& ex) {
                Quiet q1;
                ok  = false;
                err = ex.what();
            }
            q.emplace();
            bool hard = hard_faults(before);
            hist(std::string("write ") + (ok ? "ok" : "failed"));
            if (ok) {
                held    = {watched(w)};
                damaged = false;
                probe("cache written");
            } else {
                if (!hard) { violate("refused", "the cache was not written without a reason: " + err); }
                held.push_back(watched(w));
                damaged = true;
                probe("cache write failed");
            }
        } else if (k == "check") {
            auto                before = fired_map();
            std::optional<bool> ans;
            std::string         err;
            q.reset();
            try {
                FaultRegion fr;
                ans = checkOrgFilesChanged(in, cache);
            } catch (std::exception const& ex) {
                Quiet q1;
                err = ex.what();
            }
            q.emplace();
            bool hard = hard_faults(before);
            if (!ans) {
                hist("check failed");
                if (!hard && !damaged) { violate("refused", "the check failed without a reason: " + err); }
                continue;
            }
            hist(*ans ? "changed" : "unchanged");
            bool may_same = false, may_differ = damaged;
            for (auto const& h : held) {
                if (!h) {
                    may_differ = true;
                    continue;
                }
                auto c = compare(*h, watched(w));
                if (c != Same::No) { may_same = true; }
                if (c != Same::Yes) { may_differ = true; }
            }
            if (*ans && !may_differ) { violate("false-change", "unchanged files are reported as changed"); }
            if (!*ans && !may_same) { violate("missed-change", "changed files are reported as unchanged"); }
            probe(*ans ? "changed" : "unchanged");
        } else if (k == "load") {
            auto        before = fired_map();
            std::string err;
            std::optional<org::sem::SemId<org::sem::Org>> doc;
            q.reset();
            try {
                FaultRegion fr;
                doc = loadCachedImmNode(in, org::parse::ParseContext::shared());
            } catch (std::exception const& ex) {
                Quiet q1;
                err = ex.what();
                if (err.empty()) { err = "?"; }
            }
            q.emplace();
            bool hard = hard_faults(before);
            hist(doc ? "loaded" : "load failed");
            if (!doc) {
                if (!hard) { violate("refused", "loading failed without a reason: " + err.substr(0, 400)); }
                continue;
            }
            auto want = org::parse::ParseContext::shared()->parseDirectoryOpts(in, org::parse::OrgDirectoryParseParameters::shared());
            if (!want) { violate("refused", "nothing to compare with"); }
            std::string a = text_of(*doc), b = text_of(*want);
            if (a != b) { violate("wrong-document", "the loaded document is " + a.substr(0, 300) + " instead of " + b.substr(0, 300)); }
            probe("loaded");
        }
    }
}

void c11_workload(Rng& r, Plan& p) {
    static char const* modes[] = {"dir", "dir", "dir-rel", "file", "link-dir", "link-file"};
    static char const* files[] = {"a.org", "b.org", "c.org", "d.txt", "sub/e.org", "org"};
    static i64         dts[]   = {0, 1'000, 2'000'000, 700'000'000, 5'000'000'000, 86'400'000'000'000};
    p.params["mode"]           = modes[r.below(6)];
    p.params["clock0"]         = 1'700'000'000'000'000'000ll + r.range(0, 2'000'000'000);
    int n = (int)r.range(2, 14);
    for (int i = 0; i < n; ++i) {
        json op = {{"dt", dts[r.below(6)]}, {"f", files[r.below(6)]}};
        switch (r.below(10)) {
            case 0:
            case 1:
                op["k"]    = "edit";
                op["text"] = "* head " + std::to_string(i) + "\n\nbody " + std::to_string(r.below(100)) + "\n";
                break;
            case 2: op["k"] = "touch"; break;
            case 3: op["k"] = r.chance(1, 4) ? "lock" : "delete"; break;
            case 4:
            case 5: op["k"] = "write"; break;
            case 6: op["k"] = r.chance(1, 4) ? "forget" : "load"; break;
            default: op["k"] = "check";
        }
        p.ops.push_back(op);
    }
}

struct Register {
    Register() {
        Scenario s;
        s.name       = "viewer-cache";
        s.property   = "C11";
        s.workload   = c11_workload;
        s.run        = c11_run;
        s.menu       = {{"clock", {"jump", "step"}, 4},
                        {"open", {"EACCES", "EMFILE", "EIO"}, 2},
                        {"read", {"EIO", "EINTR", "short"}, 2},
                        {"write", {"ENOSPC", "EIO", "EINTR", "short"}, 2},
                        {"close", {"EIO"}, 1},
                        {"stat", {"EACCES", "EIO"}, 2},
                        {"opendir", {"EACCES", "EMFILE"}, 1},
                        {"readdir", {"EIO"}, 1}};
        s.max_faults = 3;
        s.variants   = 10;
        s.real       = {"viewer cache and loading, directory parsing, file reading and writing"};
        s.stub       = {"file system", "clock", "parser combinator library (lexy)"};
        register_scenario(s);
    }
} register_;
} // namespace
