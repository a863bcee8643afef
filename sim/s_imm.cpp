// Versions of immutable documents: edits that succeed, fail and are thrown away.
#include <functional>
#include "simkit.hpp"
#include "docgen.hpp"
#include <haxorg/api/ParseContext.hpp>
#include <haxorg/api/SemBaseApi.hpp>
#include <haxorg/imm/ImmOrg.hpp>
#include <haxorg/imm/ImmOrgAdapter.hpp>
#include <haxorg/imm/ImmOrgEdit.hpp>
#include <optional>

using namespace sim;

namespace {
namespace imm = org::imm;
using Node    = org::sem::SemId<org::sem::Org>;
using Path    = std::vector<int>;

/// places in the source are not part of a stored node
void drop_places(json& j) {
    if (j.is_object()) { j.erase("loc"); }
    if (j.is_structured()) {
        for (auto& it : j) { drop_places(it); }
    }
}

std::string text_of(Node const& n) {
    json j = json::parse(org::exportToJsonString(n));
    drop_places(j);
    return j.dump();
}

std::string versus(std::string const& a, std::string const& b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) { ++i; }
    size_t from = i > 60 ? i - 60 : 0;
    return "..." + a.substr(from, 200) + "... instead of ..." + b.substr(from, 200) + "...";
}
std::string text_of(imm::ImmAstVersion const& v) { return text_of(imm::sem_from_immer(v.getRoot(), *v.context)); }

/// answers to look-ups by name, as text
std::string lookups(imm::ImmAstVersion const& v, bool ids = false) {
    std::map<std::string, std::string> all;
    auto const&                        t   = *v.context->currentTrack;
    auto                               add = [&](char const* what, auto const& m) {
        for (auto const& [k, id] : m) {
            all[std::string(what) + " " + std::string(k)] = ids || id.isNil() ? id.getReadableId() : text_of(imm::sem_from_immer(id, *v.context));
        }
    };
    add("footnote", t.footnotes);
    add("subtree", t.subtrees);
    add("anchor", t.anchorTargets);
    add("name", t.names);
    add("custom", t.customIds);
    std::string s;
    for (auto const& [k, txt] : all) { s += k + " = " + txt + "\n"; }
    return s;
}

/// everything a user can ask about one version
std::string fingerprint(imm::ImmAstVersion const& v) {
    std::string s = v.getRoot().getReadableId() + "\n" + text_of(v) + lookups(v, true);
    std::function<void(imm::ImmAdapter const&)> walk = [&](imm::ImmAdapter const& a) {
        s += a.id.getReadableId() + " in";
        std::set<std::string> ps;
        for (auto const& p : v.context->getParentIds(a.id)) { ps.insert(p.getReadableId()); }
        for (auto const& p : ps) { s += " " + p; }
        if (v.context->at(a.path) != a.id) { s += " but another node is there"; }
        s += "\n";
        for (auto const& sub : a.sub()) { walk(sub); }
    };
    walk(v.getRootAdapter());
    return s;
}

/// nodes reached by child positions
void collect(Node const& n, Path& at, std::vector<std::pair<Path, Node>>& out) {
    out.push_back({at, n});
    for (size_t i = 0; i < n->subnodes.size(); ++i) {
        at.push_back((int)i);
        collect(n->subnodes.at(i), at, out);
        at.pop_back();
    }
}

struct Edit {
    std::string kind, text;
    Path        node, other; // child positions
    int         a = 0, b = 0;
    bool        structural = false;
};

imm::ImmAdapter at(imm::ImmAdapter const& root, Path const& p) {
    imm::ImmAdapter res = root;
    for (int i : p) { res = res.at(i); }
    return res;
}

Node new_word(std::string const& text) {
    auto w  = org::sem::SemId<org::sem::Word>::New();
    w->text = hstd::Str(text);
    return w.asOrg();
}
Node new_paragraph(std::string const& text) {
    auto p = org::sem::SemId<org::sem::Paragraph>::New();
    p->subnodes.push_back(new_word(text));
    return p.asOrg();
}

void callback_fault(char const* where) {
    if (auto f = fault_at("callback")) {
        (void)f;
        throw std::runtime_error(where);
    }
}

/// the edit itself, on the immutable document
imm::ImmAstReplaceGroup edit_imm(imm::ImmAdapter const& root, Edit const& e, imm::ImmAstContext::Ptr const& ast, imm::ImmAstEditContext& ctx, Node const& fresh) {
    callback_fault("before the edit");
    auto                    node = at(root, e.node);
    imm::ImmAstReplaceGroup res;
    if (e.kind == "word") {
        res.incl(imm::ImmAstReplaceGroup{ctx.store().updateNode<imm::ImmWord>(node, ctx, [&](imm::ImmWord w) {
            w.text = hstd::Str(e.text);
            return w;
        })});
    } else if (e.kind == "subtree") {
        res.incl(imm::ImmAstReplaceGroup{ctx.store().updateNode<imm::ImmSubtree>(node, ctx, [&](imm::ImmSubtree t) {
            t.level = e.a;
            return t;
        })});
    } else if (e.kind == "insert-new") {
        auto id = ast->add(fresh, ctx);
        callback_fault("after adding a node");
        res.incl(imm::ImmAstReplaceGroup{imm::insertSubnode(node, id, e.a, ctx)});
    } else if (e.kind == "insert-shared") {
        res.incl(imm::ImmAstReplaceGroup{imm::insertSubnode(node, at(root, e.other).id, e.a, ctx)});
    } else if (e.kind == "insert-many") {
        auto              id = ast->add(fresh, ctx);
        hstd::Vec<imm::ImmId> ids;
        ids.push_back(id);
        ids.push_back(at(root, e.other).id);
        res.incl(imm::ImmAstReplaceGroup{imm::insertSubnodes(node, ids, e.a, ctx)});
    } else if (e.kind == "append") {
        auto id = ast->add(fresh, ctx);
        res.incl(imm::ImmAstReplaceGroup{imm::appendSubnode(node, id, ctx)});
    } else if (e.kind == "set") {
        auto id = ast->add(fresh, ctx);
        callback_fault("after adding a node");
        res.incl(imm::ImmAstReplaceGroup{imm::setSubnode(node, id, e.a, ctx)});
    } else if (e.kind == "drop") {
        res.incl(imm::ImmAstReplaceGroup{imm::dropSubnode(node, e.a, ctx)});
    } else if (e.kind == "drop-id") {
        res.incl(imm::ImmAstReplaceGroup{imm::dropSubnode(node, node.at(e.a).id, ctx)});
    } else if (e.kind == "drop-alien") {
        res.incl(imm::ImmAstReplaceGroup{imm::dropSubnode(node, root.id, ctx)});
    } else if (e.kind == "move-far") {
        res.incl(imm::ImmAstReplaceGroup{imm::moveSubnode(node, e.a, e.b, ctx, false)});
    } else if (e.kind == "move-out") {
        res.incl(imm::ImmAstReplaceGroup{imm::moveSubnode(node, e.a, e.b, ctx)});
    } else if (e.kind == "pop") {
        res.incl(imm::ImmAstReplaceGroup{imm::popSubnode(node, e.a, ctx).first});
    } else if (e.kind == "swap") {
        res.incl(imm::ImmAstReplaceGroup{imm::swapSubnode(node, e.a, e.b, ctx)});
    } else if (e.kind == "move") {
        res.incl(imm::ImmAstReplaceGroup{imm::moveSubnode(node, e.a, e.b - e.a, ctx)});
    } else if (e.kind == "replace") {
        auto id = ast->add(fresh, ctx);
        res.incl(imm::ImmAstReplaceGroup{imm::replaceNode(node, id, ctx)});
    } else if (e.kind == "replace-two") {
        auto id = ast->add(fresh, ctx);
        res.incl(imm::ImmAstReplaceGroup{imm::replaceNode(node, id, ctx)});
        callback_fault("between two replacements");
        res.incl(imm::ImmAstReplaceGroup{imm::replaceNode(at(root, e.other), id, ctx)});
    } else if (e.kind == "demote") {
        res = imm::demoteSubtree(node, e.a == 0 ? imm::SubtreeMove::Physical : e.a == 1 ? imm::SubtreeMove::ForceLevels : imm::SubtreeMove::EnsureLevels, ctx);
    }
    callback_fault("after the edit");
    return res;
}

Node at(Node n, Path const& p) {
    for (int i : p) { n = n->subnodes.at(i); }
    return n;
}

/// the same edit on an ordinary document, false if it has no simple meaning
bool edit_model(Node& root, Node const& spare, Edit const& e) {
    auto  node  = at(root, e.node);
    auto& sub   = node->subnodes;
    auto  fresh = [&] { return e.kind == "append" || e.b % 2 == 0 ? new_paragraph(e.text) : new_word(e.text); };
    auto  put   = [&](int pos, Node const& n) { sub.insert(sub.begin() + pos, n); };
    auto  copy  = [&](Path const& p) { return at(spare, p); };
    if (e.kind == "word") {
        node.as<org::sem::Word>()->text = hstd::Str(e.text);
    } else if (e.kind == "subtree") {
        node.as<org::sem::Subtree>()->level = e.a;
    } else if (e.kind == "insert-new") {
        put(e.a, fresh());
    } else if (e.kind == "insert-shared") {
        put(e.a, copy(e.other));
    } else if (e.kind == "insert-many") {
        auto o = copy(e.other);
        put(e.a, o);
        put(e.a, fresh());
    } else if (e.kind == "append") {
        sub.push_back(fresh());
    } else if (e.kind == "set") {
        sub.at(e.a) = fresh();
    } else if (e.kind == "drop" || e.kind == "pop") {
        sub.erase(sub.begin() + e.a);
    } else if (e.kind == "drop-id") { // the first one of equal nodes, which the text cannot tell apart
        for (int i = 0; i < e.a; ++i) {
            if (text_of(sub.at(i)) == text_of(sub.at(e.a))) { return false; }
        }
        sub.erase(sub.begin() + e.a);
    } else if (e.kind == "move-far") {
        auto x = sub.at(e.a);
        sub.erase(sub.begin() + e.a);
        put(e.b < 0 ? 0 : (int)sub.size(), x);
    } else if (e.kind == "swap") {
        auto x = sub.at(e.a), y = sub.at(e.b);
        sub.at(e.a) = y;
        sub.at(e.b) = x;
    } else if (e.kind == "move") {
        auto x = sub.at(e.a);
        sub.erase(sub.begin() + e.a);
        put(e.b, x);
    } else if (e.kind == "replace" || e.kind == "replace-two") {
        auto replace = [&](Path p) {
            int last = p.back();
            p.pop_back();
            at(root, p)->subnodes.at(last) = fresh();
        };
        replace(e.node);
        if (e.kind == "replace-two") { replace(e.other); }
    } else if (e.kind == "demote" && e.a != 0) {
        // everything below moves one level down, a heading before it may adopt it
        Path up = e.node;
        up.pop_back();
        auto& row  = at(root, up)->subnodes;
        int   here = e.node.back();
        // equal headings are one node of the store: which of them is meant is not defined
        std::vector<std::string>         seen;
        std::function<bool(Node const&)> unique = [&](Node const& x) {
            if (x->getKind() == OrgSemKind::Subtree) {
                auto t = text_of(x);
                if (std::find(seen.begin(), seen.end(), t) != seen.end()) { return false; }
                seen.push_back(t);
            }
            for (auto const& y : x->subnodes) {
                if (!unique(y)) { return false; }
            }
            return true;
        };
        if (!unique(root)) { return false; }
        probe("demoted with a model");
        std::function<void(Node const&)> down = [&](Node const& x) {
            if (x->getKind() == OrgSemKind::Subtree) { x.as<org::sem::Subtree>()->level += 1; }
            for (auto const& y : x->subnodes) { down(y); }
        };
        down(node);
        if (here > 0 && row.at(here - 1)->getKind() == OrgSemKind::Subtree) {
            auto before = row.at(here - 1);
            if (before.as<org::sem::Subtree>()->level < node.as<org::sem::Subtree>()->level) {
                row.erase(row.begin() + here);
                before->subnodes.push_back(node);
            }
        }
    } else {
        return false;
    }
    return true;
}

Node fresh_of(Edit const& e) { return e.kind == "append" || e.b % 2 == 0 ? new_paragraph(e.text) : new_word(e.text); }

bool prefix(Path const& a, Path const& b) { return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin()); }

/// turn the numbers of an operation into positions in a document
std::optional<Edit> resolve(Node const& root, json const& op) {
    std::vector<std::pair<Path, Node>> all;
    Path                               here;
    collect(root, here, all);
    Edit e;
    e.kind      = op["e"];
    e.text      = op["text"];
    u64  n      = op["n"];
    u64  m      = op["m"];
    auto pick   = [&](u64 num, auto&& ok) -> std::optional<Path> {
        std::vector<Path> fit;
        for (auto const& [p, x] : all) {
            if (ok(p, x)) { fit.push_back(p); }
        }
        if (fit.empty()) { return std::nullopt; }
        return fit[num % fit.size()];
    };
    using K = OrgSemKind;
    std::optional<Path> node, other = Path{};
    if (e.kind == "word") {
        node = pick(n, [](Path const&, Node const& x) { return x->getKind() == K::Word; });
    } else if (e.kind == "subtree" || e.kind == "demote") {
        node = pick(n, [](Path const&, Node const& x) { return x->getKind() == K::Subtree; });
    } else if (e.kind == "replace" || e.kind == "replace-two") {
        node = pick(n, [](Path const& p, Node const&) { return !p.empty(); });
    } else {
        node = pick(n, [](Path const&, Node const& x) { return !x->subnodes.empty(); });
    }
    if (!node) { return std::nullopt; }
    e.node = *node;
    if (e.kind == "insert-shared" || e.kind == "insert-many") {
        other = pick(m, [](Path const& p, Node const&) { return !p.empty(); });
    } else if (e.kind == "replace-two") {
        other = pick(m, [&](Path const& p, Node const&) { return !p.empty() && !prefix(p, e.node) && !prefix(e.node, p); });
    }
    if (!other) { return std::nullopt; }
    e.other  = *other;
    int size = (int)at(root, e.node)->subnodes.size();
    int a = op["a"], b = op["b"];
    e.b = b;
    if (e.kind == "subtree") {
        e.a = 1 + a % 5;
    } else if (e.kind == "demote") {
        e.a = a % 3;
    } else if (e.kind.starts_with("insert")) {
        e.a = a % (size + 1);
    } else if (size > 0) {
        e.a = a % size;
        if (e.kind == "swap" || e.kind == "move") {
            if (size < 2) { return std::nullopt; }
            e.b = b % size;
            if (e.a == e.b) { e.b = (e.b + 1) % size; }
        }
        if (e.kind == "move-far" || e.kind == "move-out") {
            // past the first or the last place
            bool down = b % 2 == 0 ? e.a > 0 : e.a == size - 1;
            if (size < 2) { return std::nullopt; }
            e.b = down ? -e.a - 1 - b % 3 : size - e.a + b % 3;
        }
    }
    return e;
}

/// One store with all versions made so far.
struct World {
    imm::ImmAstContext::Ptr         start;
    std::vector<imm::ImmAstVersion> vs;
};

struct Thrown {}; // the callback's own exception reached the caller

imm::ImmAstVersion apply(World& w, json const& op, std::optional<Edit> const& e, Node const& fresh, Node const& doc, int base) {
    std::string k = op["k"];
    if (k == "add") { return (base < 0 ? w.start : w.vs[base].context)->addRoot(doc); }
    auto const& v = w.vs[base];
    return v.context->getEditVersion(v.getRootAdapter(), [&](imm::ImmAstContext::Ptr ast, imm::ImmAstEditContext& ctx) {
        return edit_imm(v.getRootAdapter(), *e, ast, ctx, fresh);
    });
}

void c13_run(Plan const& p) {
    Quiet q0;
    World real, ideal;
    real.start  = org::initImmutableAstContext();
    ideal.start = org::initImmutableAstContext();
    std::vector<std::string> prints;

    size_t turn      = 0;
    auto   check_old = [&](std::string const& when, int base = -1) {
        if (!prints.empty()) { ++turn; }
        for (size_t i = 0; i < prints.size(); ++i) {
            // between the steps: the edited version and another one; at the end all
            if (when != "everything" && (int)i != base && turn % prints.size() != i) { continue; }
            if (fingerprint(real.vs[i]) != prints[i]) {
                violate("changed", "version " + std::to_string(i) + " answers differently after " + when);
            }
        }
    };

    for (auto const& op : p.ops) {
        std::string k = op["k"];
        int         n = (int)real.vs.size();
        if (k != "add" && n == 0) { continue; }
        int  base = n == 0 ? -1 : (int)(op["v"].get<int>() % (k == "add" ? n + 1 : n));
        if (k == "add" && base == n) { base = -1; }
        Node                doc = Node::Nil(), fresh = Node::Nil();
        std::optional<Edit> e;
        std::string         label = k, want_model;
        if (k == "add") {
            doc = org::parse::ParseContext::shared()->parseString(op["text"].get<std::string>(), "<doc>");
        } else {
            auto old = imm::sem_from_immer(real.vs[base].getRoot(), *real.vs[base].context);
            e        = resolve(old, op);
            if (!e) { continue; }
            label = k + " " + e->kind;
            fresh = fresh_of(*e);
            auto model = imm::sem_from_immer(real.vs[base].getRoot(), *real.vs[base].context);
            if (edit_model(model, old, *e)) { want_model = text_of(model); }
        }
        if (k == "discard") {
            // an edit that is begun and thrown away
            try {
                AllocRegion mem;
                auto        ctx = real.vs[base].context->getEditContext();
                (void)edit_imm(real.vs[base].getRootAdapter(), *e, real.vs[base].context, ctx, fresh);
            } catch (std::exception const&) {}
            hist(label);
            probe("thrown away");
            check_old(label, base);
            continue;
        }
        // the same step of the same history where nothing ever fails
        std::optional<imm::ImmAstVersion> want;
        {
            try {
                want = apply(ideal, op, e, fresh, doc, base);
            } catch (std::exception const& ex) { probe("refused " + label + ": " + std::string(ex.what()).substr(0, 60)); }
        }
        std::string want_text, want_look;
        if (want && e && (e->kind == "drop-alien" || e->kind == "move-out")) { violate("accepted", label + " had to be refused"); }
        if (want) {
            want_text = text_of(*want);
            want_look = lookups(*want);
            if (k == "add") {
                if (want_text != text_of(doc)) { violate("wrong-result", "an added document comes out as " + versus(want_text, text_of(doc))); }
            } else if (!want_model.empty() && want_text != want_model) {
                violate("wrong-result", label + " gives " + versus(want_text, want_model));
            }
        }
        for (int i = 0;; ++i) {
            std::optional<imm::ImmAstVersion> got;
            i64                               a0 = fired("alloc"), c0 = fired("callback");
            bool                              own = false, mem_out = false;
            std::string                       err;
            try {
                AllocRegion mem;
                FaultRegion flt;
                got = apply(real, op, e, fresh, doc, base);
            } catch (std::bad_alloc const&) {
                mem_out = true;
            } catch (std::runtime_error const& ex) {
                own = fired("callback") > c0;
                err = ex.what();
            } catch (std::exception const& ex) { err = ex.what(); }
            if (got) {
                if (fired("callback") > c0) { violate("swallowed", label + ": the callback failed, the edit did not"); }
                if (!want) { violate("wrong-result", label + " was accepted after a failure, is refused otherwise"); }
                if (text_of(*got) != want_text) { violate("wrong-result", label + " gives " + versus(text_of(*got), want_text)); }
                if (lookups(*got) != want_look) { violate("wrong-lookup", label + " gives " + versus(lookups(*got), want_look)); }
                hist(label + " done");
                check_old(label, base);
                real.vs.push_back(*got);
                ideal.vs.push_back(*want);
                prints.push_back(fingerprint(*got));
                hist(prints.back());
                break;
            }
            if (mem_out && fired("alloc") == a0) { violate("wrong-error", label + " ran out of memory without reason"); }
            if (!mem_out && !own) {
                if (want) { violate("wrong-error", label + " failed with " + err.substr(0, 300)); }
                hist(label + " refused");
                check_old(label + ", which was refused", base);
                break;
            }
            hist(label + (own ? " callback failed" : " ran out of memory"));
            probe("failed edit");
            check_old("a failed " + label, base);
            if (i > 6) { violate("no-recovery", label + " keeps failing"); }
        }
    }
    check_old("everything");
}

void c13_workload(Rng& r, Plan& p) {
    bool outline = r.chance(1, 7); // headings only
    auto doc = [&] {
        std::string s;
        int         level = 0, n = (int)r.range(1, 4);
        if (outline) {
            for (int i = 0; i < n + 2; ++i) {
                level = level == 0 ? 1 : (int)r.range(std::max(1, level - 1), level + 1);
                s += std::string(level, '*') + " head" + std::to_string(i) + "\n";
            }
            return s;
        }
        for (int i = 0; i < n; ++i) { s += docgen::block(r, level); }
        return s;
    };
    static char const* kinds[] = {"word",   "subtree", "insert-new", "insert-shared", "insert-many", "append",      "set",
                                  "drop",   "pop",     "swap",       "move",          "replace",     "replace-two", "demote",
                                  "drop-id", "drop-alien", "move-far", "move-out"};
    p.ops.push_back({{"k", "add"}, {"v", 0}, {"text", doc()}});
    int n = (int)r.range(2, 7);
    for (int i = 0; i < n; ++i) {
        if (r.chance(1, 7)) {
            p.ops.push_back({{"k", "add"}, {"v", r.below(20)}, {"text", doc()}});
        } else {
            p.ops.push_back({{"k", r.chance(1, 6) ? "discard" : "edit"},
                             {"v", r.chance(1, 2) ? 100 + i : (int)r.below(100)},
                             {"e", outline && r.chance(1, 2) ? "demote" : kinds[r.below(18)]},
                             {"text", r.chance(1, 4) ? "alpha" : "new" + std::to_string(i)},
                             {"n", r.below(1000)},
                             {"m", r.below(1000)},
                             {"a", r.below(60)},
                             {"b", r.below(60)}});
        }
    }
}

struct Register {
    Register() {
        Scenario s;
        s.name       = "imm-versions";
        s.property   = "C13";
        s.workload   = c13_workload;
        s.run        = c13_run;
        s.menu       = {{"alloc", {"fail"}, 3}, {"callback", {"throw"}, 1}};
        s.max_faults = 4;
        s.variants   = 12;
        s.real       = {"immutable document store, tracking maps and edit operations"};
        s.stub       = {"memory allocation", "edit callback failures", "parser combinator library (lexy)"};
        register_scenario(s);
    }
} register_;
} // namespace
