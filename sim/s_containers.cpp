// C21: library containers under allocation failures and element operations that
// throw. Every operation is compared with a value model: after a failure the
// container holds the state before or the completed state, every query agrees,
// and all elements are released exactly once.
#include "simkit.hpp"
#include <hstd/ext/bimap_wrap.hpp>
#include <hstd/stdlib/DynVariant.hpp>
#include <hstd/stdlib/Map.hpp>
#include <hstd/stdlib/RangeTree.hpp>
#include <hstd/stdlib/RecursivePathTracker.hpp>
#include <hstd/stdlib/Set.hpp>
#include <hstd/stdlib/Vec.hpp>
#include <hstd/stdlib/dod_base.hpp>
#include <hstd/stdlib/dod_base_intern.hpp>
#include <hstd/stdlib/dod_base_multi.hpp>
#include <set>

using namespace sim;

namespace {
struct Boom : std::runtime_error {
    using std::runtime_error::runtime_error;
};

i64 live     = 0;
int hash_mod = 1000;

void maybe_throw(char const* site) {
    if (fault_at(site)) { throw Boom(site); }
}
} // namespace

/// An element that owns memory, counts itself, and whose copying, hashing and
/// comparing may fail. Moving never fails.
struct Elem {
    static constexpr u64 kAlive = 0xA11FEA11FEull;
    u64                  magic  = kAlive;
    int*                 value;

    Elem() : Elem(-1) {}
    explicit Elem(int v) : value(new int(v)) { ++live; }
    Elem(Elem const& o) : value(nullptr) {
        o.check();
        maybe_throw("copy");
        value = o.value ? new int(*o.value) : nullptr;
        ++live;
    }
    Elem(Elem&& o) noexcept : value(o.value) {
        o.check();
        o.value = nullptr;
        ++live;
    }
    Elem& operator=(Elem const& o) {
        check();
        Elem tmp(o);
        std::swap(value, tmp.value);
        return *this;
    }
    Elem& operator=(Elem&& o) noexcept {
        check();
        o.check();
        std::swap(value, o.value);
        return *this;
    }
    ~Elem() {
        check();
        magic = 0xDEADull;
        delete value;
        --live;
    }
    void check() const {
        if (magic != kAlive) { violate("dead-element", "an element was used or destroyed after it had been destroyed"); }
    }
    int get() const {
        check();
        if (!value) { violate("moved-element", "a container holds a moved-out element"); }
        return *value;
    }
    bool operator==(Elem const& o) const {
        maybe_throw("equal");
        return get() == o.get();
    }
    bool operator!=(Elem const& o) const { return !(*this == o); }
    bool operator<(Elem const& o) const {
        maybe_throw("equal");
        return get() < o.get();
    }
};

template <>
struct std::hash<Elem> {
    std::size_t operator()(Elem const& e) const {
        maybe_throw("hash");
        return (std::size_t)(e.get() % hash_mod);
    }
};

/// A second type so a store of several kinds can be used.
struct Elem2 : Elem {
    using Elem::Elem;
};
template <>
struct std::hash<Elem2> : std::hash<Elem> {};

DECL_ID_TYPE_MASKED(Elem, ElemId, std::uint64_t, 16);
DECL_ID_TYPE_MASKED(Elem2, Elem2Id, std::uint64_t, 16);
template <>
struct hstd::dod::id_type<Elem> {
    using type = ElemId;
};
template <>
struct hstd::dod::id_type<Elem2> {
    using type = Elem2Id;
};

namespace {
using State = std::vector<std::vector<int>>; // what can be seen of a container

std::string show(State const& s) {
    std::string r = "[";
    for (auto const& row : s) {
        r += "(";
        for (int v : row) { r += std::to_string(v) + " "; }
        r += ")";
    }
    return r + "]";
}

struct Op {
    std::string k;
    int         a = 0, b = 0;
    State       ranges;
};

struct Subject {
    virtual ~Subject() = default;
    /// Perform the operation; returns a result to compare (empty = none).
    virtual std::vector<int> act(Op const& op) = 0;
    /// Full state through the queries; they have to agree with each other.
    virtual State see() = 0;
    /// Model: the state after the operation, and its result. nullopt = refused.
    virtual std::optional<std::pair<State, std::vector<int>>> model(State const& s, json const& op) = 0;
    virtual void gen(Rng& r, json& op) = 0;
    /// An operation on many elements may stop between two of them.
    virtual bool between(State const&, State const&, State const&, std::string const&) { return false; }
};

using hstd::backIndex;

void wrong(std::string const& what) { violate("queries-disagree", what); }

// ---- sequences -----------------------------------------------------------------

template <typename C, bool Insert>
struct SeqSubject : Subject {
    C c;
    std::vector<int> act(Op const& op) override {
        auto const& k = op.k;
        int         a = op.a, b = op.b;
        if (k == "push") {
            c.push_back(Elem(a));
        } else if (k == "pushcopy") {
            Elem e(a);
            c.push_back(e);
        } else if (k == "pushidx") {
            Elem e(a);
            return {c.push_back_idx(e)};
        } else if (k == "insert") {
            Elem e(a);
            int  at = c.size() ? b % (c.size() + 1) : 0;
            if constexpr (Insert) {
                c.insert(at, e);
            } else {
                c.push_back(e);
            }
        } else if (k == "append") {
            C o;
            for (int i = 0; i < b % 5; ++i) { o.push_back(Elem(a + i)); }
            c.append(o);
        } else if (k == "twice") {
            C o(c);
            c.append(o);
        } else if (k == "concat") {
            C                r = c + c;
            std::vector<int> res;
            Quiet            q;
            for (auto const& e : r) { res.push_back(e.get()); }
            return res;
        } else if (k == "same") {
            C o(c);
            if (b % 3 == 0) { o.push_back(Elem(a)); }
            if (b % 3 == 1 && o.size()) { o.at(a % o.size()) = Elem(a); }
            return {c == o ? 1 : 0};
        } else if (k == "or") {
            Elem        e(100 + a);
            Elem const& x = c.at_or(b % 6, e);
            Elem const& y = c.at_or(backIndex(b % 6), e);
            return {x.get(), y.get()};
        } else if (k == "put") {
            Elem e(a);
            c.at(b % 6) = e;
        } else if (k == "putback") {
            Elem e(a);
            c.at(backIndex(1 + b % 6)) = e;
        } else if (k == "slice") {
            auto             r = c.at(hstd::slice(a % 6, b % 6));
            std::vector<int> res;
            Quiet            q;
            for (auto const& e : r) { res.push_back(e.get()); }
            return res;
        } else if (k == "drop") {
            c.pop_back();
        } else if (k == "room") {
            c.resize_at(b % 8);
        } else if (k == "pop") {
            Elem  e = c.pop_back_v();
            Quiet q;
            return {e.get()};
        } else if (k == "grow") {
            Elem e(a);
            return {c.resize_at(b % 8, e).get()};
        } else if (k == "plus") {
            C o;
            o.push_back(Elem(a));
            C                r = c + o;
            std::vector<int> res;
            Quiet            q;
            for (auto const& e : r) { res.push_back(e.get()); }
            return res;
        } else if (k == "plus1") {
            Elem             e(a);
            C                r = c + e;
            std::vector<int> res;
            Quiet            q;
            for (auto const& x : r) { res.push_back(x.get()); }
            return res;
        } else if (k == "copyget") {
            auto e = c.get_copy(b % 6);
            return {e ? e->get() : -1};
        } else if (k == "find") {
            Elem e(a);
            return {c.contains(e) ? 1 : 0, c.indexOf(e)};
        } else if (k == "clone") {
            C d(c);
            {
                Quiet q;
                if (d.size() != c.size()) { wrong("a copy has another size"); }
                for (int i = 0; i < d.size(); ++i) {
                    if (d.at(i).get() != c.at(i).get()) { wrong("a copy has other elements"); }
                }
            }
        }
        return {};
    }
    State see() override {
        State s(1);
        int   n = c.size();
        for (auto const& e : c) { s[0].push_back(e.get()); }
        if ((int)s[0].size() != n || c.empty() != (n == 0) || c.high() != n - 1) { wrong("size and iteration disagree"); }
        for (int i = 0; i < n; ++i) {
            if (c.at(i).get() != s[0][i] || c[i].get() != s[0][i] || !c.has(i)) { wrong("access by index and iteration disagree"); }
            if (!c.contains(c.at(i)) || s[0][c.indexOf(c.at(i))] != s[0][i]) { wrong("an element is not found"); }
        }
        if (c.has(n) || c.has(-1)) { wrong("an index outside of the list is said to exist"); }
        for (int i = -1; i <= n + 1; ++i) {
            bool in = 0 <= i && i < n;
            if (c.get(i).has_value() != in || c.get_copy(i).has_value() != in) { wrong("an optional access disagrees with the size"); }
            if (in && (c.get(i)->get().get() != s[0][i] || c.get_copy(i)->get() != s[0][i])) { wrong("an optional access and iteration disagree"); }
            bool back = 1 <= i && i <= n;
            if (c.has(backIndex(i)) != back || c.get(backIndex(i)).has_value() != back) { wrong("an index from the end disagrees with the size"); }
            if (back && (c.get(backIndex(i))->get().get() != s[0][n - i] || c.at(backIndex(i)).get() != s[0][n - i] || c[backIndex(i)].get() != s[0][n - i])) {
                wrong("access from the end and iteration disagree");
            }
        }
        if (n && c.back().get() != s[0].back()) { wrong("last element and iteration disagree"); }
        return s;
    }
    std::optional<std::pair<State, std::vector<int>>> model(State const& s, json const& op) override {
        std::string      k = op["op"];
        int              a = op["a"], b = op["b"];
        State            n = s;
        auto&            v = n[0];
        std::vector<int> res;
        if (k == "push" || k == "pushcopy") {
            v.push_back(a);
        } else if (k == "pushidx") {
            res = {(int)v.size()};
            v.push_back(a);
        } else if (k == "insert") {
            int at = v.size() ? b % (v.size() + 1) : 0;
            if (!Insert) { at = v.size(); }
            v.insert(v.begin() + at, a);
        } else if (k == "append") {
            for (int i = 0; i < b % 5; ++i) { v.push_back(a + i); }
        } else if (k == "twice") {
            v.insert(v.end(), s[0].begin(), s[0].end());
        } else if (k == "concat") {
            res = v;
            res.insert(res.end(), v.begin(), v.end());
        } else if (k == "same") {
            res = {b % 3 == 0 ? 0 : b % 3 == 1 && !v.empty() ? v[a % v.size()] == a : 1};
        } else if (k == "or") {
            int x = b % 6;
            res   = {x < (int)v.size() ? v[x] : 100 + a, 1 <= x && x <= (int)v.size() ? v[v.size() - x] : 100 + a};
        } else if (k == "put") {
            if (b % 6 >= (int)v.size()) { return std::nullopt; }
            v[b % 6] = a;
        } else if (k == "putback") {
            if (1 + b % 6 > (int)v.size()) { return std::nullopt; }
            v[v.size() - 1 - b % 6] = a;
        } else if (k == "slice") {
            if (a % 6 >= (int)v.size() || b % 6 >= (int)v.size()) { return std::nullopt; }
            for (int i = a % 6; i <= b % 6; ++i) { res.push_back(v[i]); }
        } else if (k == "drop") {
            if (v.empty()) { return std::nullopt; }
            v.pop_back();
        } else if (k == "room") {
            while ((int)v.size() <= b % 8) { v.push_back(-1); }
        } else if (k == "pop") {
            if (v.empty()) { return std::nullopt; }
            res = {v.back()};
            v.pop_back();
        } else if (k == "grow") {
            while ((int)v.size() <= b % 8) { v.push_back(a); }
            res = {v[b % 8]};
        } else if (k == "plus" || k == "plus1") {
            res = v;
            res.push_back(a);
        } else if (k == "copyget") {
            res = {b % 6 < (int)v.size() ? v[b % 6] : -1};
        } else if (k == "find") {
            int at = -1;
            for (int i = (int)v.size() - 1; i >= 0; --i) {
                if (v[i] == a) { at = i; }
            }
            res = {at != -1, at};
        }
        return std::pair{n, res};
    }
    void gen(Rng& r, json& op) override {
        static std::vector<std::string> k{"push", "push", "pushcopy", "pushcopy", "pushidx", "insert", "insert", "pop", "grow", "plus", "plus1", "copyget", "find", "clone", "append", "twice", "concat", "same", "or", "put", "putback", "slice", "drop", "room"};
        op["op"] = r.pick(k);
        if (op["op"] == "slice") {
            int a = op["a"], b = op["b"];
            op["a"] = std::min(a % 6, b % 6);
            op["b"] = std::max(a % 6, b % 6);
        }
    }
};

// ---- maps and sets ---------------------------------------------------------------

template <typename C>
struct MapSubject : Subject {
    C c;
    std::vector<int> act(Op const& op) override {
        auto const& k = op.k;
        Elem        a(op.a), b(op.b);
        if (k == "unique") {
            c.insert_unqiue(a, b);
        } else if (k == "orinsert") {
            return {c.get_or_insert(a, b).get()};
        } else if (k == "pop") {
            auto  e = c.pop_opt(a);
            Quiet q;
            return {e ? e->get() : -1};
        } else if (k == "get") {
            auto e = c.get(a);
            return {e ? e->get() : -1, c.contains(a)};
        } else if (k == "set") {
            c.insert_or_assign(a, b);
        } else if (k == "erase") {
            return {(int)c.erase(a)};
        } else if (k == "at") {
            C const& f = c;
            return {c.at(a).get(), f.at(a).get()};
        } else if (k == "put") {
            c.at(a) = b;
        } else if (k == "sub") {
            c[a] = b;
        } else if (k == "keys") {
            std::vector<int> res;
            auto             ks = c.keys();
            auto             vs = c.values();
            Quiet            q;
            if (ks.size() != vs.size()) { wrong("keys and values differ in number"); }
            std::map<int, int> m;
            for (int i = 0; i < ks.size(); ++i) { m[ks.at(i).get()] = vs.at(i).get(); }
            for (auto const& [x, y] : m) {
                res.push_back(x);
                res.push_back(y);
            }
            return res;
        } else if (k == "clone") {
            C d(c);
            if (d.size() != c.size()) { wrong("a copy has another size"); }
        }
        return {};
    }
    State see() override {
        std::map<int, int> m;
        int                n = 0;
        for (auto const& [k, v] : c) {
            ++n;
            if (!m.emplace(k.get(), v.get()).second) { wrong("a key is stored twice"); }
        }
        if (n != (int)c.size()) { wrong("size and iteration disagree"); }
        State s;
        for (auto const& [k, v] : m) {
            Elem e(k);
            if (!c.contains(e) || c.at(e).get() != v || !c.get(e) || c.get(e)->get() != v) { wrong("look-up and iteration disagree about key " + std::to_string(k)); }
            s.push_back({k, v});
        }
        for (int k = 0; k < 12; ++k) {
            if (!m.count(k) && c.contains(Elem(k))) { wrong("an absent key is found"); }
        }
        return s;
    }
    std::optional<std::pair<State, std::vector<int>>> model(State const& s, json const& op) override {
        std::string        k = op["op"];
        int                a = op["a"], b = op["b"];
        std::map<int, int> m;
        for (auto const& r : s) { m[r[0]] = r[1]; }
        std::vector<int> res;
        if (k == "unique") {
            if (m.count(a)) { return std::nullopt; }
            m[a] = b;
        } else if (k == "orinsert") {
            m.emplace(a, b);
            res = {m[a]};
        } else if (k == "pop") {
            res = {m.count(a) ? m[a] : -1};
            m.erase(a);
        } else if (k == "get") {
            res = {m.count(a) ? m[a] : -1, (int)m.count(a)};
        } else if (k == "set") {
            m[a] = b;
        } else if (k == "erase") {
            res = {(int)m.count(a)};
            m.erase(a);
        } else if (k == "at") {
            if (!m.count(a)) { return std::nullopt; }
            res = {m[a], m[a]};
        } else if (k == "put") {
            if (!m.count(a)) { return std::nullopt; }
            m[a] = b;
        } else if (k == "sub") {
            m[a] = b;
        } else if (k == "keys") {
            for (auto const& [x, y] : m) {
                res.push_back(x);
                res.push_back(y);
            }
        }
        State n;
        for (auto const& [x, y] : m) { n.push_back({x, y}); }
        return std::pair{n, res};
    }
    /// The subscript creates the entry first and the caller assigns to it.
    bool between(State const& before, State const& want, State const& after, std::string const& k) override {
        if (k != "sub" || want.size() != before.size() + 1) { return false; }
        State x = after;
        for (std::size_t i = 0; i < x.size() && i < want.size(); ++i) {
            if (x[i][0] == want[i][0] && x[i][1] == -1) { x[i][1] = want[i][1]; }
        }
        return x == want;
    }
    void gen(Rng& r, json& op) override {
        static std::vector<std::string> k{"unique", "unique", "orinsert", "orinsert", "pop", "get", "set", "set", "erase", "at", "put", "sub", "keys", "clone"};
        op["op"] = r.pick(k);
    }
};

struct SetSubject : Subject {
    using C = hstd::UnorderedSet<Elem>;
    C c;
    static std::vector<int> list(C const& s) {
        Quiet            q;
        std::vector<int> r;
        for (auto const& e : s) { r.push_back(e.get()); }
        std::sort(r.begin(), r.end());
        return r;
    }
    static C other(int a, int b) {
        C    o;
        Elem x(a), y(b);
        o.incl(x);
        o.incl(y);
        return o;
    }
    std::vector<int> act(Op const& op) override {
        auto const& k = op.k;
        int         a = op.a, b = op.b;
        if (k == "incl") {
            Elem e(a);
            c.incl(e);
        } else if (k == "excl") {
            Elem e(a);
            c.excl(e);
        } else if (k == "has") {
            return {c.contains(Elem(a))};
        } else if (k == "inclset") {
            c.incl(other(a, b));
        } else if (k == "exclset") {
            c.excl(other(a, b));
        } else if (k == "or") {
            return list(c | other(a, b));
        } else if (k == "from") {
            hstd::Vec<Elem> v;
            v.push_back(Elem(a));
            v.push_back(Elem(b));
            v.push_back(Elem(a));
            return list(C::FromIterable(v));
        } else if (k == "union") {
            return list(c + other(a, b));
        } else if (k == "minus") {
            return list(c - other(a, b));
        } else if (k == "and") {
            return list(c & other(a, b));
        } else if (k == "xor") {
            return list(c ^ other(a, b));
        } else if (k == "items") {
            auto             v = c.items();
            std::vector<int> r;
            Quiet            q;
            for (auto const& e : v) { r.push_back(e.get()); }
            std::sort(r.begin(), r.end());
            return r;
        } else if (k == "rebuild") {
            c = C::FromVec(c.items());
        }
        return {};
    }
    State see() override {
        State s{list(c)};
        if ((int)c.size() != (int)s[0].size()) { wrong("size and iteration disagree"); }
        for (int k = 0; k < 12; ++k) {
            bool in = std::find(s[0].begin(), s[0].end(), k) != s[0].end();
            if (c.contains(Elem(k)) != in) { wrong("membership and iteration disagree"); }
        }
        return s;
    }
    std::optional<std::pair<State, std::vector<int>>> model(State const& s, json const& op) override {
        std::string   k = op["op"];
        int           a = op["a"], b = op["b"];
        std::set<int> m(s[0].begin(), s[0].end()), r;
        bool          has = false;
        if (k == "incl") {
            m.insert(a);
        } else if (k == "excl") {
            m.erase(a);
        } else if (k == "has") {
            return std::pair{s, std::vector<int>{m.count(a) ? 1 : 0}};
        } else if (k == "inclset") {
            m.insert(a);
            m.insert(b);
        } else if (k == "exclset") {
            m.erase(a);
            m.erase(b);
        } else if (k == "from") {
            r   = {a, b};
            has = true;
        } else if (k == "union" || k == "or" || k == "items") {
            r = m;
            if (k != "items") {
                r.insert(a);
                r.insert(b);
            }
            has = true;
        } else if (k == "minus") {
            r = m;
            r.erase(a);
            r.erase(b);
            has = true;
        } else if (k == "and") {
            if (m.count(a)) { r.insert(a); }
            if (m.count(b)) { r.insert(b); }
            has = true;
        } else if (k == "xor") {
            r = m;
            for (int x : std::set<int>{a, b}) {
                if (!r.insert(x).second) { r.erase(x); }
            }
            has = true;
        }
        return std::pair{State{std::vector<int>(m.begin(), m.end())}, has ? std::vector<int>(r.begin(), r.end()) : std::vector<int>{}};
    }
    void gen(Rng& r, json& op) override {
        static std::vector<std::string> k{"incl", "incl", "incl", "excl", "has", "union", "minus", "and", "xor", "items", "rebuild", "inclset", "exclset", "or", "from"};
        op["op"] = r.pick(k);
    }
    bool between(State const& before, State const& want, State const& after, std::string const& k) override {
        auto const &x = before[0], &y = want[0], &z = after[0];
        if (k == "inclset") { return std::includes(z.begin(), z.end(), x.begin(), x.end()) && std::includes(y.begin(), y.end(), z.begin(), z.end()); }
        if (k == "exclset") { return std::includes(x.begin(), x.end(), z.begin(), z.end()) && std::includes(z.begin(), z.end(), y.begin(), y.end()); }
        return false;
    }
};

// ---- stores addressed by id --------------------------------------------------------

struct StoreSubject : Subject {
    hstd::dod::Store<ElemId, Elem> c;
    std::vector<ElemId>            ids; // ids handed out, by position
    std::vector<int> act(Op const& op) override {
        auto const& k = op.k;
        int         a = op.a, b = op.b;
        if (k == "add" || k == "addmask") {
            Elem   e(a);
            ElemId id = k == "add" ? c.add(e) : c.add(e, (std::uint64_t)(b % 7));
            Quiet  q;
            while (ids.size() <= id.getIndex()) { ids.push_back(id); }
            return {(int)id.getIndex(), k == "add" ? 0 : (int)id.getMask()};
        } else if (k == "insert") {
            Elem e(a);
            c.insert(ElemId::FromValue(1 + b % (c.size() + 1)), e);
        } else if (k == "at") {
            auto const& f = c;
            return {c.at(ElemId::FromValue(1 + b % 10)).get(), f.at(ElemId::FromValue(1 + b % 10)).get(), c.atIndex(b % 10).get()};
        } else if (k == "put") {
            Elem e(a);
            c.at(ElemId(ElemId::FromMaskedIdx(b % 10, (std::uint64_t)(a % 5)))) = e;
        } else if (k == "temp") {
            ElemId id = c.add(Elem(a));
            Quiet  q;
            return {(int)id.getIndex(), (int)id.getMask()};
        } else if (k == "grow") {
            Elem e(a);
            int  want = c.size() + b % 4;
            c.resize(want, e);
        }
        return {};
    }
    State see() override {
        State s(1);
        for (auto const& e : c.items()) { s[0].push_back(e->get()); }
        int n = 0;
        for (auto const& [id, e] : c.pairs()) {
            if ((int)id.getIndex() != n || e->get() != s[0].at(n) || !c.contains(id) || c.at(id).get() != e->get()) { wrong("pairs, items and look-up disagree"); }
            ++n;
        }
        if (n != c.size() || n != (int)s[0].size() || c.empty() != (n == 0)) { wrong("size and iteration disagree"); }
        if (n && (c.back().isNil() || (int)c.back().getIndex() != n - 1)) { wrong("the last id is not the last element"); }
        if (c.contains(ElemId::FromValue(n + 1)) || c.contains(ElemId::Nil())) { wrong("an absent id is found"); }
        return s;
    }
    std::optional<std::pair<State, std::vector<int>>> model(State const& s, json const& op) override {
        std::string      k = op["op"];
        int              a = op["a"], b = op["b"];
        State            n = s;
        auto&            v = n[0];
        std::vector<int> res;
        if (k == "add" || k == "addmask" || k == "temp") {
            res = {(int)v.size(), k == "add" || k == "temp" ? 0 : b % 7};
            v.push_back(a);
        } else if (k == "put") {
            if (b % 10 >= (int)v.size()) { return std::nullopt; }
            v[b % 10] = a;
        } else if (k == "insert") {
            int at = b % (v.size() + 1);
            if (at == (int)v.size()) {
                v.push_back(a);
            } else {
                v[at] = a;
            }
        } else if (k == "at") {
            if (b % 10 >= (int)v.size()) { return std::nullopt; }
            res = {v[b % 10], v[b % 10], v[b % 10]};
        } else if (k == "grow") {
            v.resize(v.size() + b % 4, a);
        }
        return std::pair{n, res};
    }
    void gen(Rng& r, json& op) override {
        static std::vector<std::string> k{"add", "add", "addmask", "insert", "insert", "at", "put", "temp", "grow"};
        op["op"] = r.pick(k);
    }
};

/// Values are stored once; state rows are (value, index) plus the size.
struct InternSubject : Subject {
    hstd::dod::InternStore<ElemId, Elem>                                                              c;
    hstd::dod::MultiStore<hstd::dod::InternStore<ElemId, Elem>, hstd::dod::Store<Elem2Id, Elem2>>     multi;
    bool                                                                                              use_multi = false;

    hstd::dod::InternStore<ElemId, Elem>& st() {
        return use_multi ? multi.store<Elem>() : c;
    }
    std::vector<int> act(Op const& op) override {
        auto const& k = op.k;
        int         a = op.a, b = op.b;
        if (k == "add") {
            Elem e(a);
            auto id = use_multi ? multi.add(e) : c.add(e);
            return {(int)id.getIndex()};
        } else if (k == "addmask") {
            Elem e(a);
            bool had = false;
            {
                Quiet q;
                had = st().contains(e);
            }
            auto id = st().add(e, (std::uint64_t)(b % 7));
            return {(int)id.getIndex(), had ? -1 : (int)id.getMask()};
        } else if (k == "insert") {
            Elem e(a);
            auto id = ElemId::FromValue(st().size() + 1);
            if (use_multi) {
                multi.insert(id, e);
            } else {
                c.insert(id, e);
            }
        } else if (k == "has") {
            Elem e(a);
            return {st().contains(e) ? 1 : 0};
        } else if (k == "at") {
            auto id = ElemId::FromValue(1 + b % 10);
            return {use_multi ? multi.at(id).get() : c.at(id).get()};
        } else if (k == "other") {
            Elem2 e(a);
            auto  id = multi.add(e);
            return {};
        }
        return {};
    }
    State see() override {
        State s;
        auto& t = st();
        int   n = 0;
        for (auto const& [id, e] : t.pairs()) {
            s.push_back({e->get(), (int)id.getIndex()});
            if ((int)id.getIndex() != n || t.at(id).get() != e->get()) { wrong("pairs and look-up disagree"); }
            ++n;
        }
        if (n != t.size() || t.empty() != (n == 0)) { wrong("size and iteration disagree"); }
        std::map<int, int> seen;
        for (auto const& r : s) {
            if (!seen.emplace(r[0], r[1]).second) { wrong("value " + std::to_string(r[0]) + " is stored twice, it must be stored once"); }
        }
        for (int v = 0; v < 12; ++v) {
            Elem e(v);
            if (t.contains(e) != (seen.count(v) != 0)) { wrong("value " + std::to_string(v) + ": look-up by value and stored values disagree"); }
            if (seen.count(v)) {
                int  size = t.size();
                auto id   = t.add(e);
                if ((int)id.getIndex() != seen[v] || t.size() != size) { wrong("adding stored value " + std::to_string(v) + " again does not give its id"); }
            }
        }
        int m = 0;
        for (auto const& [id, e] : multi.store<Elem2>().pairs()) {
            if (multi.at(id).get() != e->get()) { wrong("the other store of the group is damaged"); }
            ++m;
        }
        if (m != multi.store<Elem2>().size()) { wrong("the other store of the group is damaged"); }
        return s;
    }
    std::optional<std::pair<State, std::vector<int>>> model(State const& s, json const& op) override {
        std::string      k = op["op"];
        int              a = op["a"], b = op["b"];
        State            n = s;
        std::vector<int> res;
        int              found = -1;
        for (auto const& r : s) {
            if (r[0] == a) { found = r[1]; }
        }
        if (k == "add" || k == "addmask") {
            res = {found == -1 ? (int)s.size() : found};
            if (k == "addmask") { res.push_back(found == -1 ? b % 7 : -1); }
        }
        if (k == "add" || k == "addmask" || k == "insert") {
            if (found == -1) { n.push_back({a, (int)s.size()}); }
        } else if (k == "has") {
            res = {found != -1};
        } else if (k == "at") {
            if (b % 10 >= (int)s.size()) { return std::nullopt; }
            res = {s[b % 10][0]};
        }
        return std::pair{n, res};
    }
    void gen(Rng& r, json& op) override {
        static std::vector<std::string> k{"add", "add", "add", "addmask", "insert", "has", "at", "other"};
        op["op"] = r.pick(k);
    }
};

// ---- two-way maps --------------------------------------------------------------------

template <typename C, bool One, bool Stable>
struct BimapSubject : Subject {
    C                c;
    std::vector<int> act(Op const& op) override {
        auto const& k = op.k;
        Elem        a(op.a), b(op.b);
        if (k == "add") {
            c.add_unique(a, b);
        } else if (k == "eraseleft") {
            c.erase_left(a);
        } else if (k == "eraseright") {
            c.erase_right(b);
        } else if (k == "reassign") {
            if constexpr (!One) { return {c.reassign(a, b) ? 1 : 0}; }
        } else if (k == "right") {
            auto e = c.get_right(a);
            return {e ? e->get() : -1, c.contains_left(a)};
        } else if (k == "left") {
            auto             e = c.get_left(b);
            std::vector<int> r;
            Quiet            q;
            if constexpr (One) {
                if (e) { r.push_back(e->get()); }
            } else {
                for (auto const& x : e) { r.push_back(x.get()); }
                std::sort(r.begin(), r.end());
            }
            return r;
        } else if (k == "atright") {
            return {c.at_right(a).get()};
        } else if (k == "atleft") {
            auto const&      e = c.at_left(b);
            std::vector<int> r;
            Quiet            q;
            if constexpr (One) {
                r.push_back(e.get());
            } else {
                for (auto const& x : e) { r.push_back(x.get()); }
                std::sort(r.begin(), r.end());
            }
            return r;
        } else if (k == "clone") {
            C d(c);
            if (d.left_keys().size() != c.left_keys().size()) { wrong("a copy has another size"); }
        }
        return {};
    }
    State see() override {
        std::map<int, int>      m;
        std::multimap<int, int> back;
        std::vector<int>        order;
        for (auto const& p : c.raw().left) {
            if (!m.emplace(p.first.get(), p.second.get()).second) { wrong("a left key is stored twice"); }
            order.push_back(p.first.get());
        }
        for (auto const& p : c.raw().right) { back.emplace(p.first.get(), p.second.get()); }
        if (back.size() != m.size()) { wrong("the two sides differ in size"); }
        for (auto const& [r, l] : back) {
            if (!m.count(l) || m[l] != r) { wrong("the two sides hold different pairs"); }
        }
        auto lk = c.left_keys(), rk = c.right_keys();
        if (lk.size() != (int)m.size() || rk.size() != (int)m.size()) { wrong("key lists have another size"); }
        for (int i = 0; i < lk.size(); ++i) {
            if (lk.at(i).get() != order[i]) { wrong("left keys disagree with iteration"); }
        }
        for (auto const& [l, r] : m) {
            auto g = c.get_right(Elem(l));
            if (!g || g->get() != r || c.at_right(Elem(l)).get() != r) { wrong("look-up of left key " + std::to_string(l) + " fails"); }
        }
        for (int v = 0; v < 12; ++v) {
            std::vector<int> want, got;
            for (auto const& [l, r] : m) {
                if (r == v) { want.push_back(l); }
            }
            auto g = c.get_left(Elem(v));
            if constexpr (One) {
                if (g) { got.push_back(g->get()); }
            } else {
                for (auto const& x : g) { got.push_back(x.get()); }
                std::sort(got.begin(), got.end());
            }
            if (got != want || c.contains_right(Elem(v)) != !want.empty()) { wrong("look-up of right key " + std::to_string(v) + " disagrees with iteration"); }
            if (c.contains_left(Elem(v)) != (m.count(v) != 0)) { wrong("look-up of left key " + std::to_string(v) + " disagrees with iteration"); }
        }
        State s;
        if (Stable) {
            for (int l : order) { s.push_back({l, m[l]}); }
        } else {
            for (auto const& [l, r] : m) { s.push_back({l, r}); }
        }
        return s;
    }
    std::optional<std::pair<State, std::vector<int>>> model(State const& s, json const& op) override {
        std::string      k = op["op"];
        int              a = op["a"], b = op["b"];
        State            n = s;
        std::vector<int> res;
        auto             row = std::find_if(n.begin(), n.end(), [&](auto const& r) { return r[0] == a; });
        std::vector<int> lefts;
        for (auto const& r : s) {
            if (r[1] == b) { lefts.push_back(r[0]); }
        }
        std::sort(lefts.begin(), lefts.end());
        if (k == "add") {
            if (row != n.end() || (One && !lefts.empty())) { return std::nullopt; }
            n.push_back({a, b});
        } else if (k == "eraseleft") {
            if (row != n.end()) { n.erase(row); }
        } else if (k == "eraseright") {
            std::erase_if(n, [&](auto const& r) { return r[1] == b; });
        } else if (k == "reassign" && !One) {
            res = {row != n.end()};
            if (row != n.end()) { (*row)[1] = b; }
        } else if (k == "right") {
            res = {row != n.end() ? (*row)[1] : -1, row != n.end()};
        } else if (k == "left") {
            res = lefts;
        } else if (k == "atright") {
            if (row == n.end()) { return std::nullopt; }
            res = {(*row)[1]};
        } else if (k == "atleft") {
            if (lefts.empty()) { return std::nullopt; }
            res = lefts;
        }
        if (!Stable) { std::sort(n.begin(), n.end()); }
        return std::pair{n, res};
    }
    void gen(Rng& r, json& op) override {
        static std::vector<std::string> k{"add", "add", "add", "add", "eraseleft", "eraseright", "reassign", "reassign", "right", "left", "atright", "atleft", "clone"};
        op["op"] = r.pick(k);
    }
};

// ---- polymorphic variant ---------------------------------------------------------------

struct VBase {
    enum class Kind { VOne, VMany, VNone };
    virtual ~VBase()              = default;
    virtual Kind get_kind() const = 0;
};
struct VOne : VBase {
    static constexpr Kind staticKind = Kind::VOne;
    Elem                  e;
    explicit VOne(int v = 3) : e(v) {}
    explicit VOne(Elem const& x) : e(x) {}
    Kind get_kind() const override { return staticKind; }
};
struct VMany : VBase {
    static constexpr Kind staticKind = Kind::VMany;
    hstd::Vec<Elem>       es;
    VMany() { es.push_back(Elem(7)); }
    VMany(Elem const& a, Elem const& b) {
        es.push_back(a);
        es.push_back(b);
    }
    Kind get_kind() const override { return staticKind; }
};
struct VNone : VBase {
    static constexpr Kind staticKind = Kind::VNone;
    Kind                  get_kind() const override { return staticKind; }
};
DEFINE_DYN_VARIANT_TAG(VTag, VBase, VBase::Kind, ptr->get_kind(), VOne, VMany, VNone);
using VVar = hstd::dyn_variant<VTag>;

struct VarSubject : Subject {
    std::vector<VVar> c = std::vector<VVar>(3);
    static std::vector<int> row(VVar const& v) {
        if (!v) {
            if (v.get() || !v.valueless_by_exception() || hstd::holds_alternative<VOne>(v) || hstd::get_if<VOne>(&v) || v.get_if<VNone>()) { wrong("an empty variant holds something"); }
            return {-1};
        }
        std::vector<int> r{v.index()};
        bool             one = hstd::holds_alternative<VOne>(v), many = hstd::holds_alternative<VMany>(v), none = hstd::holds_alternative<VNone>(v);
        if (one + many + none != 1 || v.valueless_by_exception()) { wrong("a variant must hold one alternative"); }
        if (one) {
            r.push_back(hstd::get<VOne>(v).e.get());
            if (hstd::get_if<VOne>(&v) != v.get_if<VOne>() || v.get() != hstd::get_if<VOne>(&v)) { wrong("accessors of a variant disagree"); }
        }
        if (many) {
            for (auto const& e : hstd::get<VMany>(v).es) { r.push_back(e.get()); }
        }
        if (none && hstd::get_if<VOne>(&v)) { wrong("a variant answers for another alternative"); }
        if (v.index() != (one ? 0 : many ? 1 : 2)) { wrong("index and alternative disagree"); }
        hstd::dyn_visit(
            [&](auto const& p) {
                if ((void const*)static_cast<VBase const*>(p.get()) != (void const*)v.get()) { wrong("a visitor sees another value"); }
            },
            v);
        return r;
    }
    std::vector<int> act(Op const& op) override {
        auto const& k = op.k;
        int         a = op.a, b = op.b;
        VVar&       v = c[b % 3];
        if (k == "one") {
            Elem e(a);
            v = VVar::make<VOne>(e);
        } else if (k == "many") {
            Elem e(a), f(b);
            v = VVar::make<VMany>(e, f);
        } else if (k == "none") {
            v = VVar::make<VNone>();
        } else if (k == "ptr") {
            v = VVar(std::make_shared<VOne>(a));
        } else if (k == "copy") {
            v = c[(b + 1) % 3];
        } else if (k == "clear") {
            v = VVar{};
        } else if (k == "get") {
            return {hstd::get<VOne>(v).e.get()};
        } else if (k == "visit") {
            return {hstd::dyn_visit([](auto const& p) -> int { return (int)p->get_kind(); }, v)};
        }
        return {};
    }
    State see() override {
        State s;
        for (auto const& v : c) { s.push_back(row(v)); }
        return s;
    }
    std::optional<std::pair<State, std::vector<int>>> model(State const& s, json const& op) override {
        std::string      k = op["op"];
        int              a = op["a"], b = op["b"];
        State            n = s;
        auto&            v = n[b % 3];
        std::vector<int> res;
        if (k == "one" || k == "ptr") {
            v = {0, a};
        } else if (k == "many") {
            v = {1, a, b};
        } else if (k == "none") {
            v = {2};
        } else if (k == "copy") {
            v = s[(b + 1) % 3];
        } else if (k == "clear") {
            v = {-1};
        } else if (k == "get") {
            if (v[0] != 0) { return std::nullopt; }
            res = {v[1]};
        } else if (k == "visit") {
            if (v[0] == -1) { return std::nullopt; }
            res = {v[0]};
        }
        return std::pair{n, res};
    }
    void gen(Rng& r, json& op) override {
        static std::vector<std::string> k{"one", "one", "many", "many", "none", "ptr", "copy", "clear", "get", "visit"};
        op["op"] = r.pick(k);
    }
};

// ---- shared paths and range look-up ------------------------------------------------------

struct PathSubject : Subject {
    using P = hstd::RecursivePathTracker<Elem>;
    std::vector<P>   c = std::vector<P>(3);
    std::vector<int> act(Op const& op) override {
        auto const& k = op.k;
        int         a = op.a, b = op.b;
        P&          p = c[b % 3];
        if (k == "push") {
            Elem e(a);
            p = p.push(e);
        } else if (k == "pop") {
            p = p.pop();
        } else if (k == "copy") {
            p = c[(b + 1) % 3];
        } else if (k == "list") {
            auto             v = p.toVector();
            std::vector<int> r;
            Quiet            q;
            for (auto const& e : v) { r.push_back(e.get()); }
            return r;
        } else if (k == "back") {
            return {p.back().get()};
        }
        return {};
    }
    State see() override {
        State s;
        for (auto const& p : c) {
            std::vector<int> r;
            for (auto const& e : p) { r.push_back(e.get()); }
            if ((int)r.size() != p.size() || p.empty() != r.empty()) { wrong("path length and steps disagree"); }
            for (int i = 0; i < p.size(); ++i) {
                if (p[i].get() != r[i]) { wrong("path steps disagree"); }
            }
            auto v = p.toVector();
            if (v.size() != p.size()) { wrong("path as list has another length"); }
            for (int i = 0; i < v.size(); ++i) {
                if (v.at(i).get() != r[i]) { wrong("path as list disagrees"); }
            }
            if (p.end() - p.begin() != p.size() || (p.begin() == p.end()) != p.empty()) { wrong("ends of a path disagree with its length"); }
            for (int i = 0; i < p.size(); ++i) {
                auto it = p.begin() + i;
                if (it->get() != r[i] || p.begin()[i].get() != r[i] || (p.end() - (p.size() - i))->get() != r[i]) { wrong("jumping along a path disagrees with walking it"); }
                if (!(it < p.end()) || it > p.end() || it - p.begin() != i || !(it >= p.begin()) || !(p.begin() <= it)) { wrong("positions in a path are ordered wrongly"); }
            }
            auto back = p.end();
            for (int i = p.size() - 1; i >= 0; --i) {
                --back;
                if ((*back).get() != r[i]) { wrong("walking a path backwards disagrees"); }
            }
            if (!p.empty() && p.back().get() != r.back()) { wrong("last step of a path disagrees"); }
            try {
                (void)p[p.size()];
                wrong("a step after the end of a path exists");
            } catch (std::out_of_range const&) {}
            s.push_back(r);
        }
        return s;
    }
    std::optional<std::pair<State, std::vector<int>>> model(State const& s, json const& op) override {
        std::string      k = op["op"];
        int              a = op["a"], b = op["b"];
        State            n = s;
        auto&            v = n[b % 3];
        std::vector<int> res;
        if (k == "push") {
            v.push_back(a);
        } else if (k == "pop") {
            if (!v.empty()) { v.pop_back(); }
        } else if (k == "copy") {
            v = s[(b + 1) % 3];
        } else if (k == "list") {
            res = v;
        } else if (k == "back") {
            if (v.empty()) { return std::nullopt; }
            res = {v.back()};
        }
        return std::pair{n, res};
    }
    void gen(Rng& r, json& op) override {
        static std::vector<std::string> k{"push", "push", "push", "pop", "copy", "list", "back"};
        op["op"] = r.pick(k);
    }
};

struct RangeSubject : Subject {
    using T = hstd::RangeTree<int>;
    T     c;
    State last;
    static State ranges(json const& op) {
        State s;
        for (auto const& r : op["ranges"]) { s.push_back({r[0], r[1]}); }
        return s;
    }
    std::vector<int> act(Op const& op) override {
        if (op.k == "build") {
            hstd::Vec<hstd::Slice<int>> v;
            for (auto const& r : op.ranges) { v.push_back(hstd::slice(r[0], r[1])); }
            T t(v);
            c = std::move(t);
            {
                Quiet q;
                last = op.ranges;
            }
        } else {
            std::vector<int> r;
            for (auto const& x : c.getRanges(op.a)) {
                Quiet q;
                r.push_back(x.index);
            }
            Quiet q;
            std::sort(r.begin(), r.end());
            return r;
        }
        return {};
    }
    static std::vector<int> hits(State const& s, int p) {
        std::vector<int> r;
        for (int i = 0; i < (int)s.size(); ++i) {
            if (s[i][0] <= p && p <= s[i][1]) { r.push_back(i); }
        }
        return r;
    }
    State see() override {
        for (int p = -1; p < 22; ++p) {
            std::vector<int> r;
            for (auto const& x : c.getRanges(p)) { r.push_back(x.index); }
            std::sort(r.begin(), r.end());
            if (r != hits(last, p)) { wrong("ranges at point " + std::to_string(p) + " are not those that contain it"); }
        }
        return last;
    }
    std::optional<std::pair<State, std::vector<int>>> model(State const& s, json const& op) override {
        if (op["op"] == "build") { return std::pair{ranges(op), std::vector<int>{}}; }
        return std::pair{s, hits(s, op["a"])};
    }
    void gen(Rng& r, json& op) override {
        op["op"] = r.chance(1, 3) ? "build" : "query";
        if (op["op"] == "build") {
            json a = json::array();
            int  n = (int)r.pick(std::vector<int>{1, 3, 6, 20, 40});
            for (int i = 0; i < n; ++i) {
                int x = (int)r.below(20);
                a.push_back({x, x + (int)r.below(20 - x)});
            }
            op["ranges"] = a;
        }
    }
};

std::unique_ptr<Subject> make(std::string const& k) {
    using namespace hstd;
    if (k == "vec") { return std::make_unique<SeqSubject<Vec<Elem>, true>>(); }
    if (k == "small") { return std::make_unique<SeqSubject<SmallVec<Elem, 3>, false>>(); }
    if (k == "map") { return std::make_unique<MapSubject<UnorderedMap<Elem, Elem>>>(); }
    if (k == "sorted") { return std::make_unique<MapSubject<SortedMap<Elem, Elem>>>(); }
    if (k == "set") { return std::make_unique<SetSubject>(); }
    if (k == "store") { return std::make_unique<StoreSubject>(); }
    if (k == "intern" || k == "multi") {
        auto r       = std::make_unique<InternSubject>();
        r->use_multi = k == "multi";
        return r;
    }
    if (k == "one") { return std::make_unique<BimapSubject<ext::Unordered1to1Bimap<Elem, Elem>, true, false>>(); }
    if (k == "many") { return std::make_unique<BimapSubject<ext::UnorderedNto1Bimap<Elem, Elem>, false, false>>(); }
    if (k == "variant") { return std::make_unique<VarSubject>(); }
    if (k == "path") { return std::make_unique<PathSubject>(); }
    return std::make_unique<RangeSubject>();
}

std::vector<std::string> const kinds{"vec", "vec", "small", "map", "sorted", "set", "store", "intern", "multi", "one", "many", "variant", "path", "ranges"};

void workload(Rng& r, Plan& p) {
    std::string k      = r.pick(kinds);
    p.params["kind"]   = k;
    p.params["mod"]    = r.pick(std::vector<int>{1, 3, 1000});
    auto s             = make(k);
    int  n             = r.chance(1, 8) ? (int)r.range(25, 60) : (int)r.range(3, 24);
    int  domain        = (int)r.pick(std::vector<int>{3, 6, 12});
    int  second        = r.chance(1, 3) ? (int)r.range(1, 2) : domain;
    int  fill          = r.chance(1, 4) ? n * 2 / 3 : 0; // the container only grows at first
    static std::set<std::string> const adds{"add", "push", "set", "put", "incl", "addmask", "insert"};
    for (int i = 0; i < n; ++i) {
        json op{{"a", (int)r.below(domain)}, {"b", (int)r.below(second)}};
        s->gen(r, op);
        for (int t = 0; t < 6 && i < fill && !adds.count(op["op"].get<std::string>()); ++t) {
            op = json{{"a", (int)r.below(domain)}, {"b", (int)r.below(second)}};
            s->gen(r, op);
        }
        p.ops.push_back(op);
    }
}

void run(Plan const& p) {
    hash_mod       = p.params["mod"];
    std::string kn = p.params["kind"];
    live           = 0;
    auto  s        = make(kn);
    State now      = s->see();
    for (auto const& op : p.ops) {
        std::string name  = kn + " " + op["op"].get<std::string>();
        auto        want  = s->model(now, op);
        i64         f0    = fired_total();
        bool        threw = false;
        std::string what;
        std::vector<int> got;
        Op               o{op["op"], op["a"], op["b"], op.contains("ranges") ? RangeSubject::ranges(op) : State{}};
        try {
            if (kn == "small" || o.k == "append" || o.k == "twice") {
                // Boost's small vector and a list that receives many elements at
                // once only promise to stay valid
                got = s->act(o);
            } else {
                FaultRegion f;
                AllocRegion a;
                got = s->act(o);
            }
        } catch (std::bad_alloc const&) {
            threw = true;
            what  = "out of memory";
        } catch (Boom const& e) {
            threw = true;
            what  = e.what();
        } catch (std::exception const& e) {
            threw = true;
            what  = "refused";
        }
        bool  faulty = fired_total() > f0;
        State after  = s->see();
        hist(name + " " + std::to_string((int)op["a"]) + " " + std::to_string((int)op["b"]) + (threw ? " failed: " + what : " done") + " " + show(after));
        if (!threw) {
            if (!want) { violate("accepted", name + " had to be refused"); }
            if (after != want->first) { violate("wrong-state", name + " left " + show(after) + ", expected " + show(want->first)); }
            if (!got.empty() || !want->second.empty()) {
                if (got != want->second) { violate("wrong-result", name + " returned " + show({got}) + ", expected " + show({want->second})); }
            }
            if (faulty) { probe("completed-despite-fault"); }
        } else {
            if (want && !faulty) { violate("spurious-failure", name + " failed although nothing failed in it: " + what); }
            probe(faulty ? "failed-operation" : "refused-operation");
            if (after != now && !(want && after == want->first) && !(want && s->between(now, want->first, after, o.k))) { violate("half-done", name + " failed and left " + show(after) + ", before it was " + show(now)); }
            if (after != now && o.k == "pop") { violate("element-lost", name + " failed, yet the element that it did not hand over is gone: " + show(after)); }
            if (faulty) { probe(name); }
        }
        now = after;
    }
    s.reset();
    if (live != 0) { violate("leak", std::to_string(live) + " elements are not released (or released twice) after the container is gone"); }
}

struct Reg {
    Reg() {
        Scenario a;
        a.name       = "containers";
        a.property   = "C21";
        a.workload   = workload;
        a.run        = run;
        a.menu       = {{"alloc", {"fail", "persist"}, 4}, {"copy", {"throw"}, 3}, {"hash", {"throw"}, 2}, {"equal", {"throw"}, 2}};
        a.variants   = 14;
        a.max_faults = 5;
        a.real       = {"src/hstd/stdlib Vec, Map, Set, dod_base, dod_base_intern, dod_base_multi, DynVariant, RecursivePathTracker, RangeTree (real)", "src/hstd/ext/bimap_wrap.hpp (real)", "boost::bimap, libstdc++ containers (real)"};
        a.stub       = {"allocator result (fault-injected)", "element type with failing copy, hash and comparison"};
        register_scenario(a);
    }
} reg;
} // namespace
