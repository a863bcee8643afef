#pragma once
/// Small stand-in for the parts of the lexy parser combinator library that the
/// repository uses: the library is not available offline. Rules are empty types,
/// `match` recognises without values, `parse` passes values to a continuation,
/// `cond` is the branch condition.
#include <algorithm>
#include <cstddef>
#include <iterator>
#include <optional>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace lexy {
struct default_encoding {};

template <typename Enc = default_encoding>
struct string_input {
    char const* b;
    char const* e;
    constexpr string_input(char const* d, std::size_t n) : b(d), e(d + n) {}
    constexpr string_input(char const* d, char const* n) : b(d), e(n) {}
    constexpr char const* data() const { return b; }
    constexpr std::size_t size() const { return e - b; }
};
string_input(char const*, std::size_t) -> string_input<default_encoding>;
string_input(char const*, char const*) -> string_input<default_encoding>;

inline string_input<> zstring_input(char const* d) {
    return string_input<>(d, d ? std::char_traits<char>::length(d) : 0);
}

struct reader {
    char const*    p;
    char const*    e;
    constexpr bool eof() const { return p == e; }
};

template <typename = void>
struct string_lexeme_t {
    char const*           b = nullptr;
    char const*           e = nullptr;
    constexpr char const* begin() const { return b; }
    constexpr char const* end() const { return e; }
    constexpr std::size_t size() const { return e - b; }
};
template <typename... A>
using string_lexeme = string_lexeme_t<>;

struct nullopt {
    template <typename T>
        requires(std::is_default_constructible_v<T> && !std::is_same_v<T, nullopt>)
    constexpr operator T() const {
        return T();
    }
};

// ---- callbacks
template <typename R, typename... F>
struct callback_t : F... {
    using F::operator()...;
    using return_type = R;
};
template <typename R, typename... F>
constexpr auto callback(F... f) {
    return callback_t<R, F...>{f...};
}

template <typename S>
struct as_string_t {
    using return_type = S;
    S operator()(string_lexeme<> l) const { return S(l.begin(), l.end()); }
    S operator()(S s) const { return s; }
    S operator()() const { return S(); }
};
template <typename S>
constexpr as_string_t<S> as_string{};

template <typename C>
struct as_list_t {
    using return_type = C;
    C operator()(C c) const { return c; }
    C operator()(nullopt) const { return C(); }
};
template <typename C>
constexpr as_list_t<C> as_list{};

template <int N, typename D>
struct nth_or {
    D d;
};
template <int N>
struct nth {
    template <typename D>
    friend constexpr nth_or<N, D> operator||(nth, D d) {
        return {d};
    }
};
constexpr nth<0> _1{};
constexpr nth<1> _2{};
constexpr nth<2> _3{};

namespace shim {
    template <int N, typename Tup>
    constexpr decltype(auto) pick(nth<N>, Tup& t) {
        return std::get<N>(t);
    }
    template <int N, typename D, typename Tup>
    constexpr auto pick(nth_or<N, D> const& d, Tup& t) {
        if constexpr (N < std::tuple_size_v<Tup>) {
            using T = std::remove_cvref_t<std::tuple_element_t<N, Tup>>;
            if constexpr (std::is_same_v<T, nullopt>) {
                return d.d;
            } else {
                return T(std::get<N>(t));
            }
        } else {
            return d.d;
        }
    }
    template <typename C, typename... P>
    struct bound {
        using return_type = typename C::return_type;
        C                c;
        std::tuple<P...> p;
        template <typename... A>
        return_type operator()(A&&... a) const {
            auto t = std::forward_as_tuple(a...);
            return std::apply([&](auto const&... q) -> return_type { return c(pick(q, t)...); }, p);
        }
    };
} // namespace shim
template <typename C, typename... P>
constexpr auto bind(C c, P... p) {
    return shim::bound<C, P...>{c, std::tuple<P...>{p...}};
}

struct noop_t {
    struct _sink {
        using return_type = std::size_t;
    };
};
constexpr noop_t noop{};

template <typename Input>
struct error_context {
    Input input;
};
template <typename Reader, typename Tag>
struct error {
    char const* position;
    char const* begin;
};

// ---- actions
struct visualization_options {
    int flags = 0;
};
constexpr int visualize_use_unicode = 1, visualize_use_symbols = 2, visualize_space = 4;
template <typename Rule, typename Out, typename In>
void trace_to(Out, In const&, visualization_options = {}) {}

namespace shim {
    struct rule_base {};
    template <typename T>
    concept Rule = std::is_base_of_v<rule_base, std::remove_cvref_t<T>>;

    template <typename P>
    std::optional<typename decltype(P::value)::return_type> production(reader& r) {
        using V = typename decltype(P::value)::return_type;
        using R = std::remove_cvref_t<decltype(P::rule)>;
        std::optional<V> out;
        bool             ok = R::parse(r, [&](reader&, auto&&... a) {
            out.emplace(P::value(std::forward<decltype(a)>(a)...));
            return true;
        });
        if (!ok) { out.reset(); }
        return out;
    }
    template <typename P>
    bool recognise(reader& r) {
        return std::remove_cvref_t<decltype(P::rule)>::match(r);
    }
} // namespace shim

template <typename V, typename E>
struct result {
    std::optional<V> v;
    E                e{};
    bool             has_value() const { return v.has_value(); }
    V const&         value() const { return *v; }
    E const&         errors() const { return e; }
};

template <typename Rule, typename Enc>
auto parse(string_input<Enc> const& in, noop_t) {
    reader r{in.b, in.e};
    auto   v = shim::production<Rule>(r);
    return result<typename decltype(v)::value_type, std::size_t>{std::move(v)};
}
template <typename Rule, typename Enc, typename Errors>
auto parse(string_input<Enc> const& in, Errors const& err) {
    reader r{in.b, in.e};
    auto   v    = shim::production<Rule>(r);
    auto   sink = err.sink();
    if (!v) { sink(error_context<string_input<Enc>>{in}, error<reader, void>{r.p, in.b}); }
    auto e = std::move(sink).finish();
    return result<typename decltype(v)::value_type, decltype(e)>{std::move(v), std::move(e)};
}

// ---- rules
namespace shim {
    template <std::size_t N>
    struct fixed {
        char s[N]{};
        constexpr fixed(char const (&t)[N]) { std::copy_n(t, N, s); }
        static constexpr std::size_t size = N - 1;
    };
    constexpr char lower(char c) { return 'A' <= c && c <= 'Z' ? char(c - 'A' + 'a') : c; }

    /// Rules without values: parse = match.
    template <typename D>
    struct plain : rule_base {
        template <typename K, typename... A>
        static bool parse(reader& r, K&& k, A&&... a) {
            if (!D::match(r)) { return false; }
            return k(r, std::forward<A>(a)...);
        }
        static bool cond(reader r) { return D::match(r); }
    };
    /// Single characters.
    template <typename D>
    struct chars : plain<D> {
        static bool match(reader& r) {
            if (r.eof() || !D::has(*r.p)) { return false; }
            ++r.p;
            return true;
        }
    };

    template <fixed S, bool Fold = false>
    struct lit : plain<lit<S, Fold>> {
        static constexpr std::size_t size = S.size;
        static constexpr bool        has(char c) { return S.size == 1 && (Fold ? lower(S.s[0]) == lower(c) : S.s[0] == c); }
        static bool                  match(reader& r) {
            if ((std::size_t)(r.e - r.p) < S.size) { return false; }
            for (std::size_t i = 0; i < S.size; ++i) {
                char a = r.p[i], b = S.s[i];
                if (Fold ? lower(a) != lower(b) : a != b) { return false; }
            }
            r.p += S.size;
            return true;
        }
    };
    template <fixed S>
    constexpr lit<S, true> fold(lit<S, false>) {
        return {};
    }

    template <typename... L>
    struct lits : plain<lits<L...>> {
        static bool match(reader& r) {
            char const* best = nullptr;
            (
                [&] {
                    reader q = r;
                    if (L::match(q) && (!best || best < q.p)) { best = q.p; }
                }(),
                ...);
            if (!best) { return false; }
            r.p = best;
            return true;
        }
    };

#define SHIM_CHARS(name, expr)                                                                                  \
    struct name##_t : chars<name##_t> {                                                                         \
        static constexpr bool has(char c) { return expr; }                                                      \
    };
    SHIM_CHARS(space, c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' || c == '\v')
    SHIM_CHARS(alpha, ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z'))
    SHIM_CHARS(digit, '0' <= c && c <= '9')
    SHIM_CHARS(alpha_underscore, alpha_t::has(c) || c == '_')
    SHIM_CHARS(word, alpha_t::has(c) || digit_t::has(c) || c == '_')
    SHIM_CHARS(character, (unsigned char)c < 128)
#undef SHIM_CHARS
    template <typename A, typename B>
    struct either : chars<either<A, B>> {
        static constexpr bool has(char c) { return A::has(c) || B::has(c); }
    };
    template <typename A, typename B>
    struct without : chars<without<A, B>> {
        static constexpr bool has(char c) { return A::has(c) && !B::has(c); }
    };

    template <typename A, typename B>
    struct seq : rule_base {
        static bool match(reader& r) { return A::match(r) && B::match(r); }
        static bool cond(reader r) { return A::cond(r); }
        template <typename K, typename... X>
        static bool parse(reader& r, K&& k, X&&... x) {
            return A::parse(
                r, [&](reader& q, auto&&... y) { return B::parse(q, k, std::forward<decltype(y)>(y)...); },
                std::forward<X>(x)...);
        }
    };
    template <typename A, typename B>
    struct branch : rule_base {
        static bool match(reader& r) { return A::match(r) && B::match(r); }
        static bool cond(reader r) { return A::cond(r); }
        template <typename K, typename... X>
        static bool parse(reader& r, K&& k, X&&... x) {
            return seq<A, B>::parse(r, k, std::forward<X>(x)...);
        }
    };
    template <typename A, typename B>
    struct choice : rule_base {
        static bool match(reader& r) { return A::cond(r) ? A::match(r) : B::match(r); }
        static bool cond(reader r) { return A::cond(r) || B::cond(r); }
        template <typename K, typename... X>
        static bool parse(reader& r, K&& k, X&&... x) {
            if (A::cond(r)) { return A::parse(r, k, std::forward<X>(x)...); }
            return B::parse(r, k, std::forward<X>(x)...);
        }
    };
    template <typename A>
    struct opt_t : rule_base {
        static bool match(reader& r) { return A::cond(r) ? A::match(r) : true; }
        static bool cond(reader) { return true; }
        template <typename K, typename... X>
        static bool parse(reader& r, K&& k, X&&... x) {
            if (A::cond(r)) { return A::parse(r, k, std::forward<X>(x)...); }
            return k(r, std::forward<X>(x)..., nullopt{});
        }
    };
    template <typename A, int Min>
    struct many : plain<many<A, Min>> {
        static bool match(reader& r) {
            int n = 0;
            while (n < Min || A::cond(r)) {
                char const* at = r.p;
                if (!A::match(r)) { return false; }
                ++n;
                if (r.p == at) { break; }
            }
            return true;
        }
        static bool cond(reader r) { return Min == 0 || A::cond(r); }
    };
    template <typename A, int N>
    struct times_t : plain<times_t<A, N>> {
        static bool match(reader& r) {
            for (int i = 0; i < N; ++i) {
                if (!A::match(r)) { return false; }
            }
            return true;
        }
    };
    template <typename A>
    struct peek_t : plain<peek_t<A>> {
        static bool match(reader& r) {
            reader q = r;
            return A::match(q);
        }
    };
    template <typename A, typename B>
    struct not_followed : plain<not_followed<A, B>> {
        static bool match(reader& r) {
            if (!A::match(r)) { return false; }
            return !B::cond(r);
        }
    };
    template <typename A>
    struct until_t : plain<until_t<A>> {
        static bool match(reader& r) {
            while (true) {
                reader q = r;
                if (A::match(q)) {
                    r = q;
                    return true;
                }
                if (r.eof()) { return false; }
                ++r.p;
            }
        }
    };
    template <typename A>
    struct token_t : plain<token_t<A>> {
        static bool match(reader& r) { return A::match(r); }
    };
    template <typename A>
    struct capture_t : rule_base {
        static bool match(reader& r) { return A::match(r); }
        static bool cond(reader r) { return A::cond(r); }
        template <typename K, typename... X>
        static bool parse(reader& r, K&& k, X&&... x) {
            char const* b = r.p;
            if (!A::match(r)) { return false; }
            return k(r, std::forward<X>(x)..., string_lexeme<>{b, r.p});
        }
    };
    template <typename T>
    struct integer_t : rule_base {
        static bool match(reader& r) { return many<digit_t, 1>::match(r); }
        static bool cond(reader r) { return digit_t::cond(r); }
        template <typename K, typename... X>
        static bool parse(reader& r, K&& k, X&&... x) {
            char const* b = r.p;
            if (!match(r)) { return false; }
            T v = 0;
            for (; b != r.p; ++b) {
                if (__builtin_mul_overflow(v, T(10), &v) || __builtin_add_overflow(v, T(*b - '0'), &v)) { return false; }
            }
            return k(r, std::forward<X>(x)..., std::move(v));
        }
    };
    template <typename P>
    struct prod : rule_base {
        static bool match(reader& r) { return recognise<P>(r); }
        static bool cond(reader r) { return std::remove_cvref_t<decltype(P::rule)>::cond(r); }
        template <typename K, typename... X>
        static bool parse(reader& r, K&& k, X&&... x) {
            auto v = production<P>(r);
            if (!v) { return false; }
            return k(r, std::forward<X>(x)..., std::move(*v));
        }
    };
    template <typename A>
    struct sep_t {
        using rule = A;
    };
    template <typename A, typename S>
    struct list_t;
    template <typename A, typename S>
    struct list_t<A, sep_t<S>> : rule_base {
        static bool match(reader& r) {
            if (!A::match(r)) { return false; }
            while (S::cond(r)) {
                if (!S::match(r) || !A::match(r)) { return false; }
            }
            return true;
        }
        static bool cond(reader r) { return A::cond(r); }
        template <typename K, typename... X>
        static bool parse(reader& r, K&& k, X&&... x) {
            return items(r, k, [](reader& q) { return S::cond(q) ? (S::match(q) ? 1 : -1) : 0; }, std::forward<X>(x)...);
        }
        template <typename K, typename More, typename... X>
        static bool items(reader& r, K&& k, More more, X&&... x);
    };
    template <typename P>
    struct value_of;
    template <typename P>
    struct value_of<prod<P>> {
        using type = typename decltype(P::value)::return_type;
    };
    template <typename A, typename K, typename More, typename... X>
    bool list_items(reader& r, K&& k, More more, X&&... x) {
        std::vector<typename value_of<A>::type> out;
        while (true) {
            char const* at = r.p;
            bool ok = A::parse(r, [&](reader&, auto&& v) {
                out.push_back(std::forward<decltype(v)>(v));
                return true;
            });
            if (!ok) { return false; }
            int m = more(r);
            if (m < 0) { return false; }
            if (m == 0 || r.p == at) { break; }
        }
        return k(r, std::forward<X>(x)..., std::move(out));
    }
    template <typename A, typename S>
    template <typename K, typename More, typename... X>
    bool list_t<A, sep_t<S>>::items(reader& r, K&& k, More more, X&&... x) {
        return list_items<A>(r, k, more, std::forward<X>(x)...);
    }
    template <typename A>
    struct list_t<A, void> : rule_base {
        static bool match(reader& r) { return many<A, 1>::match(r); }
        static bool cond(reader r) { return A::cond(r); }
        template <typename K, typename... X>
        static bool parse(reader& r, K&& k, X&&... x) {
            return list_items<A>(r, k, [](reader& q) { return A::cond(q) ? 1 : 0; }, std::forward<X>(x)...);
        }
    };

    template <Rule A, Rule B>
    constexpr seq<A, B> operator+(A, B) {
        return {};
    }
    template <Rule A, Rule B>
    constexpr branch<A, B> operator>>(A, B) {
        return {};
    }
    template <Rule A, Rule B>
    constexpr choice<A, B> operator|(A, B) {
        return {};
    }
    template <Rule A, Rule B>
    constexpr either<A, B> operator/(A, B) {
        return {};
    }
    template <Rule A, Rule B>
    constexpr without<A, B> operator-(A, B) {
        return {};
    }
} // namespace shim

namespace dsl {
    template <char... C>
    constexpr shim::lit<shim::fixed<sizeof...(C) + 1>({C..., '\0'})> lit_c{};
    template <typename B = void>
    constexpr shim::digit_t digit{};
    template <typename B = void>
    constexpr shim::many<shim::digit_t, 1> digits{};
    template <typename T>
    constexpr shim::integer_t<T> integer{};
    template <typename P>
    constexpr shim::prod<P> p{};
    template <typename P>
    constexpr shim::prod<P> recurse{};
    constexpr shim::lit<shim::fixed<2>(",")> comma{};
    template <typename A>
    constexpr shim::many<A, 0> while_(A) {
        return {};
    }
    template <typename A>
    constexpr shim::many<A, 1> while_one(A) {
        return {};
    }
    template <typename A>
    constexpr shim::many<A, 0> whitespace(A) {
        return {};
    }
    template <typename A>
    constexpr shim::opt_t<A> opt(A) {
        return {};
    }
    template <typename A>
    constexpr shim::peek_t<A> peek(A) {
        return {};
    }
    template <typename A>
    constexpr shim::token_t<A> token(A) {
        return {};
    }
    template <typename A>
    constexpr shim::capture_t<A> capture(A) {
        return {};
    }
    template <typename A>
    constexpr shim::capture_t<shim::many<A, 1>> identifier(A) {
        return {};
    }
    template <typename A>
    constexpr shim::until_t<A> until(A) {
        return {};
    }
    template <int N, typename A>
    constexpr shim::times_t<A, N> times(A) {
        return {};
    }
    template <typename A, typename B>
    constexpr shim::not_followed<A, B> not_followed_by(A, B) {
        return {};
    }
    template <typename... L>
    constexpr shim::lits<L...> literal_set(L...) {
        return {};
    }
    template <typename A>
    constexpr shim::sep_t<A> sep(A) {
        return {};
    }
    template <typename A>
    constexpr shim::list_t<A, void> list(A) {
        return {};
    }
    template <typename A, typename S>
    constexpr shim::list_t<A, shim::sep_t<S>> list(A, shim::sep_t<S>) {
        return {};
    }
    template <typename A>
    constexpr auto curly_bracketed(A a) {
        return lit_c<'{'> >> (a + lit_c<'}'>);
    }
    template <typename A>
    constexpr auto round_bracketed(A a) {
        return lit_c<'('> >> (a + lit_c<')'>);
    }
    namespace ascii {
        constexpr shim::space_t            space{};
        constexpr shim::alpha_t            alpha{};
        constexpr shim::digit_t            digit{};
        constexpr shim::word_t             alpha_digit_underscore{};
        constexpr shim::word_t             word{};
        constexpr shim::alpha_underscore_t alpha_underscore{};
        constexpr shim::character_t        character{};
        template <typename L>
        constexpr auto case_folding(L l) {
            return shim::fold(l);
        }
    } // namespace ascii
} // namespace dsl
} // namespace lexy

#define LEXY_LIT(text) (::lexy::shim::lit<::lexy::shim::fixed(text)>{})
#define LEXY_LITERAL_SET(...) (::lexy::dsl::literal_set(__VA_ARGS__))
#define LEXY_CHAR_CLASS(name, ...) (__VA_ARGS__)
