#pragma once
// Generated org documents, as a list of independent blocks of text.
#include "simkit.hpp"

namespace docgen {
using sim::Rng;
using S = std::string;

inline S word(Rng& r) {
    static char const* w[] = {"alpha", "beta", "gamma", "word", "Text", "x", "long-word", "T0", "42", "it's", "a/b", "end", "über", "naïve"};
    return w[r.below(14)];
}
inline S ident(Rng& r) {
    static char const* w[] = {"one", "two", "three", "fn", "key"};
    return S(w[r.below(5)]) + std::to_string(r.below(4));
}
inline S stamp(Rng& r) {
    char a = r.chance(1, 2) ? '<' : '[', b = a == '<' ? '>' : ']';
    char buf[80];
    int  n = snprintf(buf, sizeof buf, "%c20%02d-%02d-%02d", a, (int)r.range(10, 29), (int)r.range(1, 12), (int)r.range(1, 28));
    static char const* wd[] = {" Mon", " Tue", " Sun", ""};
    S s(buf, n);
    s += wd[r.below(4)];
    if (r.chance(1, 2)) { snprintf(buf, sizeof buf, " %02d:%02d:%02d", (int)r.below(24), (int)r.below(60), (int)r.below(60)); s += buf; }
    return s + b;
}
inline S inline_piece(Rng& r, int depth = 0) {
    switch (r.below(depth > 1 ? 6 : 22)) {
        case 0: case 1: case 2: case 3: case 4: case 5: return word(r);
        case 6: return "*" + inline_piece(r, depth + 1) + "*";
        case 7: return "/" + inline_piece(r, depth + 1) + "/";
        case 8: return "=" + word(r) + "=";
        case 9: return "~" + word(r) + "~";
        case 10: return "_" + inline_piece(r, depth + 1) + "_";
        case 11: return "+" + inline_piece(r, depth + 1) + "+";
        case 12: return "[[https://example.com/" + ident(r) + "][" + inline_piece(r, 2) + "]]";
        case 13: return "[[id:" + ident(r) + "]]";
        case 14: return "[[file:" + ident(r) + ".org]]";
        case 15: return stamp(r);
        case 16: return "#" + ident(r) + (r.chance(1, 2) ? "##sub" : r.chance(1, 2) ? "##[a,b]" : "");
        case 17: return "[fn:" + ident(r) + "]";
        case 18: return "{{{" + ident(r) + "(" + word(r) + ")}}}";
        case 19: return "$a + " + std::to_string(r.below(9)) + "$";
        case 20: return "@" + ident(r);
        default: return "<<" + ident(r) + ">>";
    }
}
inline S line(Rng& r, int lo = 1, int hi = 6) {
    S   s;
    int n = (int)r.range(lo, hi);
    for (int i = 0; i < n; ++i) { s += (i ? " " : "") + inline_piece(r); }
    return s;
}
inline S block(Rng& r, int& level) {
    switch (r.below(20)) {
        case 0: case 1: case 2: case 3: {
            level = level == 0 ? 1 : std::min(4, std::max(1, level + (int)r.range(-2, 1)));
            S                  s(level, '*');
            static char const* todo[] = {"", "", " TODO", " DONE", " WIP"};
            s += todo[r.below(5)];
            if (r.chance(1, 5)) { s += " [#A]"; }
            s += " " + line(r, 1, 4);
            if (r.chance(1, 4)) { s += " [1/3]"; }
            if (r.chance(1, 3)) { s += " :" + ident(r) + ":" + (r.chance(1, 2) ? "tag##sub:" : ""); }
            s += "\n";
            if (r.chance(1, 5)) { s += "DEADLINE: " + stamp(r) + "\n"; }
            else if (r.chance(1, 5)) { s += "CLOSED: " + stamp(r) + "\n"; }
            if (r.chance(1, 3)) {
                s += ":PROPERTIES:\n";
                if (r.chance(2, 3)) { s += ":ID: " + ident(r) + "\n"; }
                if (r.chance(1, 3)) { s += ":CREATED: [2023-0" + std::to_string(r.range(1, 9)) + "-12 Mon 10:11:12]\n"; }
                if (r.chance(1, 3)) { s += ":VISIBILITY: content\n"; }
                if (r.chance(1, 3)) { s += ":CUSTOM_" + ident(r) + ": " + word(r) + "\n"; }
                s += ":END:\n";
            }
            if (r.chance(1, 5)) {
                s += ":LOGBOOK:\n- Note taken on [2023-10-12 Thu 12:1" + std::to_string(r.below(9)) + ":00] \\\\\n  " + word(r)
                   + "\n- State \"DONE\"       from \"TODO\"       [2023-10-13 Fri 11:00:00]\n:END:\n";
            }
            return s + "\n";
        }
        case 4: case 5: case 6: case 7: {
            S   s;
            int n = (int)r.range(1, 3);
            for (int i = 0; i < n; ++i) { s += line(r, 2, 7) + "\n"; }
            return s + "\n";
        }
        case 8: case 9: case 10: {
            S                  s;
            int                n = (int)r.range(1, 4);
            static char const* mark[] = {"-", "+", "1."};
            S                  m = mark[r.below(3)];
            int                ind = 0;
            for (int i = 0; i < n; ++i) {
                if (i) { ind = r.chance(1, 3) ? ind + 2 : r.chance(1, 3) ? 0 : ind; }
                s += S(ind, ' ') + m + (r.chance(1, 4) ? " [ ] " : r.chance(1, 5) ? " [X] " : " ");
                if (m == "-" && r.chance(1, 5)) { s += word(r) + " :: "; }
                s += line(r, 1, 4) + "\n";
                if (r.chance(1, 6)) { s += S(ind + m.size() + 1, ' ') + line(r, 1, 3) + "\n"; }
            }
            return s + "\n";
        }
        case 11: case 12: {
            S   s;
            int rows = (int)r.range(1, 3), cols = (int)r.range(1, 3);
            for (int i = 0; i < rows; ++i) {
                s += "|";
                for (int j = 0; j < cols; ++j) { s += " " + inline_piece(r, 1) + " |"; }
                s += "\n";
                if (i == 0 && r.chance(1, 3)) { s += "|---"; for (int j = 1; j < cols; ++j) { s += "+---"; } s += "|\n"; }
            }
            return s + "\n";
        }
        case 13: {
            S s = "#+begin_src " + S(r.chance(1, 2) ? "python" : "cpp") + (r.chance(1, 2) ? " :results output :var x=" + std::to_string(r.below(9)) : "") + "\n";
            int n = (int)r.below(3);
            for (int i = 0; i < n; ++i) { s += S(r.below(3) * 2, ' ') + word(r) + " = " + word(r) + "\n"; }
            return s + "#+end_src\n\n";
        }
        case 14: return "#+begin_quote\n" + line(r, 1, 5) + "\n#+end_quote\n\n";
        case 15: return "#+begin_example\n" + word(r) + "  " + word(r) + "\n#+end_example\n\n";
        case 16: {
            static char const* k[] = {"#+title: ", "#+filetags: :a:b:\n", "#+author: ", "#+property: header-args:x ", "#+options: num:t\n"};
            S                  s = k[r.below(5)];
            if (s.back() != '\n') { s += word(r) + "\n"; }
            return s + "\n";
        }
        case 17: return "#+caption: " + line(r, 1, 3) + "\n#+name: " + ident(r) + "\n| a | b |\n\n";
        case 18: return "[fn:" + ident(r) + "] " + line(r, 1, 4) + "\n\n";
        default: {
            S s = "- " + word(r) + "\n\n  #+begin_src text\n  " + word(r) + "\n  #+end_src\n\n";
            return s;
        }
    }
}
} // namespace docgen
