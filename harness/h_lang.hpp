// Constructive oracle for the highlighters: a case is a document assembled from lexical elements of a
// language, together with the tokens those elements are defined to have.
#ifndef VP_H_LANG_HPP
#define VP_H_LANG_HPP

#include "hl.hpp"

#include <algorithm>
#include <functional>
#include <span>

#define H(x) unsigned(ULIGHT_HL_##x)

namespace vp::lang {

struct Kw {
    const char* code;
    unsigned type;
};

struct Doc {
    std::string s;
    std::vector<Tok> w;
    std::vector<std::string> classes;

    Doc& t(unsigned type, std::string_view x)
    {
        if (!x.empty()) {
            w.push_back({ s.size(), x.size(), type });
            s += x;
        }
        return *this;
    }
    Doc& r(std::string_view x)
    {
        s += x;
        return *this;
    }
    /// Appends another document (an embedded piece).
    Doc& d(const Doc& o)
    {
        for (Tok k : o.w) {
            k.begin += s.size();
            w.push_back(k);
        }
        s += o.s;
        return *this;
    }
    void cls(const char* n) { classes.push_back(n); }
    /// Digits, with each separator as a token of its own (separator 0: one token).
    Doc& digits(std::string_view x, char separator = 0)
    {
        std::size_t b = 0;
        for (std::size_t i = 0; i <= x.size(); ++i) {
            if (i == x.size() || (separator && x[i] == separator)) {
                t(H(NUMBER), x.substr(b, i - b));
                if (i < x.size()) {
                    t(H(NUMBER_DELIM), x.substr(i, 1));
                }
                b = i + 1;
            }
        }
        return *this;
    }
    char last() const { return s.empty() ? '\n' : s.back(); }
};

/// Merges adjacent tokens of equal type.
inline std::vector<Tok> coalesce(const std::vector<Tok>& v)
{
    std::vector<Tok> o;
    for (const Tok& k : v) {
        if (!o.empty() && o.back().end() == k.begin && o.back().type == k.type) {
            o.back().length += k.length;
        }
        else {
            o.push_back(k);
        }
    }
    return o;
}

/// Insists that highlighting the document gives its tokens. With `merged`, only up to merging of
/// adjacent tokens of equal type (where how a run is split is not specified).
void check_doc(Ctx& c, const Doc& d, ulight_lang lang, int flags = 0, bool merged = false);

// ---- generators of parts

bool is_kw(std::span<const Kw> t, std::string_view s);
/// An identifier that is none of the keywords; near misses of keywords are likely.
std::string gen_ident(Src& s, std::span<const Kw> kws, bool unicode = true, std::string_view extra_start = "_", std::string_view extra_cont = "_");
/// Text of up to `max` characters, none of the ASCII characters of `forbid`, no controls but those in `allow`.
std::string gen_text(Src& s, std::string_view forbid, std::size_t max = 8, std::string_view allow = "", bool unicode = true);
/// Text up to the first occurrence of `term` (which is not part of it): what could mislead a search for
/// `term` is likely, i.e. parts of it, repeated characters of it, also directly before it.
std::string gen_until(Src& s, std::string_view term, std::string_view forbid = "", std::string_view allow = "", bool unicode = true, std::size_t max = 8);
/// The contents of a nesting "/*" comment whose own end is the "*/" that follows them.
std::string gen_nested_comment(Src& s, std::string_view allow = "\n", bool unicode = true);
/// n digits of the base, 1 <= n <= max, possibly with interior single separators.
std::string gen_digits(Src& s, int base, std::size_t max = 5, char separator = 0);
std::string hex(Src& s, std::size_t n);
/// Whitespace of at least one character out of " \t\n" (each a possible run), plus `more`.
std::string gen_ws(Src& s, std::string_view chars = " \t\n");

struct Number_Opts {
    std::vector<std::pair<const char*, int>> prefixes; // e.g. "0x", 16
    std::vector<const char*> int_suffixes; // decimal, without prefix
    std::vector<const char*> prefix_int_suffixes;
    std::vector<const char*> float_suffixes;
    char separator = 0;
    bool leading_dot = false;
    bool trailing_dot = false;
    bool dot_exponent = false; // 1.e5 and 1.f
    bool exponent = true;
    bool leading_zero = false; // decimal integers may start with 0 and have several digits
};
void gen_number(Src& s, Doc& d, const Number_Opts& o);

/// Assembles up to `max` elements. Neighbours are separated by whitespace, or by brackets and the like
/// (of `solo`), which never combine with what precedes or follows them, or directly follow those.
/// An element that must be followed by a particular character (e.g. a line comment) ends with it.
template <class F>
void assemble(Src& s, Doc& d, std::size_t max, F&& element, std::string_view solo = "()[]{},;", std::string_view ws = " \t\n", std::initializer_list<const char*> odd_ws = {})
{
    const std::size_t n = 1 + s.size(max);
    for (std::size_t i = 0; i < n; ++i) {
        const bool after_solo = !d.s.empty() && solo.find(d.last()) != solo.npos && !d.w.empty() && d.w.back().end() == d.s.size() && d.w.back().length == 1;
        if (!d.s.empty() && !(after_solo && s.chance(2, 3))) {
            if (!solo.empty() && s.chance(1, 3)) {
                const char p = solo[s.below(solo.size())];
                d.t(p == '(' || p == ')' ? H(SYMBOL_PARENS) : p == '[' || p == ']' ? H(SYMBOL_SQUARE) : p == '{' || p == '}' ? H(SYMBOL_BRACE) : H(SYMBOL_PUNC), std::string(1, p));
            }
            else if (odd_ws.size() && s.chance(1, 12)) {
                d.r(s.pick(odd_ws));
            }
            else {
                d.r(gen_ws(s, ws));
            }
        }
        element();
    }
}

} // namespace vp::lang

#endif
