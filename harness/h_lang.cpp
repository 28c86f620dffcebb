#include "h_lang.hpp"

#include <span>

namespace vp::lang {

namespace {
std::string show_toks(std::string_view src, const std::vector<Tok>& v, std::size_t around)
{
    std::string o;
    for (std::size_t i = around < 3 ? 0 : around - 3; i < v.size() && i < around + 4; ++i) {
        o += cat(" [", v[i].begin, "+", v[i].length, " ", type_name(v[i].type), " ", quote(v[i].end() <= src.size() ? src.substr(v[i].begin, v[i].length) : "?"), "]");
    }
    return o;
}
}

void check_doc(Ctx& c, const Doc& d, ulight_lang lang, int flags, bool merged)
{
    c.describe(cat(lang_id(lang), flags ? cat(" flags ", flags) : std::string(), ": ", quote(d.s)));
    for (const auto& k : d.classes) {
        c.cls(k);
    }
    if (d.w.size() >= 3) {
        c.nontrivial(d.s, std::uint64_t(lang) * 16 + unsigned(flags));
    }
    std::vector<Tok> got = ok_tokens(d.s, lang, flags);
    const bool co = merged || (flags & ULIGHT_COALESCE);
    if (merged) {
        got = coalesce(got);
    }
    const std::vector<Tok> want = co ? coalesce(d.w) : d.w;
    const std::size_t n = std::min(got.size(), want.size());
    std::size_t i = 0;
    while (i < n && got[i] == want[i]) {
        ++i;
    }
    if (i == n && got.size() == want.size()) {
        return;
    }
    const unsigned a = i < want.size() ? want[i].type : 0, b = i < got.size() ? got[i].type : 0;
    fail(cat("tokens-", type_name(a), "-", type_name(b)), cat("token ", i, ": expected", show_toks(d.s, want, i), "; got", show_toks(d.s, got, i)));
}

bool is_kw(std::span<const Kw> t, std::string_view s)
{
    return std::any_of(t.begin(), t.end(), [&](const Kw& k) { return s == k.code; });
}

namespace {
constexpr const char* letters[] { "é", "ß", "λ", "я", "中", "ท", "𝒳", "ı", "ª" };
std::string lower_word(Src& s, std::string_view start, std::string_view cont, std::size_t max, bool unicode)
{
    std::string o;
    const std::size_t n = 1 + s.size(max - 1);
    for (std::size_t i = 0; i < n; ++i) {
        const std::string_view extra = i ? cont : start;
        switch (s.weighted({ 8, 2, unsigned(i ? 2 : 0), unsigned(extra.empty() ? 0 : 2), unsigned(unicode ? 1 : 0) })) {
        case 0: o += char('a' + s.below(26)); break;
        case 1: o += char('A' + s.below(26)); break;
        case 2: o += char('0' + s.below(10)); break;
        case 3: o += extra[s.below(extra.size())]; break;
        default: o += s.pick(letters); break;
        }
    }
    return o;
}
}

std::string gen_ident(Src& s, std::span<const Kw> kws, bool unicode, std::string_view start, std::string_view cont)
{
    std::string o;
    // Near misses of keywords, if they are words.
    if (!kws.empty() && s.chance(1, 3)) {
        o = kws[s.below(kws.size())].code;
        const bool word = std::all_of(o.begin(), o.end(), [](char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || (c >= '0' && c <= '9'); })
            && !(o[0] >= '0' && o[0] <= '9') && (o.find('_') == o.npos || cont.find('_') != cont.npos) && (o[0] != '_' || start.find('_') != start.npos);
        if (!word) {
            o.clear();
        }
        else {
            switch (s.below(6)) {
            case 0: o += lower_word(s, cont, cont, 2, unicode); break;
            case 1: o = lower_word(s, start, cont, 2, unicode) + o; break;
            case 2: o.pop_back(); break;
            case 3: o[0] = char(o[0] ^ (o[0] >= 'A' ? (o[0] == '_' ? 0 : 32) : 0)); break;
            case 4: o += '0'; break;
            default: {
                std::string l = o;
                const std::size_t at = s.below(l.size());
                l.insert(at, 1, l[at]);
                if (!(l[0] >= '0' && l[0] <= '9')) {
                    o = l;
                }
                break;
            }
            }
        }
    }
    if (o.empty()) {
        o = lower_word(s, start, cont, 8, unicode);
    }
    while (is_kw(kws, o)) {
        o += 'q';
    }
    return o;
}

std::string gen_text(Src& s, std::string_view forbid, std::size_t max, std::string_view allow, bool unicode)
{
    std::string o;
    const std::size_t n = s.size(max);
    for (std::size_t i = 0; i < n; ++i) {
        std::string x;
        switch (s.weighted({ 6, 5, 2, unsigned(unicode ? 1 : 0), unsigned(allow.empty() ? 0 : 2) })) {
        case 0: x = char('a' + s.below(26)); break;
        case 1: x = char(33 + s.below(94)); break;
        case 2: x = " "; break;
        case 3: x = s.pick(letters); break;
        default: x = allow[s.below(allow.size())]; break;
        }
        if (x.size() == 1 && forbid.find(x[0]) != forbid.npos) {
            x = "x";
            if (forbid.find('x') != forbid.npos) {
                continue;
            }
        }
        o += x;
    }
    return o;
}

std::string gen_until(Src& s, std::string_view term, std::string_view forbid, std::string_view allow, bool unicode, std::size_t max)
{
    std::string o;
    for (std::size_t i = 0, n = s.size(5); i < n; ++i) {
        switch (s.below(6)) {
        case 0: o += term.substr(0, s.below(term.size())); break;
        case 1: o += term.substr(s.below(term.size())); break;
        case 2: o += std::string(1 + s.below(2 * term.size() + 2), term[s.below(term.size())]); break;
        default: o += gen_text(s, forbid, max, allow, unicode); break;
        }
    }
    o.resize((o + std::string(term)).find(term));
    return o;
}

std::string gen_nested_comment(Src& s, std::string_view allow, bool unicode)
{
    std::string o;
    for (std::size_t i = 0, n = s.size(7); i < n; ++i) {
        switch (s.below(6)) {
        case 0: o += "/*"; break;
        case 1: o += "*/"; break;
        case 2: o += s.pick({ "/", "*", "**", "//", "/**/", "/*/", "*/*", "/ *", "* /" }); break;
        default: o += gen_text(s, "", 5, allow, unicode); break;
        }
    }
    while (true) {
        const std::string all = o + "*/";
        std::size_t depth = 1, at = 0;
        while (depth && at < all.size()) {
            if (all.compare(at, 2, "/*") == 0) {
                ++depth;
                at += 2;
            }
            else if (all.compare(at, 2, "*/") == 0) {
                --depth;
                at += 2;
            }
            else {
                ++at;
            }
        }
        if (depth) {
            o += " */";
            continue;
        }
        o.resize(at - 2);
        return o;
    }
}

std::string gen_digits(Src& s, int base, std::size_t max, char separator)
{
    std::string o;
    const std::size_t n = 1 + s.size(max - 1);
    for (std::size_t i = 0; i < n; ++i) {
        if (i && separator && s.chance(1, 4)) {
            o += separator;
        }
        const std::uint32_t v = s.below(std::uint64_t(base));
        o += v < 10 ? char('0' + v) : char((s.chance(1, 2) ? 'A' : 'a') + v - 10);
    }
    return o;
}

std::string hex(Src& s, std::size_t n)
{
    std::string o;
    for (std::size_t i = 0; i < n; ++i) {
        o += s.pick("0123456789abcdefABCDEF");
        if (o.back() == 0) {
            o.back() = '0';
        }
    }
    return o;
}

std::string gen_ws(Src& s, std::string_view chars)
{
    std::string o;
    const std::size_t n = 1 + (s.chance(1, 4) ? s.size(3) : 0);
    for (std::size_t i = 0; i < n; ++i) {
        o += chars[s.below(chars.size())];
    }
    return o;
}

void gen_number(Src& s, Doc& d, const Number_Opts& o)
{
    const char sep = o.separator;
    const auto suffix = [&](const std::vector<const char*>& v) {
        if (!v.empty() && s.chance(1, 2)) {
            d.t(H(NUMBER_DECOR), s.pick(v));
        }
    };
    switch (s.weighted({ 4, unsigned(o.prefixes.empty() ? 0 : 3), 3 })) {
    case 0: {
        d.cls("decimal integer");
        std::string x = gen_digits(s, 10, 6, sep);
        if (x[0] == '0' && x.size() > 1 && !o.leading_zero) {
            x[0] = '1';
        }
        d.digits(x, sep);
        suffix(o.int_suffixes);
        break;
    }
    case 1: {
        d.cls("prefixed integer");
        const auto& [p, base] = o.prefixes[s.below(o.prefixes.size())];
        d.t(H(NUMBER_DECOR), p);
        d.digits(gen_digits(s, base, 6, sep), sep);
        suffix(o.prefix_int_suffixes);
        break;
    }
    default: {
        d.cls("fraction or exponent");
        std::string x = gen_digits(s, 10, 4, sep);
        if (x[0] == '0' && x.size() > 1 && !o.leading_zero) {
            x[0] = '1';
        }
        const unsigned shape = unsigned(s.weighted({ 4, unsigned(o.leading_dot ? 2 : 0), unsigned(o.trailing_dot ? 2 : 0), unsigned(o.exponent ? 3 : 0) }));
        if (shape != 1) {
            d.digits(x, sep);
        }
        if (shape != 3) {
            d.t(H(NUMBER_DELIM), ".");
        }
        if (shape == 0 || shape == 1) {
            d.digits(gen_digits(s, 10, 4, sep), sep);
        }
        if (o.exponent && (shape == 3 || (s.chance(1, 2) && (shape != 2 || o.dot_exponent)))) {
            d.t(H(NUMBER_DELIM), s.pick({ "e", "E", "e+", "e-", "E+", "E-" }));
            d.digits(gen_digits(s, 10, 3, sep), sep);
        }
        if (shape != 2 || o.dot_exponent) {
            suffix(o.float_suffixes);
        }
        break;
    }
    }
}

} // namespace vp::lang
