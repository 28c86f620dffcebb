#include "h_lang.hpp"

// L20 COWEL: markup text with escapes, directives, expression splices and comments; groups of named and
// positional members; expressions.
namespace vp::lang {
namespace {

struct Gen {
    Src& s;
    Doc& d;
    int budget = 40;

    enum Kind { document, string, name, block };

    static bool id_char(char c) { return std::isalnum(static_cast<unsigned char>(c)) || c == '_'; }

    void text(Kind k, std::string_view x)
    {
        if (k == string || k == name) {
            d.t(k == string ? H(STRING) : H(MARKUP_ATTR), x);
        }
        else {
            d.r(x);
        }
    }

    std::string ident()
    {
        static const Kw words[] { { "unit", 0 }, { "null", 0 }, { "let", 0 }, { "fun", 0 }, { "true", 0 }, { "false", 0 }, { "infinity", 0 } };
        return gen_ident(s, words, false);
    }

    // ---- markup

    /// Plain text; `first` is whether it follows something that could extend into it.
    void plain(Kind k, const char* avoid_first)
    {
        std::string x = gen_text(s, k == string || k == name ? "\\\"" : k == block ? "\\{}" : "\\", 8, "\n\t,=()[]\"':*+-");
        while (!x.empty() && std::string_view(avoid_first).find(x[0]) != std::string_view::npos) {
            x.erase(0, 1);
        }
        if (*avoid_first && !x.empty() && id_char(x[0])) {
            x.insert(0, s.pick({ " ", ".", "-", "\n", "'" }));
        }
        text(k, x);
        if (k == block && s.chance(1, 6)) {
            d.cls("braces in text");
            // Braces which are not closed right away, also around any other elements, and right after them.
            const std::size_t n = 1 + s.below(3);
            d.r(x.empty() && *avoid_first ? "." : s.pick({ "", ".", " " }));
            for (std::size_t i = 0; i < n; ++i) {
                d.r("{");
            }
            for (std::size_t i = n; i > 0; --i) {
                if (s.chance(1, 2)) {
                    markup(block, 3);
                }
                else {
                    plain(k, "");
                }
                d.r("}");
            }
        }
    }

    void named_escape()
    {
        d.cls("named escape");
        if (s.chance(1, 4)) {
            d.t(H(ERROR), s.pick({ "\\'DIGIT.ZERO'", "\\' A'", "\\'A '", "\\'digit zero'", "\\''", "\\'A_B'", "\\'\xc3\x89'", "\\'(A)'" }));
            return;
        }
        std::string x(1, s.pick({ 'A', 'D', 'Z', '9' }));
        for (std::size_t i = 0, n = s.size(4); i < n; ++i) {
            x += s.pick({ " B", "-C", "DIGIT", "0", "X", "  Y" });
        }
        d.t(H(STRING_ESCAPE), "\\'" + x + "'");
    }

    void escape(Kind k)
    {
        d.cls("escape");
        switch (s.below(7)) {
        case 0: named_escape(); break;
        case 1: {
            d.cls("numeric escape");
            const bool eight = s.chance(1, 2);
            std::string h = hex(s, eight ? 8 : 4);
            const bool upper = s.chance(1, 2);
            for (char& c : h) {
                c = char(upper ? std::toupper(c) : std::tolower(c));
            }
            const bool other_case = !eight && s.chance(1, 4);
            if (other_case) {
                h[0] = upper ? 'A' : 'a';
            }
            d.t(H(STRING_ESCAPE), "\\+" + h);
            if (!eight && !other_case && s.chance(1, 3)) {
                // Up to three further digits are none of the escape.
                d.cls("digits after a numeric escape");
                text(k, hex(s, 1 + s.below(3)));
            }
            else if (other_case) {
                // Neither are digits in the other case.
                d.cls("digits in the other case after a numeric escape");
                text(k, upper ? s.pick({ "a234", "012f" }) : s.pick({ "A234", "012F" }));
            }
            text(k, s.pick({ " ", "g", "/", "Z", "." }));
            break;
        }
        case 2: {
            d.cls("reserved escape");
            if (s.chance(1, 4)) {
                d.t(H(ERROR), "\\+");
                text(k, s.pick({ " ", "12", "12g", "aBcD", "+" }));
                // (No further digits.)
                text(k, s.pick({ ".", "g" }));
            }
            else {
                d.t(H(ERROR), "\\" + std::string(s.pick({ "!", "#", "$", "%", "&", ")", ",", "-", ".", "/", "0", "9", ";", "?", "@", "[", "]", "^", "`", "|", "~", "<", ">", "=", "\t", "\xc3\xa9", "\xe4\xb8\xad", "\xf0\x9f\x98\x80" })));
            }
            break;
        }
        case 3:
            d.cls("escaped line break");
            d.t(H(STRING_ESCAPE), "\\");
            text(k, s.pick({ "\n", "\r\n", "\r" }));
            break;
        default: d.t(H(STRING_ESCAPE), s.pick({ "\\\\", "\\{", "\\}", "\\\"" })); break;
        }
    }

    std::string comment_text(bool line)
    {
        if (!line) {
            return gen_until(s, "*\\", "", "\n\t*:\\");
        }
        std::string x = gen_text(s, "\\", 8, "\t*");
        if (s.chance(1, 3)) {
            x += s.pick({ "\\", "\\*", "\\:", "{", "}", "(", "\"", "\\a(", "*" });
        }
        if (x.ends_with("\\")) {
            x += " ";
        }
        return x;
    }

    void comment(bool in_text, Kind k, bool may_break)
    {
        if (may_break && s.chance(1, 2)) {
            d.cls("line comment");
            d.t(H(COMMENT_DELIM), "\\:").t(H(COMMENT), comment_text(true));
            const std::string_view nl = s.pick({ "\n", "\r\n", "\r" });
            if (in_text) {
                text(k, nl);
            }
            else {
                d.r(nl);
            }
        }
        else {
            d.cls("block comment");
            std::string x = comment_text(false);
            if (!may_break) {
                std::replace(x.begin(), x.end(), '\n', ' ');
            }
            d.t(H(COMMENT_DELIM), "\\*").t(H(COMMENT), x).t(H(COMMENT_DELIM), "*\\");
        }
    }

    /// Elements of text; the last may be one that affects what follows only if something separates it.
    void markup(Kind k, std::size_t max)
    {
        const char* avoid = "";
        const std::size_t n = s.size(max);
        for (std::size_t i = 0; i < n; ++i) {
            if (--budget < 0) {
                break;
            }
            switch (s.below(9)) {
            case 0:
            case 1: {
                const std::size_t before = d.s.size();
                plain(k, avoid);
                if (d.s.size() == before) {
                    continue;
                }
                avoid = "";
                break;
            }
            case 2:
                // (An escaped letter would be part of no directive name: escapes begin with a backslash.)
                escape(k);
                avoid = "";
                break;
            case 3:
                comment(true, k, true);
                avoid = "";
                break;
            case 4:
                if (k == name) {
                    break;
                }
                d.cls("expression splice");
                d.t(H(STRING_INTERPOLATION_DELIM), "\\(");
                blank();
                chain(true, true, true, true);
                blank();
                d.t(H(STRING_INTERPOLATION_DELIM), ")");
                avoid = "";
                break;
            case 5:
                if (k == name) {
                    break;
                }
                d.cls("expression line splice");
                d.t(H(STRING_INTERPOLATION_DELIM), "\\ ");
                if (!s.chance(1, 10)) {
                    chain(true, false, true);
                }
                d.r(s.pick({ "", "", " ", "\t", "  " }));
                d.r(s.pick({ "\n", "\r\n", "\r" }));
                if (d.s.back() == '\r') {
                    text(k, "x");
                }
                avoid = "";
                break;
            default:
                if (k == name) {
                    break;
                }
                avoid = directive();
                break;
            }
        }
        if (*avoid && (k == document || k == block || k == string)) {
            // What follows ends the text.
            if (k == document) {
                d.r("\n");
            }
        }
    }

    const char* directive()
    {
        d.cls("directive");
        d.t(H(MARKUP_TAG), "\\" + gen_ident(s, {}, false));
        const char* avoid = "({";
        if (s.chance(1, 2)) {
            group();
            avoid = "{";
        }
        if (s.chance(1, 2)) {
            block_();
            avoid = "";
        }
        return avoid;
    }

    void block_()
    {
        d.t(H(SYMBOL_BRACE), "{");
        markup(block, 4);
        d.t(H(SYMBOL_BRACE), "}");
    }

    // ---- groups and expressions

    /// Whitespace and comments, or nothing.
    void blank(bool lines = true, bool some = false)
    {
        const std::size_t n = some ? 1 + s.below(2) : s.chance(1, 2) ? 0 : 1 + s.below(2);
        for (std::size_t i = 0; i < n; ++i) {
            if (s.chance(1, 8)) {
                comment(false, document, lines);
            }
            else {
                d.r(lines ? s.pick({ " ", " ", "\n", "\t", "  ", "\r\n", "\f" }) : s.pick({ " ", " ", "\t", "  ", "\f" }));
            }
        }
        if (some && n == 0) {
            d.r(" ");
        }
    }

    void group()
    {
        d.cls("group");
        d.t(H(SYMBOL_PARENS), "(");
        const std::size_t n = s.size(4);
        for (std::size_t i = 0; i < n; ++i) {
            blank();
            switch (s.below(6)) {
            case 0:
                d.cls("ellipsis");
                d.t(H(NAME_ATTR), "...");
                break;
            case 1:
            case 2:
                d.cls("named member");
                if (s.chance(1, 4)) {
                    d.cls("quoted member name");
                    d.t(H(MARKUP_ATTR_DELIM), "\"");
                    markup(name, 4);
                    d.t(H(MARKUP_ATTR_DELIM), "\"");
                }
                else {
                    d.t(H(MARKUP_ATTR), gen_ident(s, {}, false));
                }
                blank();
                d.t(H(SYMBOL_PUNC), "=");
                blank(true, true);
                if (!s.chance(1, 12)) {
                    chain(false, true, false);
                }
                break;
            case 3:
                if (n > 1) {
                    d.cls("empty member");
                    break;
                }
                [[fallthrough]];
            default: chain(false, true, true); break;
            }
            blank();
            if (i + 1 < n || s.chance(1, 6)) {
                d.t(H(SYMBOL_PUNC), ",");
            }
        }
        blank();
        d.t(H(SYMBOL_PARENS), ")");
    }

    /// Expressions with operators between them. `assign`: = may occur (where it makes no named member).
    void chain(bool assign, bool lines, bool prefix, bool splice = false)
    {
        const std::size_t n = 1 + s.size(3);
        for (std::size_t i = 0; i < n; ++i) {
            if (i > 0) {
                blank(lines, true);
                d.t(H(SYMBOL_OP), s.pick({ "+", "-", "*", "/", "%", "==", "!=", "<", ">", "<=", ">=", "&&", "||" }));
                blank(lines, true);
            }
            else if (prefix && s.chance(1, 8)) {
                d.t(H(SYMBOL_OP), s.pick({ "!", "~", "+" }));
                blank(lines);
            }
            expression(lines, splice);
        }
        if (assign && s.chance(1, 6)) {
            d.cls("assignment");
            blank(lines, true);
            d.t(H(SYMBOL_PUNC), "=");
            blank(lines, true);
            expression(lines, splice);
        }
    }

    void number()
    {
        d.cls("number");
        switch (s.below(8)) {
        case 0: d.t(H(NUMBER_DECOR), "0x").t(H(NUMBER), hex(s, 1 + s.below(6))); break;
        case 1: d.t(H(NUMBER_DECOR), "0b").t(H(NUMBER), gen_digits(s, 2, 6)); break;
        case 2: d.t(H(NUMBER_DECOR), "0o").t(H(NUMBER), gen_digits(s, 8, 6)); break;
        case 3:
            d.cls("malformed number");
            d.t(H(ERROR), s.pick({ "0x", "0b2", "0o8", "1a", "1.2.3", "0..", "1e", "1e+", "2E-", "0xff.0", ".0xff", "12abc34", "1e5.", "0xE+1" }));
            break;
        default: {
            std::string i = gen_digits(s, 10, 5);
            const bool dot = s.chance(1, 3), lead = dot && s.chance(1, 4);
            if (!lead) {
                d.t(H(NUMBER), i);
            }
            if (dot) {
                d.t(H(NUMBER_DELIM), ".");
                if (lead || s.chance(3, 4)) {
                    d.t(H(NUMBER), gen_digits(s, 10, 4));
                }
            }
            if (s.chance(1, 4)) {
                d.t(H(NUMBER_DELIM), s.pick({ "e", "E", "e+", "E+", "e-", "E-" })).t(H(NUMBER), gen_digits(s, 10, 3));
            }
            break;
        }
        }
    }

    /// An expression; something that is not part of it has to follow.
    void expression(bool lines, bool splice)
    {
        if (--budget < 0) {
            d.t(H(NUMBER), "0");
            return;
        }
        switch (s.below(11)) {
        case 0:
        case 1:
            d.cls("variable");
            d.t(H(NAME_VAR), ident());
            break;
        case 2:
            d.cls("named value");
            switch (s.below(5)) {
            case 0: d.t(H(BOOL), s.pick({ "true", "false" })); break;
            case 1: d.t(H(VALUE_DELIM), "-").t(H(VALUE), "infinity"); break;
            case 2: d.t(H(VALUE), "infinity"); break;
            default: d.t(H(KEYWORD), s.pick({ "unit", "null" })); break;
            }
            break;
        case 3:
        case 4: number(); break;
        case 5:
        case 6:
            d.cls("string");
            d.t(H(STRING_DELIM), "\"");
            markup(string, 4);
            d.t(H(STRING_DELIM), "\"");
            break;
        case 7:
            d.cls("block");
            block_();
            break;
        case 8: group(); break;
        case 9:
            d.cls("function");
            d.t(H(KEYWORD), "fun");
            blank(false, true);
            d.t(H(NAME_FUNCTION_DECL), gen_ident(s, {}, false));
            if (!splice && s.chance(1, 2)) {
                blank(lines);
                group();
            }
            break;
        default:
            d.cls("call");
            d.t(H(MARKUP_TAG), ident());
            blank(lines);
            {
                const bool g = s.chance(2, 3);
                if (g) {
                    group();
                    blank(lines);
                }
                if (!g || s.chance(1, 2)) {
                    block_();
                }
            }
            break;
        }
    }
};

void l20(Src& s, Ctx& c)
{
    Doc d;
    Gen g { s, d };
    g.markup(Gen::document, 12);
    if (s.chance(1, 10)) {
        if (s.chance(1, 2)) {
            d.cls("backslash at the end");
            d.t(H(ERROR), "\\");
        }
        else {
        d.cls("backslash which begins nothing");
        d.r("\\ x").t(H(STRING_ESCAPE), "\\\\");
        }
    }
    check_doc(c, d, ULIGHT_LANG_COWEL, 0, true);
}

Register r20({ "L20", l20, 35000, 1000000, "documents of at least three tokens, assembled from COWEL markup and expressions with known tokens", true });

} // namespace
} // namespace vp::lang
