#include "h_lang.hpp"

// L12 CSS: style sheets after CSS Syntax Level 3 (comments, identifiers with escapes, strings, numbers,
// hashes, URLs, rules, declarations, at-rules and their nesting).
namespace vp::lang {
namespace {

struct Gen {
    Src& s;
    Doc& d;

    std::string ws1() { return s.pick({ " ", " ", "\n", "  ", "\t", "\n  ", "\r\n", "\f" }); }

    /// Optional space: none, whitespace, or a comment.
    void sp()
    {
        switch (s.below(6)) {
        case 0: comment(); break;
        case 1:
        case 2: d.r(ws1()); break;
        default: break;
        }
    }
    /// Something that separates tokens.
    void sep()
    {
        if (s.chance(1, 6)) {
            comment();
            if (s.chance(1, 2)) {
                d.r(ws1());
            }
        }
        else {
            d.r(ws1());
        }
    }

    void comment()
    {
        d.cls("comment");
        d.t(H(COMMENT_DELIM), "/*");
        const std::string x = gen_until(s, "*/", "", "\n\t/*{}\\\"(<");
        d.t(H(COMMENT), x).t(H(COMMENT_DELIM), "*/");
    }

    std::string escape()
    {
        d.cls("escape");
        if (s.chance(1, 2)) {
            return "\\" + hex(s, 1 + s.below(6)) + s.pick({ " ", " ", "\t", "\n", "\f" });
        }
        return std::string("\\") + s.pick({ ":", "/", "\\", "\"", "'", "(", ")", "{", "}", "!", ".", "g", "z", "\xc3\xa9", "\xf0\x9f\x98\x80", "*", "#", ",", ";", "@", "-" });
    }

    /// Parts of an identifier, escapes being parts of their own.
    std::vector<std::string> ident_parts(bool hash = false)
    {
        std::vector<std::string> p;
        if (s.chance(1, 4)) {
            d.cls("ordinary name");
            p.push_back(s.pick({ "color", "div", "a", "url", "important", "media", "red", "e3x", "not", "x-y", "URL", "e", "E-", "u", "urll", "rgb" }));
            return p;
        }
        std::string x;
        if (hash && s.chance(1, 2)) {
            x += char('0' + s.below(10));
        }
        else if (s.chance(1, 5)) {
            d.cls("leading hyphen");
            x += s.pick({ "-", "--" });
        }
        const bool custom = x == "--";
        if (s.chance(1, 8)) {
            if (!x.empty()) {
                p.push_back(x);
                x.clear();
            }
            p.push_back(escape());
        }
        else if (custom && s.chance(1, 4)) {
            x += char('0' + s.below(10));
        }
        else if (s.chance(1, 6)) {
            d.cls("non-ASCII name");
            x += s.pick({ "\xc3\xa9", "\xe4\xb8\xad", "\xf0\x9f\x98\x80", "\xce\xbb" });
        }
        else {
            x += s.pick({ "a", "b", "c", "e", "f", "g", "x", "z", "A", "E", "Z", "_", "u", "U" });
        }
        for (std::size_t i = 0, n = s.size(4); i < n; ++i) {
            if (s.chance(1, 12)) {
                if (!x.empty()) {
                    p.push_back(x);
                    x.clear();
                }
                p.push_back(escape());
            }
            else {
                x += s.pick({ "a", "f", "g", "0", "9", "-", "_", "Q", "e", "\xc3\xa9", "\xe4\xb8\xad", "\xf0\x9f\x98\x80", "--" });
            }
        }
        if (!x.empty()) {
            p.push_back(x);
        }
        return p;
    }
    static bool is_exponent(const std::string& x)
    {
        const auto digit = [](char c) { return c >= '0' && c <= '9'; };
        return x.size() > 1 && (x[0] | 32) == 'e' && (digit(x[1]) || (x.size() > 2 && (x[1] == '+' || x[1] == '-') && digit(x[2])));
    }
    void put(const std::vector<std::string>& p, unsigned type)
    {
        for (const std::string& x : p) {
            d.t(x[0] == '\\' ? H(STRING_ESCAPE) : type, x);
        }
    }
    /// An identifier; never the name of a URL function.
    void ident(unsigned type) { put(ident_parts(), type); }

    void string()
    {
        d.cls("string");
        const char q = s.chance(1, 2) ? '"' : '\'';
        d.t(H(STRING), std::string(1, q));
        for (std::size_t i = 0, n = s.size(4); i < n; ++i) {
            if (s.chance(1, 3)) {
                d.t(H(STRING_ESCAPE), s.chance(1, 5) ? std::string(s.pick({ "\\\n", "\\\r\n", "\\\f" })) : escape());
            }
            else {
                d.t(H(STRING), gen_text(s, std::string(1, q) + "\\", 8, "\t") + s.pick({ "", "", "", "/*", "*/", "{", "}", ";", "<!--" }));
            }
        }
        d.t(H(STRING), std::string(1, q));
    }

    void number(bool sign)
    {
        d.cls("number");
        std::string x;
        if (sign && s.chance(1, 4)) {
            x += s.chance(1, 2) ? '+' : '-';
        }
        const bool dot = s.chance(1, 3);
        if (!dot || s.chance(2, 3)) {
            x += gen_digits(s, 10, 4);
        }
        if (dot) {
            x += "." + gen_digits(s, 10, 3);
        }
        if (s.chance(1, 5)) {
            d.cls("exponent");
            x += s.pick({ "e", "E", "e+", "e-", "E+" }) + gen_digits(s, 10, 2);
        }
        d.t(H(NUMBER), x);
        switch (s.below(4)) {
        case 0: d.t(H(NUMBER_DECOR), "%"); break;
        case 1: d.t(H(NUMBER_DECOR), s.pick({ "px", "em", "rem", "Q", "s", "ms", "e", "x" })); break;
        case 2: {
            d.cls("unit");
            std::vector<std::string> p = ident_parts();
            if (is_exponent(p[0])) {
                p[0] = "z" + p[0];
            }
            put(p, H(NUMBER_DECOR));
            break;
        }
        default: break;
        }
    }

    // Values

    void url()
    {
        d.cls("url");
        d.t(H(KEYWORD), s.pick({ "url", "url", "URL", "Url" })).t(H(SYMBOL_PARENS), "(");
        url_rest();
    }
    void url_rest()
    {
        d.r(s.pick({ "", "", " ", "\n" }));
        if (s.chance(1, 3)) {
            string();
        }
        else {
            d.cls("unquoted URL");
            bool text = false;
            for (std::size_t i = 0, n = s.size(4); i < n; ++i) {
                if (!text && s.chance(3, 4)) {
                    d.t(H(STRING), s.pick({ "http://x/", "a.png", "data:image/png;base64,A+/=", "/*", "x*/y", "{}", "a:b;c", "#f", "<!--", "-->", "@x", "!important", "1.5", "\xc3\xa9" }));
                    text = true;
                }
                else {
                    d.t(H(STRING_ESCAPE), escape());
                    text = false;
                }
            }
        }
        d.r(s.pick({ "", "", " ", "\n" }));
        d.t(H(SYMBOL_PARENS), ")");
    }

    /// One component of a value. Returns whether something must separate it from the next.
    void component(int depth)
    {
        switch (s.below(8)) {
        case 0: ident(H(NAME)); break;
        case 1: number(true); break;
        case 2: string(); break;
        case 3:
            d.cls("hash");
            d.t(H(VALUE), "#");
            put(ident_parts(true), H(VALUE));
            break;
        case 4: url(); break;
        case 5:
        case 6:
            if (depth > 0) {
                d.cls("function");
                std::vector<std::string> p;
                do {
                    p = ident_parts();
                } while (p.size() == 1 && p[0].size() == 3 && (p[0][0] | 32) == 'u' && (p[0][1] | 32) == 'r' && (p[0][2] | 32) == 'l');
                put(p, H(NAME_FUNCTION));
                d.t(H(SYMBOL_PARENS), "(");
                sp();
                if (s.chance(4, 5)) {
                    value(depth - 1);
                }
                sp();
                d.t(H(SYMBOL_PARENS), ")");
                break;
            }
            [[fallthrough]];
        default: ident(H(NAME)); break;
        }
    }
    void value(int depth)
    {
        component(depth);
        for (std::size_t i = 0, n = s.size(3); i < n; ++i) {
            switch (s.below(5)) {
            case 0:
                sp();
                d.t(H(SYMBOL_PUNC), ",");
                sp();
                break;
            case 1:
                d.cls("operator");
                d.r(" ").t(H(SYMBOL_OP), s.pick({ "+", "-", "*", ">", "~", "<" })).r(" ");
                break;
            default: sep(); break;
            }
            component(depth);
        }
    }

    void declarations()
    {
        for (std::size_t i = 0, n = s.size(3); i < n; ++i) {
            d.cls("declaration");
            ident(H(MARKUP_ATTR));
            sp();
            d.t(H(SYMBOL_PUNC), ":");
            sp();
            value(2);
            if (s.chance(1, 4)) {
                d.cls("important");
                sp();
                d.t(H(KEYWORD), s.pick({ "!important", "! important", "!IMPORTANT", "!\n\timportant", "!  Important" }));
            }
            sp();
            if (i + 1 == n && s.chance(1, 2)) {
                d.cls("last semicolon omitted");
                break;
            }
            d.t(H(SYMBOL_PUNC), ";");
            sp();
        }
    }

    // Selectors at top level

    void compound(int depth)
    {
        bool first = true;
        if (s.chance(1, 2)) {
            if (s.chance(1, 6)) {
                d.t(H(MARKUP_TAG), "*");
            }
            else {
                ident(H(MARKUP_TAG));
            }
            first = false;
        }
        for (std::size_t i = first ? 0 : 1, n = 1 + s.size(2); i < n; ++i) {
            switch (s.below(4)) {
            case 0:
                d.t(H(MARKUP_TAG), "#");
                put(ident_parts(true), H(MARKUP_TAG));
                break;
            case 1:
                d.t(H(MARKUP_TAG), s.pick({ ":", "::" }));
                ident(H(MARKUP_TAG));
                if (depth > 0 && s.chance(1, 2)) {
                    d.cls("functional pseudo-class");
                    // url( would not be a pseudo-class
                    d.t(H(MARKUP_TAG), "x").t(H(SYMBOL_PARENS), "(");
                    sp();
                    selector(depth - 1);
                    sp();
                    d.t(H(SYMBOL_PARENS), ")");
                }
                break;
            case 2:
                d.cls("attribute selector");
                d.t(H(SYMBOL_SQUARE), "[");
                ident(H(MARKUP_TAG));
                if (s.chance(2, 3)) {
                    d.r("=");
                    string();
                }
                d.t(H(SYMBOL_SQUARE), "]");
                break;
            default:
                d.t(H(MARKUP_TAG), ".");
                ident(H(MARKUP_TAG));
                break;
            }
        }
    }
    void selector(int depth)
    {
        d.cls("selector");
        compound(depth);
        for (std::size_t i = 0, n = s.size(2); i < n; ++i) {
            switch (s.below(4)) {
            case 0: sep(); break;
            case 1:
                sp();
                d.t(H(SYMBOL_PUNC), ",");
                sp();
                break;
            default:
                d.cls("combinator");
                sp();
                d.t(H(MARKUP_TAG), s.pick({ ">", "+", "~" }));
                sp();
                break;
            }
            compound(depth);
        }
    }

    void at_keyword()
    {
        d.cls("at-rule");
        d.t(H(NAME_MACRO_DELIM), "@");
        if (s.chance(1, 2)) {
            d.t(H(NAME_MACRO), s.pick({ "media", "supports", "import", "font-face", "-webkit-keyframes", "layer", "charset" }));
        }
        else {
            ident(H(NAME_MACRO));
        }
    }
    void prelude(int depth = 2)
    {
        for (std::size_t i = 0, n = s.size(3); i < n; ++i) {
            sep();
            switch (s.below(6)) {
            case 0: string(); break;
            case 1: number(true); break;
            case 2:
                d.t(H(SYMBOL_PARENS), "(");
                sp();
                ident(H(NAME_MACRO));
                sp();
                d.t(H(SYMBOL_PUNC), ":");
                sp();
                if (s.chance(1, 2)) {
                    ident(H(NAME_MACRO));
                }
                else {
                    number(true);
                }
                sp();
                d.t(H(SYMBOL_PARENS), ")");
                break;
            case 3:
                if (depth > 0) {
                    d.t(H(NAME_MACRO), "url").t(H(SYMBOL_PARENS), "(");
                    url_rest();
                    break;
                }
                [[fallthrough]];
            default: ident(H(NAME_MACRO)); break;
            }
        }
    }

    /// A rule within another; its selector is highlighted like a property.
    void nested(int depth)
    {
        for (std::size_t i = 0, n = s.size(3); i < n; ++i) {
            sp();
            if (depth > 0 && s.chance(1, 3)) {
                at_keyword();
                prelude();
                sp();
                if (s.chance(1, 4)) {
                    d.cls("nested at-rule without block");
                    d.t(H(SYMBOL_PUNC), ";");
                    continue;
                }
                d.cls("nested at-rule");
                d.t(H(SYMBOL_BRACE), "{");
                nested(depth - 1);
                sp();
                d.t(H(SYMBOL_BRACE), "}");
                continue;
            }
            d.cls("nested rule");
            if (s.chance(1, 3)) {
                d.r(s.pick({ ".", "&.", "& " }));
            }
            ident(H(MARKUP_ATTR));
            sp();
            d.t(H(SYMBOL_BRACE), "{");
            sp();
            declarations();
            sp();
            d.t(H(SYMBOL_BRACE), "}");
        }
    }

    void statement()
    {
        switch (s.below(8)) {
        case 0: comment(); break;
        case 1:
            d.t(H(COMMENT_DELIM), s.pick({ "<!--", "-->" }));
            break;
        case 2:
            at_keyword();
            prelude();
            sp();
            d.t(H(SYMBOL_PUNC), ";");
            break;
        case 3:
        case 4:
            at_keyword();
            prelude();
            sp();
            d.t(H(SYMBOL_BRACE), "{");
            nested(2);
            sp();
            d.t(H(SYMBOL_BRACE), "}");
            break;
        default:
            selector(2);
            sp();
            d.t(H(SYMBOL_BRACE), "{");
            sp();
            declarations();
            sp();
            d.t(H(SYMBOL_BRACE), "}");
            break;
        }
    }
};

void l12(Src& s, Ctx& c)
{
    Doc d;
    Gen g { s, d };
    for (std::size_t i = 0, n = 1 + s.size(4); i < n; ++i) {
        g.sp();
        g.statement();
    }
    if (s.chance(1, 30)) {
        d.cls("unterminated string");
        const std::string x = "\"" + gen_text(s, "\"\\", 8, "\t");
        d.r("\n").t(H(STRING), x);
        if (s.chance(1, 2)) {
            d.r("\n").t(H(MARKUP_TAG), "b");
        }
    }
    else if (s.chance(1, 30)) {
        d.cls("name at the end");
        d.r("\n").t(H(MARKUP_TAG), s.pick({ "-a", "a", "--", "-\xc3\xa9", "_" }));
    }
    else if (s.chance(1, 30)) {
        d.cls("function at the end");
        d.r("\n").t(H(MARKUP_TAG), "b").t(H(SYMBOL_BRACE), "{").t(H(MARKUP_ATTR), "x").t(H(SYMBOL_PUNC), ":");
        if (s.chance(1, 2)) {
            d.t(H(NAME_FUNCTION), s.pick({ "rgb", "a", "-x", "urls" })).t(H(SYMBOL_PARENS), "(");
        }
        else {
            d.t(H(KEYWORD), s.pick({ "url", "URL", "uRl" })).t(H(SYMBOL_PARENS), "(").r(s.pick({ "", "", " ", "\n" })).t(H(STRING), s.pick({ "", "x", "a/b.c", "#" }));
        }
    }
    else if (s.chance(1, 20)) {
        d.cls("escape at the end");
        const std::string_view prefix = s.pick({ "", "", "a", "-", "--", "\xc3\xa9", ".", "#", "#1", ":" });
        d.r("\n");
        if (!prefix.empty()) {
            d.t(H(MARKUP_TAG), prefix);
            if (prefix == "." || prefix == ":" || prefix == "#") {
                d.t(H(MARKUP_TAG), s.pick({ "", "b", "-" }));
            }
        }
        for (std::size_t n = s.size(2); n; --n) {
            d.t(H(STRING_ESCAPE), g.escape());
        }
        d.t(H(STRING_ESCAPE), s.chance(1, 3) ? "\\" + hex(s, 1 + s.below(6)) : s.pick({ "\\g", "\\\\", "\\\"", "\\{", "\\\xc3\xa9", "\\a", "\\0" }));
    }
    else if (s.chance(1, 30)) {
        d.cls("unterminated comment");
        d.t(H(COMMENT_DELIM), "/*").t(H(COMMENT), gen_text(s, "*", 8, "\t\n"));
    }
    check_doc(c, d, ULIGHT_LANG_CSS, 0, true);
}

Register r12({ "L12", l12, 35000, 1000000, "documents of at least three tokens, assembled from CSS rules with known tokens", true });

} // namespace
} // namespace vp::lang
