#include "h_lang.hpp"

// L06 JavaScript (with JSX) and TypeScript: input elements as defined in ECMA-262, clause 12, and the JSX
// specification.
namespace vp::lang {
namespace {

struct JKw {
    const char* code;
    unsigned type;
    std::string_view from;
};

#include "kw/js.inc"

constexpr std::string_view expr_keywords[] { "return", "throw", "case", "default", "delete", "do", "else", "extends", "in", "instanceof", "new", "typeof", "void", "yield", "await" };

struct Gen {
    Src& s;
    Doc& d;
    bool ts;

    bool has(const JKw& k) const { return k.from == "all" || k.from == "js_ts" || k.from == (ts ? "ts" : "js"); }

    static bool reserved(std::string_view x)
    {
        return std::any_of(std::begin(kws), std::end(kws), [&](const JKw& k) { return x == k.code; });
    }

    std::string ident()
    {
        std::string x = s.chance(1, 4) ? s.pick(kws).code : gen_ident(s, {}, true, "_$", "_$");
        if (reserved(x)) {
            x += s.pick({ "_", "$", "1", "x" });
        }
        while (reserved(x)) {
            x += "q";
        }
        return x;
    }

    enum State { expects_operand, expects_operator, unknown };

    /// What can come next, judging by the last token that is no comment.
    State state() const
    {
        for (std::size_t i = d.w.size(); i-- > 0;) {
            const Tok& k = d.w[i];
            if (k.type == H(COMMENT) || k.type == H(COMMENT_DELIM)) {
                continue;
            }
            const std::string_view x = std::string_view(d.s).substr(k.begin, k.length);
            switch (k.type) {
            case H(NUMBER):
            case H(NUMBER_DECOR):
            case H(NUMBER_DELIM):
            case H(NAME):
            case H(STRING_DELIM):
            case H(STRING_DECOR):
            case H(BOOL):
            case H(NULL):
            case H(KEYWORD_THIS): return expects_operator;
            case H(SYMBOL_PARENS): return x == "(" ? expects_operand : expects_operator;
            case H(SYMBOL_SQUARE): return x == "[" ? expects_operand : expects_operator;
            case H(SYMBOL_BRACE): return x == "{" ? expects_operand : unknown;
            case H(STRING_INTERPOLATION_DELIM): return expects_operand;
            case H(SYMBOL_PUNC): return x == "," || x == ";" ? expects_operand : unknown;
            case H(SYMBOL_OP): return x == "++" || x == "--" || x == "." || x == "?." ? unknown : expects_operand;
            case H(KEYWORD):
            case H(KEYWORD_CONTROL):
                return std::find(std::begin(expr_keywords), std::end(expr_keywords), x) != std::end(expr_keywords) ? expects_operand : unknown;
            default: return unknown;
            }
        }
        return expects_operand;
    }

    void chars(char quote)
    {
        std::string text;
        const auto flush = [&] {
            d.t(H(STRING), text);
            text.clear();
        };
        const std::string forbid = quote == '`' ? "`\\$" : std::string("\\") + quote;
        bool octal = false;
        for (std::size_t i = 0, n = s.size(5); i < n; ++i) {
            if (!octal && s.chance(1, 2)) {
                text += gen_text(s, forbid, 6, quote == '`' ? "\n\t'\"/*{}" : "\t'\"`/*{}");
                continue;
            }
            octal = false;
            switch (s.below(8)) {
            case 0: flush(); d.t(H(STRING_ESCAPE), "\\u" + hex(s, 4)); break;
            case 1: flush(); d.t(H(STRING_ESCAPE), "\\x" + hex(s, 2)); break;
            case 2: flush(); d.t(H(STRING_ESCAPE), "\\u{" + gen_digits(s, 16, 5) + "}"); break;
            case 3: {
                // One to three octal digits, but no more than two after a leading 4 to 7.
                flush();
                const char first = char('0' + s.below(8));
                std::string escape = std::string("\\") + first;
                for (std::size_t k = 0, m = s.below(first < '4' ? 3 : 2); k < m; ++k) {
                    escape += char('0' + s.below(8));
                }
                const bool full = escape.size() == (first < '4' ? 4 : 3);
                d.t(H(STRING_ESCAPE), escape);
                if (full && s.chance(1, 2)) {
                    d.cls("digit after octal escape");
                    text += s.pick({ "0", "7", "8", "12" });
                }
                octal = true;
                break;
            }
            case 4:
                d.cls("line continuation in string");
                flush();
                if (quote == '`') {
                    d.t(H(STRING_ESCAPE), "\\");
                    text = s.pick({ "\n", "\r\n" });
                }
                else {
                    d.t(H(STRING_ESCAPE), s.pick({ "\\\n", "\\\r\n" }));
                }
                break;
            case 5:
                d.cls("erroneous escape");
                flush();
                d.t(H(ERROR), s.pick({ "\\x g", "\\xzz", "\\u12g4", "\\u 123", "\\u{12g}", "\\u{}" }));
                break;
            case 6:
                if (quote == '`') {
                    text += s.pick({ "$ ", "$x", "$$ ", "{}" });
                    break;
                }
                [[fallthrough]];
            default: flush(); d.t(H(STRING_ESCAPE), s.pick({ "\\'", "\\\"", "\\`", "\\\\", "\\b", "\\f", "\\n", "\\r", "\\t", "\\v", "\\$", "\\q", "\\é" })); break;
            }
        }
        flush();
    }

    void number()
    {
        Number_Opts o;
        o.prefixes = { { "0x", 16 }, { "0X", 16 }, { "0b", 2 }, { "0B", 2 }, { "0o", 8 }, { "0O", 8 } };
        o.int_suffixes = { "n" };
        o.prefix_int_suffixes = { "n" };
        o.separator = '_';
        o.leading_dot = true;
        o.trailing_dot = true;
        o.dot_exponent = true;
        gen_number(s, d, o);
    }

    void template_literal(int depth)
    {
        d.cls("template");
        d.t(H(STRING_DELIM), "`");
        for (std::size_t i = 0, n = s.size(3); i < n; ++i) {
            chars('`');
            if (depth < 3 && s.chance(1, 2)) {
                d.cls("template substitution");
                d.t(H(STRING_INTERPOLATION_DELIM), "${");
                nested(depth + 1, false);
                d.t(H(STRING_INTERPOLATION_DELIM), "}");
                continue;
            }
            // Adjacent pieces of text would merge.
            break;
        }
        d.t(H(STRING_DELIM), "`");
    }

    /// Elements within braces.
    void nested(int depth, bool braced)
    {
        for (std::size_t i = 0, n = s.size(4); i < n; ++i) {
            if (i) {
                d.r(gen_ws(s));
            }
            if (s.chance(1, 5)) {
                d.t(H(SYMBOL_BRACE), "{").r(" ");
                element(depth + 1, braced);
                d.r(" ").t(H(SYMBOL_BRACE), "}");
                continue;
            }
            element(depth, braced);
        }
    }

    void block_comment()
    {
        d.cls("block comment");
        const std::string x = gen_until(s, "*/", "", "\n'\"`{}</*");
        d.t(H(COMMENT_DELIM), "/*").t(H(COMMENT), x).t(H(COMMENT_DELIM), "*/");
    }

    void regex()
    {
        d.cls("regular expression");
        std::string x;
        for (std::size_t i = 0, n = 1 + s.size(4); i < n; ++i) {
            switch (s.below(4)) {
            case 0: x += s.pick({ "\\/", "\\[", "\\\\", "\\]", "\\d", "\\\"" }); break;
            case 1:
                d.cls("character class");
                x += "[" + gen_text(s, "[]\\", 4, "/\"'`") + s.pick({ "", "", "\\]", "\\\\", "/" }) + "]";
                break;
            default: x += gen_text(s, "/[]\\", 5, "\"'`{}()"); break;
            }
        }
        if (x.empty() || x[0] == '*') {
            x.insert(0, "a");
        }
        d.t(H(STRING_DELIM), "/").t(H(STRING), x).t(H(STRING_DELIM), "/").t(H(STRING_DECOR), s.pick({ "", "", "g", "gi", "u", "v", "xé" }));
    }

    // ---- JSX

    std::string jsx_name(std::string_view more)
    {
        std::string x = gen_ident(s, {}, false, "_$", "_$");
        if (s.chance(1, 3)) {
            x += more[s.below(more.size())];
            x += gen_ident(s, {}, false, "_$", "_$");
        }
        return x;
    }

    void tag_space(bool required)
    {
        if (required || s.chance(1, 4)) {
            d.r(s.pick({ " ", "\n", "  ", "\t" }));
        }
        if (s.chance(1, 12)) {
            d.cls("comment in tag");
            if (s.chance(1, 2)) {
                block_comment();
            }
            else {
                d.t(H(COMMENT_DELIM), "//").t(H(COMMENT), gen_text(s, "", 5, "\"'{}<>")).r("\n");
            }
        }
    }

    void jsx_braced(int depth)
    {
        d.t(H(SYMBOL_BRACE), "{");
        if (s.chance(1, 4)) {
            block_comment();
        }
        nested(depth + 1, true);
        d.t(H(SYMBOL_BRACE), "}");
    }

    /// `quiet` text can appear within braces, whose extent is found without regard to JSX.
    void jsx(int depth, bool quiet)
    {
        d.cls("JSX");
        std::string name;
        d.t(H(SYMBOL_PUNC), "<");
        const bool fragment = s.chance(1, 6);
        if (!fragment) {
            name = jsx_name("-:.");
            d.t(H(MARKUP_TAG), name);
            for (std::size_t i = 0, n = s.size(3); i < n; ++i) {
                tag_space(true);
                if (depth < 3 && s.chance(1, 6)) {
                    d.cls("JSX spread");
                    d.t(H(SYMBOL_BRACE), "{").t(H(SYMBOL_OP), "...").t(H(NAME), ident()).t(H(SYMBOL_BRACE), "}");
                    continue;
                }
                d.t(H(MARKUP_TAG), jsx_name("-:"));
                if (s.chance(1, 4)) {
                    continue;
                }
                tag_space(false);
                d.t(H(SYMBOL_PUNC), "=");
                tag_space(false);
                if (depth < 3 && s.chance(1, 2)) {
                    jsx_braced(depth);
                }
                else {
                    const std::string q(1, s.chance(1, 2) ? '"' : '\'');
                    d.t(H(STRING_DELIM), q).t(H(STRING), gen_text(s, quiet ? "\"'\\{}/" : "\\" + q, 6, quiet ? "" : "<>{}/")).t(H(STRING_DELIM), q);
                }
            }
            tag_space(false);
            if (depth >= 3 || s.chance(1, 3)) {
                d.t(H(SYMBOL_PUNC), "/").t(H(SYMBOL_PUNC), ">");
                return;
            }
        }
        d.t(H(SYMBOL_PUNC), ">");
        for (std::size_t i = 0, n = s.size(4); i < n; ++i) {
            switch (s.weighted({ 4, 1, 2, 2, unsigned(!quiet), 1 })) {
            case 0: d.r(gen_text(s, quiet ? "&{}<>'\"/`" : "&{}<>", 8, quiet ? "\n" : "\n'\"/`")); break;
            case 1: d.t(H(STRING_ESCAPE), s.pick({ "&amp;", "&#65;", "&#x41;", "&lt;" })); break;
            case 2:
                if (depth < 3) {
                    jsx(depth + 1, quiet);
                }
                break;
            case 3:
                if (depth < 3) {
                    jsx_braced(depth);
                }
                break;
            case 4: d.t(H(ERROR), s.pick({ ">", "}" })); break;
            default: d.r(s.pick({ "& ", "&& ", "&= " })); break;
            }
        }
        d.t(H(SYMBOL_PUNC), "<");
        tag_space(false);
        d.t(H(SYMBOL_PUNC), "/");
        if (s.chance(1, 4)) {
            tag_space(true);
        }
        d.t(H(MARKUP_TAG), name);
        if (!fragment) {
            tag_space(false);
        }
        d.t(H(SYMBOL_PUNC), ">");
    }

    void element(int depth, bool braced)
    {
        const State st = state();
        const bool deep = depth >= 3;
        switch (s.weighted({ 6, 6, 7, 5, 4, unsigned(deep || braced ? 0 : 4), unsigned(st == expects_operand && !braced ? 6 : 0), unsigned(st == expects_operator ? 3 : 0), 2, 3, 2, unsigned(!ts && !deep && st == expects_operand ? 6 : 0), unsigned(depth ? 0 : 1) })) {
        case 0: {
            const JKw& k = s.pick(kws);
            if (has(k)) {
                d.cls("keyword");
                d.t(k.type, k.code);
            }
            else {
                d.cls("keyword of the other language");
                d.t(H(NAME), k.code);
            }
            break;
        }
        case 1: d.cls("identifier"); d.t(H(NAME), ident()); break;
        case 2: {
            const JKw* k = &s.pick(puncs);
            const auto bad = [&](const JKw& x) {
                const std::string_view c = x.code;
                return c == "/" || c == "/=" || c == "{" || c == "}" || !has(x);
            };
            while (bad(*k)) {
                k = &s.pick(puncs);
            }
            d.cls("symbol");
            d.t(k->type, k->code);
            if (std::string_view(k->code) == "<" && !ts) {
                // Must not look like a tag.
                d.r(" ").t(H(NUMBER), "1");
            }
            break;
        }
        case 3: d.cls("number"); number(); break;
        case 4: {
            d.cls("string");
            const char q = s.chance(1, 2) ? '"' : '\'';
            d.t(H(STRING_DELIM), std::string(1, q));
            chars(q);
            d.t(H(STRING_DELIM), std::string(1, q));
            break;
        }
        case 5: template_literal(depth); break;
        case 6: regex(); break;
        case 7:
            d.cls("division");
            d.t(H(SYMBOL_OP), s.pick({ "/", "/=" }));
            break;
        case 8: d.cls("private name"); d.t(H(NAME), "#" + ident()); break;
        case 9: block_comment(); break;
        case 10:
            d.cls("line comment");
            d.t(H(COMMENT_DELIM), "//").t(H(COMMENT), gen_text(s, "", 8, "\t'\"`{}</*\\")).r(s.pick({ "\n", "\r\n", "\r", "\xe2\x80\xa8", "\xe2\x80\xa9" }));
            break;
        case 11: jsx(depth, braced); break;
        default:
            d.cls("string that ends with the line");
            d.t(H(STRING_DELIM), "'").t(H(STRING), gen_text(s, "'\\", 6, "\"`")).r(s.pick({ "\n", "\r\n" }));
            break;
        }
    }
};

void l06(Src& s, Ctx& c)
{
    Doc d;
    const bool ts = s.chance(1, 3);
    d.cls(ts ? "TypeScript" : "JavaScript");
    Gen g { s, d, ts };
    if (s.chance(1, 8)) {
        d.cls("hashbang");
        d.t(H(COMMENT_DELIM), "#!").t(H(COMMENT), gen_text(s, "", 8, "/'\"")).r(s.pick({ "\n", "\r\n", "\r", "\xe2\x80\xa8", "\xe2\x80\xa9" }));
    }
    assemble(s, d, 12, [&] { g.element(0, false); }, "()[]{},;", " \t\n\r", { "\f", "\v", "\xc2\xa0", "\xe2\x80\xa8" });
    switch (s.below(12)) {
    case 1:
        d.cls("unterminated comment at the end");
        d.r("\n").t(H(COMMENT_DELIM), "/*").t(H(COMMENT), gen_until(s, "*/", "", "\n*/"));
        break;
    case 2:
        d.cls("unterminated template at the end");
        d.r("\n").t(H(STRING_DELIM), "`").t(H(STRING), gen_text(s, "`\\$", 6, "\n'\"{}"));
        break;
    case 3:
        d.cls("unterminated substitution at the end");
        d.r("\n").t(H(STRING_DELIM), "`").t(H(STRING_INTERPOLATION_DELIM), "${").t(H(NAME), g.ident());
        break;
    case 4: {
        d.cls("unterminated string at the end");
        const std::string quote = s.chance(1, 2) ? "'" : "\"";
        d.r("\n").t(H(STRING_DELIM), quote).t(H(STRING), gen_text(s, "\\" + quote, 6, "\t`/*{}") + (s.chance(1, 2) ? "\\" : ""));
        break;
    }
    default: break;
    }
    check_doc(c, d, ts ? ULIGHT_LANG_TYPESCRIPT : ULIGHT_LANG_JAVASCRIPT, s.chance(1, 8) ? ULIGHT_COALESCE : 0);
}

Register rr06({ "L06", l06, 35000, 1000000, "documents of at least three tokens, assembled from JavaScript, JSX or TypeScript elements with known tokens", true });

} // namespace
} // namespace vp::lang
