#include "h_lang.hpp"

// L05 C and C++: preprocessing tokens as defined in [lex] of the C++ standard and 6.4 of the C standard.
namespace vp::lang {
namespace {

struct CKw {
    const char* code;
    unsigned type;
    std::string_view from;
};

#include "kw/cpp.inc"

struct Gen {
    Src& s;
    Doc& d;
    bool cpp, strict;

    /// Whether the word or symbol is one of the language.
    bool has(const CKw& k) const
    {
        return k.from == "c_cpp" || (k.from == "ext" && !strict) || (k.from == "c" && (!cpp || !strict)) || (k.from == "cpp" && cpp);
    }

    const CKw* find(std::string_view x) const
    {
        for (const CKw& k : kws) {
            if (x == k.code) {
                return &k;
            }
        }
        return nullptr;
    }

    std::string ident()
    {
        if (s.chance(1, 8)) {
            return s.pick({ "u", "u8", "U", "L", "R", "uR", "LR", "u8R", "size_t", "a_t", "x0", "e1", "_t" });
        }
        std::string x;
        if (s.chance(1, 4)) {
            x = s.pick(kws).code;
            if (s.chance(1, 2)) {
                x += s.pick({ "_", "x", "1", "_t" });
            }
            else if (x.size() > 2) {
                x.pop_back();
            }
        }
        else {
            x = gen_ident(s, {}, true);
        }
        while (find(x)) {
            x += "q";
        }
        return x;
    }

    void name(std::string_view x) { d.t(x.ends_with("_t") ? H(NAME_TYPE) : H(NAME), x); }

    void keyword()
    {
        const CKw& k = s.pick(kws);
        if (has(k)) {
            d.cls(k.from == "c_cpp" ? "common keyword" : "keyword of one language");
            d.t(k.type, k.code);
        }
        else {
            d.cls("keyword of another language");
            name(k.code);
        }
    }

    void symbol()
    {
        const CKw* k = &s.pick(puncs);
        while (!has(*k)) {
            k = &s.pick(puncs);
        }
        d.cls("symbol");
        if (s.chance(1, 40)) {
            d.cls("less-than sign and colons");
            switch (s.below(cpp ? 4 : 1)) {
            case 1: d.t(H(SYMBOL_SQUARE), "<:").t(H(SYMBOL_OP), "::"); break;
            case 2: d.t(H(SYMBOL_OP), "<").t(H(SYMBOL_OP), "::"); break;
            case 3: d.t(H(SYMBOL_OP), "<").t(H(SYMBOL_OP), "::").t(H(NAME), "x"); break;
            default: d.t(H(SYMBOL_SQUARE), "<:").t(H(SYMBOL_SQUARE), ":>"); break;
            }
            return;
        }
        const std::string_view c = k->code;
        if (c == "#" || c == "%:") {
            // Not at the start of a line.
            d.t(H(NAME), "x").r(s.pick({ " ", "", "\t" }));
        }
        d.t(k->type, c);
    }

    void suffix(std::initializer_list<const char*> some)
    {
        d.t(H(NUMBER_DECOR), s.chance(1, 3) ? "" : s.pick(some));
    }

    void number()
    {
        d.cls("number");
        const char sep = '\'';
        switch (s.below(5)) {
        case 0: d.digits(gen_digits(s, 10, 5, sep), sep); suffix({ "u", "L", "ull", "LLU", "uz", "wb", "_km", "s", "_x1", "ex", "Em", "p1x", "Px" }); break;
        case 1: d.t(H(NUMBER_DECOR), s.pick({ "0x", "0X" })).digits(gen_digits(s, 16, 5, sep), sep); suffix({ "u", "L", "ull", "uz", "_km" }); break;
        case 2: d.t(H(NUMBER_DECOR), s.pick({ "0b", "0B" })).digits(gen_digits(s, 2, 5, sep), sep); suffix({ "u", "L", "ull", "uz", "_km" }); break;
        case 3: {
            d.cls("floating-point number");
            const std::size_t dot = s.below(4);
            if (dot != 2) {
                d.digits(gen_digits(s, 10, 3, sep), sep);
            }
            if (dot) {
                d.t(H(NUMBER_DELIM), ".");
            }
            if (dot > 1) {
                d.digits(gen_digits(s, 10, 3, sep), sep);
            }
            if (!dot || s.chance(1, 2)) {
                d.t(H(NUMBER_DELIM), s.pick({ "e", "E" })).digits(s.pick({ "", "+", "-" }) + gen_digits(s, 10, 3));
            }
            suffix({ "f", "F", "l", "L", "f16", "bf16", "_m", "ms", "pt" });
            break;
        }
        default: {
            d.cls("hexadecimal floating-point number");
            d.t(H(NUMBER_DECOR), s.pick({ "0x", "0X" })).digits(gen_digits(s, 16, 3, sep), sep);
            if (s.chance(2, 3)) {
                d.t(H(NUMBER_DELIM), ".").digits(gen_digits(s, 16, 3));
            }
            d.t(H(NUMBER_DELIM), s.pick({ "p", "P" })).digits(s.pick({ "", "+", "-" }) + gen_digits(s, 10, 3));
            suffix({ "f", "L", "f16", "_m" });
            break;
        }
        }
    }

    void chars(char quote)
    {
        std::string text;
        const auto flush = [&] {
            d.t(H(STRING), text);
            text.clear();
        };
        bool open_escape = false; // a preceding octal or hexadecimal escape could be extended
        for (std::size_t i = 0, n = s.size(5); i < n; ++i) {
            if (!open_escape && s.chance(1, 2)) {
                text += gen_text(s, std::string("\\") + quote, 6, "\t'\"/*()#");
                continue;
            }
            open_escape = false;
            switch (s.below(9)) {
            case 0:
                d.cls("spliced line in literal");
                text += s.pick({ "\\\n", "\\\r\n", "\\ \n", "\\\t \n" });
                break;
            case 1: flush(); d.t(H(STRING_ESCAPE), "\\u" + hex(s, 4)); break;
            case 2: flush(); d.t(H(STRING_ESCAPE), "\\U" + hex(s, 8)); break;
            case 3: flush(); d.t(H(STRING_ESCAPE), s.pick({ "\\u{", "\\x{" }) + gen_digits(s, 16, 5) + "}"); break;
            case 4: flush(); d.t(H(STRING_ESCAPE), "\\o{" + gen_digits(s, 8, 4) + "}"); break;
            case 5: flush(); d.t(H(STRING_ESCAPE), "\\N{" + std::string(s.pick({ "NULL", "LATIN SMALL LETTER A", "a", "X" })) + "}"); break;
            case 6: flush(); d.t(H(STRING_ESCAPE), s.chance(1, 2) ? "\\x" + gen_digits(s, 16, 4) : "\\" + gen_digits(s, 8, 3)); open_escape = true; break;
            case 7:
                d.cls("erroneous escape");
                flush();
                d.t(H(ERROR), s.pick({ "\\x", "\\o", "\\N", "\\N{}", "\\é", "\\\xf0\x9f\x98\x80", "\\\x01" }));
                text = s.pick({ " ", "g", "x", ";" });
                break;
            default: flush(); d.t(H(STRING_ESCAPE), s.pick({ "\\'", "\\\"", "\\?", "\\\\", "\\a", "\\b", "\\f", "\\n", "\\r", "\\t", "\\v", "\\q", "\\%", "\\@", "\\$", "\\`", "\\(" })); break;
            }
        }
        flush();
    }

    void ud_suffix()
    {
        if (cpp && s.chance(1, 5)) {
            d.cls("literal suffix");
            d.t(H(STRING_DECOR), s.pick({ "s", "_km", "sv", "_t", "_x1", "_é", "L" }));
        }
    }

    void element(bool one_line = false)
    {
        switch (s.weighted({ 7, 7, 7, 5, 4, 5, unsigned(cpp ? 4 : 0), 2, 3, unsigned(one_line ? 0 : 2), unsigned(one_line ? 0 : 4), 1, 1 })) {
        case 0: keyword(); break;
        case 1: {
            d.cls("identifier");
            name(ident());
            break;
        }
        case 2: symbol(); break;
        case 3: number(); break;
        case 4: {
            d.cls("character");
            d.t(H(STRING_DECOR), s.pick({ "", "", "u", "u8", "U", "L" })).t(H(STRING_DELIM), "'");
            chars('\'');
            d.t(H(STRING_DELIM), "'");
            ud_suffix();
            break;
        }
        case 5: {
            d.cls("string");
            d.t(H(STRING_DECOR), s.pick({ "", "", "u", "u8", "U", "L" })).t(H(STRING_DELIM), "\"");
            chars('"');
            d.t(H(STRING_DELIM), "\"");
            ud_suffix();
            break;
        }
        case 6: {
            d.cls("raw string");
            const std::string delim = s.chance(1, 2) ? "" : s.pick({ "x", "xx", "-", "__", "abcdefghijklmnop", "[", "#1" });
            const std::string x = gen_until(s, ")" + delim + "\"", "", "\n\"\\()");
            d.t(H(STRING_DECOR), s.pick({ "R", "u8R", "uR", "UR", "LR" })).t(H(STRING_DELIM), "\"" + delim + "(");
            d.t(H(STRING), x).t(H(STRING_DELIM), ")" + delim + "\"");
            ud_suffix();
            break;
        }
        case 7: {
            d.cls("keyword directly before a literal");
            d.t(H(KEYWORD_CONTROL), s.pick({ "return", "case" }));
            const bool str = s.chance(1, 2);
            d.t(H(STRING_DELIM), str ? "\"" : "'");
            chars(str ? '"' : '\'');
            d.t(H(STRING_DELIM), str ? "\"" : "'");
            break;
        }
        case 8: {
            d.cls("block comment");
            const std::string x = gen_until(s, "*/", "", one_line ? "\t\"'/*" : "\n\t\"'/#*");
            d.t(H(COMMENT_DELIM), "/*").t(H(COMMENT), x).t(H(COMMENT_DELIM), "*/");
            break;
        }
        case 9: {
            d.cls("line comment");
            std::string x = gen_text(s, "\\", 10, "\t\"'/*#");
            while (s.chance(1, 5)) {
                d.cls("continued line comment");
                x += s.pick({ "\\\n", "\\\r\n", "\\ \t\n", "\\\\\n", "\\x" });
                x += gen_text(s, "\\", 6, "\"'/*#");
            }
            d.t(H(COMMENT_DELIM), "//").t(H(COMMENT), x).r(s.pick({ "\n", "\n", "\r\n" }));
            break;
        }
        case 10: directive(); break;
        case 11:
            d.cls("stray character");
            d.r(s.pick({ "@", "`", "\\", "€" }));
            if (s.chance(1, 2) && d.last() != '\\') {
                d.t(H(STRING_DELIM), "\"").t(H(STRING), "a b").t(H(STRING_DELIM), "\"");
            }
            break;
        default:
            if (!one_line) {
                d.cls("literal that ends with the line");
                const bool str = s.chance(1, 2);
                d.t(H(STRING_DELIM), str ? "\"" : "'").t(H(STRING), gen_text(s, "\"'\\", 6, "\t/*#")).r("\n");
            }
            else {
                d.t(H(SYMBOL_PUNC), ",");
            }
            break;
        }
    }

    void directive()
    {
        d.cls("directive");
        if (!d.s.empty()) {
            d.r(s.pick({ "\n", "\n", "\r\n" }));
        }
        d.r(s.pick({ "", "", " ", "\t " }));
        while (s.chance(1, 6)) {
            d.cls("comment before a directive");
            d.t(H(COMMENT_DELIM), "/*").t(H(COMMENT), s.pick({ " # ", "x", "\n\n", "\n" })).t(H(COMMENT_DELIM), "*/");
            d.r(s.pick({ "", " ", "\t " }));
        }
        d.t(H(NAME_MACRO_DELIM), s.pick({ "#", "#", "%:" }));
        if (s.chance(1, 8)) {
            d.cls("null directive");
            d.r(s.pick({ "\n", "\r\n", " \n" }));
            if (s.chance(1, 2)) {
                name(ident());
            }
            return;
        }
        d.r(s.pick({ "", "", " ", "\t " }));
        if (s.chance(1, 3)) {
            d.t(H(NAME_MACRO), "include").r(s.pick({ "", " ", "\t" }));
            const std::string h = gen_text(s, "<>\"\\", 8, "/.*'#");
            switch (s.below(4)) {
            case 0: d.t(H(STRING_DELIM), "\"").t(H(STRING), h).t(H(STRING_DELIM), "\""); break;
            case 1:
                d.cls("unterminated header name");
                d.t(H(STRING_DELIM), "<").t(H(STRING), h);
                break;
            default: d.t(H(STRING_DELIM), "<").t(H(STRING), h).t(H(STRING_DELIM), ">"); break;
            }
        }
        else {
            d.t(H(NAME_MACRO), s.pick({ "define", "if", "ifdef", "endif", "pragma", "embed", "include_next", "includes", "é", "for" }));
            for (std::size_t i = 0, n = s.size(3); i < n; ++i) {
                d.r(s.pick({ " ", "\t", " \\\n", "  " }));
                element(true);
            }
        }
        d.r(s.pick({ "\n", "\r\n" }));
    }
};

void l05(Src& s, Ctx& c)
{
    Doc d;
    const bool cpp = s.chance(2, 3), strict = s.chance(1, 4);
    d.cls(cpp ? "C++" : "C");
    Gen g { s, d, cpp, strict };
    assemble(s, d, 14, [&] { g.element(); }, "()[]{},;", " \t\n\r\f\v");
    switch (s.below(12)) {
    case 1:
        d.cls("unterminated comment at the end");
        d.r("\n").t(H(COMMENT_DELIM), "/*").t(H(COMMENT), gen_until(s, "*/", "", "\n*/"));
        break;
    case 2:
        if (cpp) {
            d.cls("unterminated raw string at the end");
            d.r("\n").t(H(STRING_DECOR), "R").t(H(STRING_DELIM), "\"ab(").t(H(STRING), gen_until(s, ")ab\"", "", "\n\""));
        }
        break;
    case 3:
        d.cls("unterminated string at the end");
        d.r("\n").t(H(STRING_DELIM), "\"").t(H(STRING), gen_text(s, "\"\\", 6, "'/*"));
        if (s.chance(1, 2)) {
            d.cls("directive after a string that ends with the line");
            d.r(s.pick({ "\n", "\r\n" })).t(H(NAME_MACRO_DELIM), "#").t(H(NAME_MACRO), s.pick({ "else", "endif" }));
        }
        break;
    default: break;
    }
    check_doc(c, d, cpp ? ULIGHT_LANG_CPP : ULIGHT_LANG_C, (strict ? ULIGHT_STRICT : 0) | (s.chance(1, 8) ? ULIGHT_COALESCE : 0));
}

Register rr05({ "L05", l05, 60000, 1500000, "documents of at least three tokens, assembled from C or C++ preprocessing tokens with known highlighting", true });

} // namespace
} // namespace vp::lang
