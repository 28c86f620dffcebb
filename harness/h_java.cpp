#include "h_lang.hpp"

// L08 Java: elements as defined by the Java Language Specification, chapter 3.
namespace vp::lang {
namespace {

#include "kw/java.inc"

struct Gen {
    Src& s;
    Doc& d;

    std::string ident() { return gen_ident(s, kws, true, "_$", "_$"); }

    void text_or_escape(std::string_view forbid, std::string_view allow, std::size_t max, bool block)
    {
        switch (s.weighted({ 5, 3, 1, 1, 1, unsigned(block ? 1 : 0) })) {
        case 0: d.t(H(STRING), gen_text(s, forbid, max, allow)); break;
        case 1: d.t(H(STRING_ESCAPE), s.pick({ "\\n", "\\r", "\\t", "\\\\", "\\b", "\\s", "\\f", "\\'", "\\\"" })); break;
        case 2: d.t(H(STRING_ESCAPE), "\\u" + hex(s, 4)); break;
        case 3: {
            std::string x = "\\" + std::to_string(s.below(8));
            for (std::size_t n = s.below(x[1] < '4' ? 3 : 2); n; --n) {
                x += char('0' + s.below(8));
            }
            d.cls("octal escape");
            d.t(H(STRING_ESCAPE), x);
            if (max > 1) {
                // Digits beyond the escape belong to the string.
                d.t(H(STRING), x.size() == 4 || (x.size() == 3 && x[1] >= '4') ? s.pick({ "7", "0", "z" }) : s.pick({ "8", "9", "z" }));
                d.t(H(STRING_ESCAPE), "\\n");
            }
            break;
        }
        case 4:
            if (max > 1) {
                d.cls("erroneous escape");
                d.t(H(ERROR), "\\").t(H(STRING), s.pick({ "q", "a ", "8", "(", "x4", "é" })).t(H(STRING_ESCAPE), "\\n");
            }
            else {
                d.t(H(STRING), "x");
            }
            break;
        default: d.t(H(STRING_ESCAPE), s.pick({ "\\\n", "\\\r\n", "\\\r" })).t(H(STRING), "x").t(H(STRING_ESCAPE), "\\n"); break;
        }
    }

    void element()
    {
        switch (s.weighted({ 6, 6, 8, 5, 3, 4, 2, 3, 2, 2, 1 })) {
        case 0: {
            const Kw& k = s.pick(kws);
            d.cls("keyword");
            d.t(k.type, k.code);
            break;
        }
        case 1: d.cls("identifier"); d.t(H(NAME), ident()); break;
        case 2: {
            const Kw& k = s.pick(puncs);
            if (k.code[0] == '"') {
                return;
            }
            d.cls("symbol");
            d.t(k.type, k.code);
            break;
        }
        case 3: {
            static const Number_Opts o { .prefixes = { { "0x", 16 }, { "0X", 16 }, { "0b", 2 }, { "0B", 2 } },
                                         .int_suffixes = { "L", "l", "f", "F", "d", "D" },
                                         .prefix_int_suffixes = { "L", "l" },
                                         .float_suffixes = { "f", "F", "d", "D" },
                                         .separator = '_',
                                         .leading_dot = true,
                                         .leading_zero = true };
            gen_number(s, d, o);
            break;
        }
        case 4: {
            d.cls("character literal");
            d.t(H(STRING_DELIM), "'");
            const std::size_t before = d.s.size();
            text_or_escape("'\\", "\"", 1, false);
            if (d.s.size() == before) {
                d.t(H(STRING), "a");
            }
            d.t(H(STRING_DELIM), "'");
            break;
        }
        case 5: {
            d.cls("string");
            d.t(H(STRING_DELIM), "\"");
            // Text is always followed by an escape, so that text tokens do not join.
            for (std::size_t i = 0, n = s.size(4); i < n; ++i) {
                text_or_escape("\"\\", "'\t", 8, false);
                if (d.w.back().type == H(STRING) && i + 1 < n) {
                    d.t(H(STRING_ESCAPE), "\\t");
                }
            }
            if (d.last() == '"' && d.w.back().type == H(STRING_DELIM)) {
                d.t(H(STRING), "x");
            }
            d.t(H(STRING_DELIM), "\"");
            break;
        }
        case 6: {
            d.cls("text block");
            d.t(H(STRING_DELIM), "\"\"\"").r(s.pick({ "", " ", " \t", "\f" })).r(s.pick({ "\n", "\r\n", "\r" }));
            d.t(H(STRING), s.pick({ "x", "\"x", "  ", "\"\"x", "a\"\"b", "'" }));
            d.t(H(STRING_ESCAPE), s.pick({ "\\\"", "\\n" }));
            for (std::size_t i = 0, n = s.size(4); i < n; ++i) {
                text_or_escape("\"\\", "'\n\t", 8, true);
                if (d.w.back().type == H(STRING)) {
                    d.t(H(STRING_ESCAPE), s.pick({ "\\\"", "\\t" }));
                }
            }
            d.t(H(STRING_DELIM), "\"\"\"");
            break;
        }
        case 7:
            d.cls("annotation");
            d.t(H(NAME_ATTR_DELIM), "@").t(H(NAME_ATTR), ident());
            for (std::size_t n = s.size(3); n; --n) {
                d.t(H(NAME_ATTR_DELIM), ".").t(H(NAME_ATTR), ident());
            }
            break;
        case 8:
            d.cls("line comment");
            d.t(H(COMMENT_DELIM), "//").t(H(COMMENT), gen_text(s, "", 10, "\t\"'"));
            d.r(s.pick({ "\n", "\r\n", "\r" }));
            break;
        case 9:
            d.cls("block comment");
            d.t(H(COMMENT_DELIM), "/*").t(H(COMMENT), gen_until(s, "*/", "", "\n\"'*/@")).t(H(COMMENT_DELIM), "*/");
            break;
        default:
            d.cls("hexadecimal floating point");
            d.t(H(NUMBER_DECOR), s.pick({ "0x", "0X" }));
            d.digits(gen_digits(s, 16, 4));
            if (s.chance(1, 2)) {
                d.t(H(NUMBER_DELIM), ".").digits(gen_digits(s, 16, 4));
            }
            d.t(H(NUMBER_DELIM), s.pick({ "p", "P", "p-", "P+" })).digits(gen_digits(s, 10, 3));
            break;
        }
    }
};

void l08(Src& s, Ctx& c)
{
    Doc d;
    Gen g { s, d };
    assemble(s, d, 14, [&] { g.element(); }, "()[]{},;", " \t\n\r\f");
    switch (s.below(12)) {
    case 1:
        d.cls("string that ends with the line");
        d.r(" ").t(H(STRING_DELIM), "\"").t(H(STRING), gen_text(s, "\"\\", 6) + "x").r(s.pick({ "\n", "\r\n" })).t(H(NAME), g.ident());
        break;
    case 2:
        d.cls("unterminated comment at the end");
        d.r(" ").t(H(COMMENT_DELIM), "/*").t(H(COMMENT), gen_until(s, "*/", "", "\n*/"));
        break;
    case 3: {
        d.cls("unterminated string at the end");
        const bool block = s.chance(1, 2);
        d.r(" ").t(H(STRING_DELIM), block ? "\"\"\"" : "\"");
        if (block) {
            d.r(s.pick({ "\n", "\r\n", "" }));
        }
        d.t(H(STRING), "x" + gen_text(s, "\"\\", 6, block ? "\n" : ""));
        if (s.chance(1, 2)) {
            d.t(H(STRING_ESCAPE), "\\n");
        }
        break;
    }
    case 4:
        d.cls("line comment at the end");
        d.r(" ").t(H(COMMENT_DELIM), "//").t(H(COMMENT), gen_text(s, "", 6));
        break;
    default: break;
    }
    check_doc(c, d, ULIGHT_LANG_JAVA, s.chance(1, 8) ? ULIGHT_COALESCE : 0);
}

Register rr08({ "L08", l08, 60000, 1500000, "documents of at least three tokens, assembled from Java lexical elements with known tokens", true });

} // namespace
} // namespace vp::lang
