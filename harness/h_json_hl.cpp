#include "h_lang.hpp"

// L04 JSON and JSON with comments (RFC 8259).
namespace vp::lang {
namespace {

struct Gen {
    Src& s;
    Doc& d;
    bool comments;
    int budget = 40, depth = 0;

    void ws()
    {
        while (s.chance(1, 3)) {
            if (comments && s.chance(1, 3)) {
                if (s.chance(1, 2)) {
                    d.cls("line comment");
                    d.t(H(COMMENT_DELIM), "//").t(H(COMMENT), gen_text(s, "", 8, "\t\"{}[]*/")).r(s.pick({ "\n", "\r\n" }));
                }
                else {
                    d.cls("block comment");
                    d.t(H(COMMENT_DELIM), "/*").t(H(COMMENT), gen_until(s, "*/", "", "\n\"{}[]/*")).t(H(COMMENT_DELIM), "*/");
                }
            }
            else {
                d.r(s.pick({ " ", "\n", "\t", "\r\n", "  " }));
            }
        }
    }
    void string(bool property)
    {
        const unsigned type = property ? H(MARKUP_ATTR) : H(STRING);
        d.cls(property ? "property" : "string");
        d.t(property ? type : H(STRING_DELIM), "\"");
        for (std::size_t i = 0, n = s.size(4); i < n; ++i) {
            switch (s.below(8)) {
            case 0:
            case 1:
                d.cls("escape");
                d.t(H(STRING_ESCAPE), s.chance(1, 2) ? "\\u" + hex(s, 4) : std::string(s.pick({ "\\\"", "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t" })));
                break;
            case 2:
                d.cls("illegal escape");
                d.t(H(ERROR), "\\").t(type, s.pick({ "x41", "'", "a", "0", "v", "U00000041" }));
                break;
            case 3:
                d.cls("control character in string");
                d.t(H(ERROR), s.pick({ "\t", "\x01", "\f", "\x1f" }));
                break;
            default: d.t(type, gen_text(s, "\"\\", 8, "/'{}[]:,") + "z"); break;
            }
        }
        d.t(property ? type : H(STRING_DELIM), "\"");
    }
    void number()
    {
        std::string n = s.pick({ "", "", "-" });
        if (s.chance(1, 8)) {
            d.cls("malformed number");
            d.t(H(ERROR), n + s.pick({ "01", "00", "1.", "1e", "1E+", "0.e1", "1.5e-", "007.5" }));
            return;
        }
        d.cls("number");
        n += s.chance(1, 4) ? "0" : char('1' + s.below(9)) + (s.chance(1, 2) ? gen_digits(s, 10, 5) : "");
        if (s.chance(1, 3)) {
            n += "." + gen_digits(s, 10, 4);
        }
        if (s.chance(1, 3)) {
            n += s.pick({ "e", "E", "e+", "E-" }) + gen_digits(s, 10, 3);
        }
        d.t(H(NUMBER), n);
    }
    void value()
    {
        --budget;
        switch (s.below(budget > 0 && depth < 6 ? 9 : 6)) {
        case 0: d.t(H(NULL), "null"); break;
        case 1: d.t(H(BOOL), s.pick({ "true", "false" })); break;
        case 2: string(false); break;
        case 3:
            if (s.chance(1, 4)) {
                d.cls("unknown word");
                d.t(H(ERROR), s.pick({ "True", "nul", "undefined", "NaN", "x1", "nullx", "trueish" }));
                break;
            }
            [[fallthrough]];
        case 4:
        case 5: number(); break;
        case 6:
        case 7:
            d.cls("array");
            ++depth;
            d.t(H(SYMBOL_SQUARE), "[");
            ws();
            for (std::size_t i = 0, n = s.size(4); i < n; ++i) {
                if (i) {
                    d.t(H(SYMBOL_PUNC), ",");
                    ws();
                }
                if (s.chance(1, 12)) {
                    d.cls("illegal character in array");
                    d.t(H(ERROR), s.pick({ "@", "#", "'", "&&", ":", "}", "+" }));
                    ws();
                }
                value();
                ws();
            }
            d.t(H(SYMBOL_SQUARE), "]");
            --depth;
            break;
        default:
            d.cls("object");
            ++depth;
            d.t(H(SYMBOL_BRACE), "{");
            ws();
            for (std::size_t i = 0, n = s.size(4); i < n; ++i) {
                if (i) {
                    d.t(H(SYMBOL_PUNC), ",");
                    ws();
                }
                string(true);
                ws();
                d.t(H(SYMBOL_PUNC), ":");
                ws();
                value();
                ws();
            }
            d.t(H(SYMBOL_BRACE), "}");
            --depth;
        }
    }
};

void l04(Src& s, Ctx& c)
{
    Doc d;
    const bool jsonc = s.chance(1, 3), strict = s.chance(1, 3);
    Gen g { s, d, jsonc || !strict };
    if (strict) {
        d.cls("strict");
    }
    g.ws();
    g.value();
    g.ws();
    if (s.chance(1, 12)) {
        d.cls("unterminated comment at the end");
        if (jsonc || !strict) {
            d.t(H(COMMENT_DELIM), "/*").t(H(COMMENT), "x" + gen_text(s, "*/", 6, "\n"));
        }
    }
    check_doc(c, d, jsonc ? ULIGHT_LANG_JSONC : ULIGHT_LANG_JSON, strict ? ULIGHT_STRICT : 0, true);
}

Register r04({ "L04", l04, 60000, 1500000, "texts of at least three tokens, assembled from JSON values with known tokens", true });

} // namespace
} // namespace vp::lang
