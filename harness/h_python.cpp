#include "h_lang.hpp"

// L07 Python: elements as defined by the Python language reference, chapter 2.
namespace vp::lang {
namespace {

#include "kw/python.inc"

struct Gen {
    Src& s;
    Doc& d;

    std::string ident()
    {
        std::string x = gen_ident(s, kws);
        return x;
    }

    void string()
    {
        static constexpr const char* raw_prefixes[] { "r", "R", "br", "bR", "Br", "BR", "rb", "rB", "Rb", "RB", "fr", "fR", "Fr", "FR", "rf", "rF", "Rf", "RF" };
        static constexpr const char* byte_prefixes[] { "b", "B" };
        static constexpr const char* text_prefixes[] { "", "", "u", "U", "f", "F" };
        const unsigned kind = unsigned(s.weighted({ 4, 2, 3 }));
        const std::string prefix = kind == 0 ? s.pick(text_prefixes) : kind == 1 ? s.pick(byte_prefixes) : s.pick(raw_prefixes);
        const bool byte = prefix.find_first_of("bB") != prefix.npos;
        const char q = s.chance(1, 2) ? '"' : '\'';
        const bool is_long = s.chance(1, 3);
        const std::string delim(is_long ? 3 : 1, q);
        d.cls(kind == 2 ? (is_long ? "long raw string" : "raw string") : kind == 1 ? (is_long ? "long byte string" : "byte string") : (is_long ? "long string" : "string"));
        d.t(H(STRING_DECOR), prefix);
        d.t(H(STRING_DELIM), delim);
        std::string pending = is_long ? "x" : "";
        const auto flush = [&] { d.t(H(STRING), pending); pending.clear(); };
        const std::string forbid = std::string("\\") + q;
        for (std::size_t i = 0, n = s.size(5); i < n; ++i) {
            switch (s.weighted({ 4, 4, unsigned(is_long ? 2 : 0), 1, unsigned(is_long ? 0 : 1) })) {
            case 0: pending += gen_text(s, forbid, 6, is_long ? "\n\t\"'" : "\t\"'", !byte); break;
            case 1:
                flush();
                if (kind == 2) {
                    // The backslash and the next character are inert text, even if that is a quote.
                    if (byte && s.chance(1, 10)) {
                        d.cls("non-ASCII character in a byte string");
                        d.t(H(ERROR), s.pick({ "\\\xc3\xa9", "\\\xf0\x9f\x98\x80" }));
                        break;
                    }
                    d.t(H(STRING), std::string("\\") + (s.chance(1, 2) ? std::string(1, q) : std::string(s.pick({ "\\", "n", "x", "u", "\n", "\r\n", "'", "\"" }))));
                }
                else {
                    escape(byte);
                }
                break;
            case 2: pending += std::string(1 + s.below(2), q) + "x"; break;
            case 3:
                if (kind != 2) {
                    d.cls("erroneous escape");
                    flush();
                    d.t(H(ERROR), "\\");
                    pending += s.pick({ "q", "8", " ", "(" });
                }
                break;
            default: pending += q == '"' ? "'" : "\""; break;
            }
        }
        if (pending.empty() && d.w.back().type == H(STRING_DELIM)) {
            pending = "x"; // keeps "" from joining a further quote
        }
        flush();
        d.t(H(STRING_DELIM), delim);
    }

    void escape(bool byte)
    {
        switch (s.weighted({ 6, 2, 2, 1, 1, 1, 1 })) {
        case 0: d.t(H(STRING_ESCAPE), s.pick({ "\\\\", "\\'", "\\\"", "\\a", "\\b", "\\f", "\\n", "\\r", "\\t", "\\v" })); break;
        case 1: {
            std::string x = "\\";
            for (std::size_t n = 1 + s.below(3); n; --n) {
                x += char('0' + s.below(8));
            }
            d.cls("octal escape");
            d.t(H(STRING_ESCAPE), x).t(H(STRING), x.size() == 4 ? s.pick({ "7", "0", "9" }) : s.pick({ "8", "9", "z" })).t(H(STRING_ESCAPE), "\\n");
            break;
        }
        case 2: d.t(H(STRING_ESCAPE), "\\x" + hex(s, 2)); break;
        case 3: d.t(byte ? H(ERROR) : H(STRING_ESCAPE), "\\u" + hex(s, 4)); break;
        case 4: d.t(byte ? H(ERROR) : H(STRING_ESCAPE), "\\U" + hex(s, 8)); break;
        case 5: d.t(byte ? H(ERROR) : H(STRING_ESCAPE), s.pick({ "\\N{DIGIT ONE}", "\\N{LATIN SMALL LETTER A}", "\\N{X-1}" })); break;
        default: d.t(H(STRING_ESCAPE), s.pick({ "\\\n", "\\\r\n", "\\\r" })).t(H(STRING), "x").t(H(STRING_ESCAPE), "\\n"); break;
        }
    }

    void element()
    {
        switch (s.weighted({ 6, 6, 8, 5, 8, 3, 1 })) {
        case 0: {
            const Kw& k = s.pick(kws);
            d.cls("keyword");
            d.t(k.type, k.code);
            if (s.chance(1, 8)) {
                d.cls("keyword before a string");
                d.t(H(STRING_DELIM), "'").t(H(STRING), "x").t(H(STRING_DELIM), "'");
            }
            break;
        }
        case 1: d.cls("identifier"); d.t(H(NAME), ident()); break;
        case 2: {
            const Kw& k = s.pick(puncs);
            d.cls("symbol");
            d.t(k.type, k.code);
            break;
        }
        case 3: {
            static const Number_Opts o { .prefixes = { { "0x", 16 }, { "0X", 16 }, { "0b", 2 }, { "0B", 2 }, { "0o", 8 }, { "0O", 8 } },
                                         .int_suffixes = { "j", "J" },
                                         .float_suffixes = { "j", "J" },
                                         .separator = '_',
                                         .leading_dot = true,
                                         .trailing_dot = true,
                                         .dot_exponent = true };
            if (s.chance(1, 16)) {
                d.cls("separator after a prefix");
                d.t(H(NUMBER_DECOR), "0x").t(H(NUMBER_DELIM), "_").digits(gen_digits(s, 16, 4, '_'), '_');
            }
            else {
                gen_number(s, d, o);
            }
            break;
        }
        case 4: string(); break;
        case 5:
            d.cls("comment");
            d.t(H(COMMENT_DELIM), "#").t(H(COMMENT), gen_text(s, "", 10, "\t\"'"));
            d.r(s.pick({ "\n", "\r\n", "\r" }));
            break;
        default: {
            std::string x = ident();
            if (x.find_first_not_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789") == x.npos && x.size() > 2) {
                d.cls("unknown string prefix");
                d.t(H(ERROR), x).t(H(STRING_DELIM), "'").t(H(STRING), "y").t(H(STRING_DELIM), "'");
            }
            break;
        }
        }
    }
};

void l07(Src& s, Ctx& c)
{
    Doc d;
    Gen g { s, d };
    assemble(s, d, 14, [&] { g.element(); }, "()[]{},;", " \t\n\r\f");
    switch (s.below(12)) {
    case 1:
        d.cls("string that ends with the line");
        d.r(" ").t(H(STRING_DELIM), "'").t(H(STRING), gen_text(s, "'\\", 6) + "x").r(s.pick({ "\n", "\r\n" })).t(H(NAME), g.ident());
        break;
    case 2:
        d.cls("unterminated long string at the end");
        d.r(" ").t(H(STRING_DELIM), "\"\"\"").t(H(STRING), "x" + gen_text(s, "\"\\", 6, "\n"));
        break;
    case 3: {
        d.cls("unterminated string at the end");
        const bool raw = s.chance(1, 2);
        d.r(" ");
        if (raw) {
            d.t(H(STRING_DECOR), s.pick({ "r", "R", "rb", "Br" }));
        }
        d.t(H(STRING_DELIM), "'").t(H(STRING), "x" + gen_text(s, "'\\", 6, "", false));
        if (!raw && s.chance(1, 2)) {
            d.t(H(STRING_ESCAPE), "\\n");
        }
        break;
    }
    case 4:
        d.cls("comment at the end");
        d.r(" ").t(H(COMMENT_DELIM), "#").t(H(COMMENT), gen_text(s, "", 6));
        break;
    default: break;
    }
    check_doc(c, d, ULIGHT_LANG_PYTHON, s.chance(1, 8) ? ULIGHT_COALESCE : 0);
}

Register rr07({ "L07", l07, 60000, 1500000, "documents of at least three tokens, assembled from Python lexical elements with known tokens", true });

} // namespace
} // namespace vp::lang
