#include "h_lang.hpp"

// L10 Rust: elements as defined by the Rust reference (lexical structure).
namespace vp::lang {
namespace {

#include "kw/rust.inc"

struct Gen {
    Src& s;
    Doc& d;

    std::string ident() { return gen_ident(s, kws); }

    void escape(bool byte, bool in_char)
    {
        switch (s.weighted({ 4, 2, unsigned(byte ? 0 : 2), unsigned(in_char ? 0 : 1), unsigned(in_char ? 0 : 1) })) {
        case 0: d.t(H(STRING_ESCAPE), s.pick({ "\\n", "\\r", "\\t", "\\\\", "\\0", "\\'", "\\\"" })); break;
        case 1: d.t(H(STRING_ESCAPE), "\\x" + hex(s, 2)); break;
        case 2: d.t(H(STRING_ESCAPE), "\\u{" + hex(s, 1 + s.size(5)) + "}"); break;
        case 3: d.t(H(STRING_ESCAPE), s.pick({ "\\\n", "\\\n", "\\\r\n" })); break;
        default:
            // Unknown escapes are erroneous, and do not swallow anything beyond themselves.
            d.cls("erroneous escape");
            d.t(H(ERROR), "\\");
            d.t(H(STRING), s.pick({ "q", "a ", "8", "(", "é" }));
            break;
        }
    }

    void string()
    {
        const unsigned k = s.below(3);
        d.cls(k == 0 ? "string" : k == 1 ? "byte string" : "C string");
        d.t(H(STRING_DECOR), k == 0 ? "" : k == 1 ? "b" : "c");
        d.t(H(STRING_DELIM), "\"");
        const std::size_t n = s.size(4);
        bool text = false;
        for (std::size_t i = 0; i < n; ++i) {
            if (s.chance(1, 2) || text) {
                const std::size_t before = d.w.size();
                escape(k == 1, false);
                text = d.w[d.w.size() - 1].type == H(STRING) && d.w.size() > before + 1;
            }
            else {
                const std::string x = gen_text(s, "\"\\", 6, "\n\t'");
                d.t(H(STRING), x);
                text = !x.empty();
            }
        }
        d.t(H(STRING_DELIM), "\"");
        if (s.chance(1, 12)) {
            d.cls("literal suffix");
            d.t(H(ERROR), ident());
        }
    }

    void raw_string()
    {
        d.cls("raw string");
        d.t(H(STRING_DECOR), s.pick({ "r", "br" }));
        const std::size_t n = s.size(4);
        const std::string hashes(n, '#');
        d.t(H(STRING_DELIM), hashes + "\"");
        // A quote with too few hashes does not end the string.
        const std::string x = gen_until(s, "\"" + hashes, "", "\n\\/*'#\"");
        if (x.find('"') != x.npos) {
            d.cls("quote within a raw string");
        }
        d.t(H(STRING), x);
        d.t(H(STRING_DELIM), "\"" + hashes);
        if (s.chance(1, 12)) {
            d.cls("number sign after a raw string");
            for (std::size_t i = s.below(2) + 1; i--;) {
                d.t(H(SYMBOL_PUNC), "#");
            }
        }
    }

    void character()
    {
        const bool byte = s.chance(1, 3);
        d.cls(byte ? "byte literal" : "character literal");
        d.t(H(STRING_DECOR), byte ? "b" : "");
        d.t(H(STRING_DELIM), "'");
        if (s.chance(1, 2)) {
            escape(byte, true);
        }
        else {
            std::string x = s.chance(1, 3) ? s.pick({ "\"", "/", "{", "é", "𝒳", "_", "0", " " }) : gen_text(s, "'\\", 1, "\"", !byte);
            d.t(H(STRING), x.empty() ? "a" : x);
        }
        d.t(H(STRING_DELIM), "'");
    }

    void element()
    {
        switch (s.weighted({ 6, 6, 2, 2, 8, 5, 3, 4, 2, 3, 2, 2 })) {
        case 0: {
            const Kw& k = s.pick(kws);
            d.cls("keyword");
            d.t(k.type, k.code);
            break;
        }
        case 1: d.cls("identifier"); d.t(H(NAME), ident()); break;
        case 2:
            d.cls("macro");
            if (s.chance(1, 4)) {
                d.t(H(NAME_MACRO_DELIM), "r#").t(H(NAME_MACRO), "m" + ident());
            }
            else {
                d.t(H(NAME_MACRO), ident());
            }
            d.t(H(NAME_MACRO_DELIM), "!");
            break;
        case 3:
            d.cls("raw identifier");
            if (s.chance(1, 5)) {
                d.t(H(ERROR), s.pick({ "r#crate", "r#self", "r#super", "r#Self", "r#_" }));
            }
            else {
                std::string x = s.chance(1, 2) ? ident() : s.pick(kws).code;
                if (x == "crate" || x == "self" || x == "super" || x == "Self" || x == "_") {
                    x = "match";
                }
                d.t(H(NAME_DELIM), "r#").t(H(NAME), x);
            }
            break;
        case 4: {
            const Kw& k = s.pick(puncs);
            d.cls("punctuation");
            d.t(k.type, k.code);
            break;
        }
        case 5: {
            static const Number_Opts o { .prefixes = { { "0x", 16 }, { "0b", 2 }, { "0o", 8 } },
                                         .int_suffixes = { "u8", "i128", "usize", "f64", "foo" },
                                         .prefix_int_suffixes = { "u8", "i64", "usize" },
                                         .float_suffixes = { "f32", "f64" },
                                         .separator = '_',
                                         .trailing_dot = true,
                                         .leading_zero = true };
            if (s.chance(1, 12)) {
                d.cls("reserved number");
                d.t(H(ERROR), (s.chance(1, 2) ? gen_digits(s, 10, 3) : s.chance(1, 2) ? "0b" + gen_digits(s, 2, 3) : "0o" + gen_digits(s, 8, 3)) + s.pick({ "e", "E", "ex", "Em" }));
                break;
            }
            gen_number(s, d, o);
            break;
        }
        case 6: character(); break;
        case 7: string(); break;
        case 8: raw_string(); break;
        case 9: {
            d.cls("lifetime or label");
            const bool label = s.chance(1, 3), raw = s.chance(1, 4);
            std::string x = s.chance(1, 4) ? s.pick({ "static", "_", "a", "r" }) : ident();
            if (raw && x == "_") {
                x = "x";
            }
            d.t(label ? H(NAME_LABEL_DELIM) : H(NAME_LIFETIME_DELIM), raw ? "'r#" : "'");
            d.t(label ? H(NAME_LABEL) : H(NAME_LIFETIME), x);
            if (label) {
                d.t(H(SYMBOL_PUNC), ":");
            }
            break;
        }
        case 10:
            d.cls("line comment");
            d.t(H(COMMENT_DELIM), "//").t(H(COMMENT), gen_text(s, "", 10, "\t\"'"));
            d.r("\n");
            break;
        default: block_comment(); break;
        }
    }

    void block_comment()
    {
        d.cls("block comment");
        d.t(H(COMMENT_DELIM), "/*").t(H(COMMENT), gen_nested_comment(s, "\n\"'")).t(H(COMMENT_DELIM), "*/");
    }
};

void l10(Src& s, Ctx& c)
{
    if (s.chance(1, 64)) {
        // Known finding: escapes are recognized in raw C strings (a test of the repository fixes that).
        Doc d;
        d.t(H(STRING_DECOR), "cr").t(H(STRING_DELIM), "\"").t(H(STRING), "a\\n").t(H(STRING_DELIM), "\"");
        if (tokens(d.s, ULIGHT_LANG_RUST).tokens != d.w) {
            c.known("L10-raw-c-string");
        }
        return;
    }
    Doc d;
    Gen g { s, d };
    assemble(s, d, 14, [&] { g.element(); }, "()[]{},;", " \t\n\r", { "\xC2\x85", "\xE2\x80\x8E", "\xE2\x80\x8F", "\xE2\x80\xA8", "\xE2\x80\xA9", "\v", "\f" });
    switch (s.below(12)) {
    case 1:
        d.cls("unterminated string at the end");
        d.r(" ").t(H(STRING_DELIM), "\"").t(H(STRING), gen_text(s, "\"\\", 6, "\n"));
        break;
    case 2:
        d.cls("unterminated comment at the end");
        d.r(" ").t(H(COMMENT_DELIM), "/*").t(H(COMMENT), gen_text(s, "*/", 6, "\n"));
        break;
    case 3:
        d.cls("number before a range, tuple index or method");
        d.r(" ").digits(gen_digits(s, 10, 3));
        if (s.chance(1, 2)) {
            d.t(H(SYMBOL_OP), s.pick({ "..", "..=" })).digits(gen_digits(s, 10, 2));
        }
        else {
            d.t(H(SYMBOL_PUNC), ".").t(H(NAME), g.ident());
        }
        break;
    case 4:
        d.cls("inequality without spaces");
        d.r(" ").t(H(NAME), g.ident()).t(H(SYMBOL_OP), "!=").t(H(NAME), g.ident());
        break;
    case 5: {
        d.cls("apostrophes around a control character");
        d.r(" ");
        if (s.chance(1, 3)) {
            d.t(H(NAME), "b");
        }
        d.t(H(ERROR), "'").r(s.pick({ "\n", "\r", "\t" })).t(H(ERROR), "'").r(" ").t(H(NAME), g.ident());
        break;
    }
    default: break;
    }
    check_doc(c, d, ULIGHT_LANG_RUST, s.chance(1, 8) ? ULIGHT_COALESCE : 0);
}

Register rr10({ "L10", l10, 35000, 1000000, "documents of at least three tokens, assembled from Rust lexical elements with known tokens", true });

} // namespace
} // namespace vp::lang
