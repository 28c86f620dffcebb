#include "h_lang.hpp"

// L09 Kotlin: elements as defined by the Kotlin grammar.
namespace vp::lang {
namespace {

#include "kw/kotlin.inc"

struct Gen {
    Src& s;
    Doc& d;
    unsigned depth = 0;

    std::string ident() { return gen_ident(s, kws); }

    void braces()
    {
        d.t(H(SYMBOL_BRACE), "{");
        inner();
        d.t(H(SYMBOL_BRACE), "}");
    }
    void inner()
    {
        ++depth;
        d.r(s.pick({ "", " ", "\n" }));
        for (std::size_t i = 0, n = s.size(3); i < n; ++i) {
            element();
            d.r(gen_ws(s));
        }
        --depth;
    }
    void interpolation()
    {
        if (depth < 4 && s.chance(1, 2)) {
            d.cls(depth ? "nested interpolated expression" : "interpolated expression");
            d.t(H(STRING_INTERPOLATION_DELIM), "${");
            inner();
            d.t(H(STRING_INTERPOLATION_DELIM), "}");
        }
        else {
            d.cls("interpolated name");
            const std::string quoted = s.chance(1, 5) ? gen_text(s, "`", 6, "\"$'\\") : "";
            if (quoted.empty()) {
                d.t(H(STRING_INTERPOLATION), "$" + ident());
            }
            else {
                d.cls("interpolated backtick identifier");
                d.t(H(STRING_INTERPOLATION), "$`" + quoted + "`");
            }
        }
    }

    void element()
    {
        switch (s.weighted({ 6, 6, 8, 5, 3, 5, 3, 3, 2, 2, 2, unsigned(depth < 4 ? 2 : 0), 2 })) {
        case 0: {
            const Kw& k = s.pick(kws);
            d.cls("keyword");
            d.t(k.type, k.code);
            if (d.last() == '@') {
                d.t(H(NAME), ident());
            }
            break;
        }
        case 1: d.cls("identifier"); d.t(H(NAME), ident()); break;
        case 2: {
            const Kw& k = s.pick(puncs);
            const std::string_view x = k.code;
            if (x[0] == '"' || x == "{" || x == "}") {
                return;
            }
            d.cls("symbol");
            d.t(k.type, x).r(x == "@" ? " " : "");
            break;
        }
        case 3: {
            static const Number_Opts o { .prefixes = { { "0x", 16 }, { "0X", 16 }, { "0b", 2 }, { "0B", 2 } },
                                         .int_suffixes = { "L", "u", "U", "uL", "UL", "f", "F" },
                                         .prefix_int_suffixes = { "L", "u", "U", "uL", "UL" },
                                         .float_suffixes = { "f", "F" },
                                         .separator = '_',
                                         .leading_dot = true };
            gen_number(s, d, o);
            break;
        }
        case 4:
            d.cls("character literal");
            d.t(H(STRING_DELIM), "'");
            if (s.chance(1, 2)) {
                const std::string x = gen_text(s, "'\\", 1, "\"$");
                d.t(H(STRING), x.empty() ? "$" : x);
            }
            else {
                d.t(H(STRING_ESCAPE), s.chance(1, 3) ? "\\u" + hex(s, 4) : s.pick({ "\\t", "\\b", "\\r", "\\n", "\\'", "\\\"", "\\\\", "\\$" }));
            }
            d.t(H(STRING_DELIM), "'");
            break;
        case 5: {
            d.cls("string");
            d.t(H(STRING_DELIM), "\"");
            std::string pending;
            const auto flush = [&] { d.t(H(STRING), pending); pending.clear(); };
            for (std::size_t i = 0, n = s.size(5); i < n; ++i) {
                switch (s.weighted({ 4, 3, 3, 1, 1 })) {
                case 0: pending += gen_text(s, "\"\\$", 6, "'\t{}"); break;
                case 1: flush(); d.t(H(STRING_ESCAPE), s.chance(1, 3) ? "\\u" + hex(s, 4) : s.pick({ "\\t", "\\b", "\\r", "\\n", "\\'", "\\\"", "\\\\", "\\$" })); break;
                case 2:
                    flush();
                    interpolation();
                    pending += s.pick({ ".", " ", "-", ")" }); // ends the name
                    break;
                case 3: d.cls("lone dollar sign"); pending += s.pick({ "$ ", "$.", "$$ ", "$1 ", "$`` " }); break;
                default: d.cls("erroneous escape"); flush(); d.t(H(ERROR), "\\"); pending += s.pick({ "q", "0", "x", "é" }); break;
                }
            }
            flush();
            if (d.w.back().type == H(STRING_DELIM) && d.last() == '"') {
                d.t(H(STRING), "x"); // "" could join a following string to form """
            }
            d.t(H(STRING_DELIM), "\"");
            break;
        }
        case 6: {
            d.cls("multi-line string");
            d.t(H(STRING_DELIM), "\"\"\"");
            std::string pending = s.pick({ "x", "\n", "\\n" });
            const auto flush = [&] { d.t(H(STRING), pending); pending.clear(); };
            for (std::size_t i = 0, n = s.size(5); i < n; ++i) {
                switch (s.weighted({ 4, 2, 3 })) {
                case 0: pending += gen_text(s, "\"$", 6, "'\t{}\n\\"); break;
                case 1: pending += s.pick({ "\"x", "\"\" ", "\\\"-", "$ " }); break;
                default:
                    flush();
                    interpolation();
                    pending += s.pick({ ".", " ", "-", ")" });
                    break;
                }
            }
            // Any number of quotes may close the string; only the last three are the delimiter.
            pending += std::string(s.chance(1, 3) ? s.below(s.chance(1, 3) ? 14 : 4) : 0, '"');
            flush();
            d.t(H(STRING_DELIM), "\"\"\"");
            break;
        }
        case 7: {
            d.cls("annotation");
            d.t(H(NAME_ATTR_DELIM), "@").t(H(NAME_ATTR), ident());
            for (std::size_t n = s.size(2); n; --n) {
                d.t(H(NAME_ATTR_DELIM), ".").t(H(NAME_ATTR), ident());
            }
            if (s.chance(1, 3)) {
                d.t(H(NAME_ATTR_DELIM), ":");
                if (s.chance(1, 2)) {
                    d.t(H(SYMBOL_SQUARE), "[").t(H(NAME_ATTR), ident()).r(" ").t(H(NAME_ATTR), ident()).t(H(SYMBOL_SQUARE), "]");
                }
                else {
                    d.t(H(NAME_ATTR), ident());
                }
            }
            break;
        }
        case 8:
            d.cls("line comment");
            d.t(H(COMMENT_DELIM), "//").t(H(COMMENT), gen_text(s, "", 10, "\t\"'{}"));
            d.r(s.pick({ "\n", "\r\n", "\r" }));
            break;
        case 9:
            d.cls("block comment");
            d.t(H(COMMENT_DELIM), "/*").t(H(COMMENT), gen_nested_comment(s, "\n\"'{}")).t(H(COMMENT_DELIM), "*/");
            break;
        case 10: {
            d.cls("backtick identifier");
            const std::string x = gen_text(s, "`", 6, "\"$'\\");
            if (x.empty()) {
                d.t(H(ERROR), "``");
            }
            else {
                d.t(H(NAME_DELIM), "`").t(H(NAME), x).t(H(NAME_DELIM), "`");
            }
            break;
        }
        case 11: d.cls("braces"); braces(); break;
        default:
            d.cls("negated name");
            // The operator "!in" is not a prefix of a name.
            d.t(H(SYMBOL_OP), "!").t(H(NAME), s.pick({ "in", "is" }) + std::string(s.pick({ "Empty", "dex", "t", "_", "1", "é" })));
            break;
        }
    }
};

void l09(Src& s, Ctx& c)
{
    Doc d;
    Gen g { s, d };
    assemble(s, d, 12, [&] { g.element(); }, "()[],", " \t\n\r\f");
    switch (s.below(12)) {
    case 1:
        d.cls("string that ends with the line");
        d.r(" ").t(H(STRING_DELIM), "\"").t(H(STRING), gen_text(s, "\"\\$", 6) + "x").r(s.pick({ "\n", "\r\n" })).t(H(NAME), g.ident());
        break;
    case 2:
        d.cls("number before a range or member");
        d.r(" ").digits(std::to_string(s.below(1000)));
        if (s.chance(1, 2)) {
            d.t(H(SYMBOL_PUNC), "..").digits(std::to_string(s.below(1000)));
        }
        else {
            d.t(H(SYMBOL_PUNC), ".").t(H(NAME), g.ident());
        }
        break;
    case 3:
        d.cls("unbalanced closing brace");
        d.r(" ").t(H(ERROR), "}").r(" ").t(H(NAME), g.ident());
        break;
    case 4: {
        d.cls("unterminated string at the end");
        const bool block = s.chance(1, 2);
        d.r(" ").t(H(STRING_DELIM), block ? "\"\"\"" : "\"").t(H(STRING), "x" + gen_text(s, "\"\\$", 6, block ? "\n" : ""));
        if (s.chance(1, 2)) {
            d.t(H(STRING_INTERPOLATION), "$" + g.ident());
        }
        else if (!block && s.chance(1, 2)) {
            d.t(H(STRING_ESCAPE), s.pick({ "\\n", "\\\"", "\\\\", "\\$", "\\u12aB" }));
        }
        break;
    }
    case 5:
        d.cls("unterminated comment at the end");
        d.r(" ").t(H(COMMENT_DELIM), "/*").t(H(COMMENT), "/*" + gen_text(s, "*/", 6, "\n") + "*/" + gen_text(s, "*/", 6, "\n"));
        break;
    default: break;
    }
    check_doc(c, d, ULIGHT_LANG_KOTLIN, s.chance(1, 8) ? ULIGHT_COALESCE : 0);
}

Register rr09({ "L09", l09, 60000, 1500000, "documents of at least three tokens, assembled from Kotlin lexical elements with known tokens", true });

} // namespace
} // namespace vp::lang
