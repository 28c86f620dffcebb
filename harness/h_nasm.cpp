#include "h_lang.hpp"

// L16 NASM: source lines as described in the NASM manual, chapter 3: an optional label, an instruction,
// operands, a comment.
namespace vp::lang {
namespace {

#include "kw/nasm.inc"

struct Gen {
    Src& s;
    Doc& d;

    static bool reserved(std::string x)
    {
        for (char& c : x) {
            c = char(std::tolower(static_cast<unsigned char>(c)));
        }
        return is_kw(types, x) || is_kw(registers, x) || is_kw(label_instructions, x) || is_kw(operator_keywords, x);
    }

    std::string ident()
    {
        std::string x;
        if (s.chance(1, 4)) {
            // Looks like a number with suffix, or like a register and the like.
            x = s.pick({ "each", "beach", "cafeh", "ebx1", "add", "dad", "bad", "fetch", "eaxx", "rdi_", "byte1", "jmpx", "_ax", "ax_", "xmm99", "segs", "abx", "ffh", "e8", "b1" });
        }
        else {
            x = gen_ident(s, {}, false, "_", "_$#@~?.");
        }
        while (reserved(x)) {
            x += "z";
        }
        return x;
    }

    std::string any_case(std::string x)
    {
        const std::size_t how = s.below(4);
        for (char& c : x) {
            if (how == 1 || (how == 2 && s.chance(1, 2))) {
                c = char(std::toupper(static_cast<unsigned char>(c)));
            }
        }
        return x;
    }

    std::string blank() { return s.pick({ " ", " ", "  ", "\t" }); }
    std::string maybe_blank() { return s.chance(1, 2) ? blank() : ""; }

    void number()
    {
        d.cls("number");
        const char sep = '_';
        switch (s.below(5)) {
        case 0: d.digits(gen_digits(s, 10, 5, sep), sep); break;
        case 1: {
            d.cls("number with base suffix");
            const auto [c, base] = s.pick({ std::pair { 'b', 2 }, std::pair { 'y', 2 }, std::pair { 'q', 8 }, std::pair { 'o', 8 }, std::pair { 'd', 10 }, std::pair { 't', 10 }, std::pair { 'h', 16 }, std::pair { 'x', 16 } });
            std::string x = gen_digits(s, base, 5, sep);
            if (base == 16) {
                x.insert(0, std::string(1, char('1' + s.below(9))));
            }
            d.digits(x, sep).t(H(NUMBER_DECOR), std::string(1, s.chance(1, 3) ? char(std::toupper(c)) : c));
            break;
        }
        case 2: {
            d.cls("number with prefix");
            const auto [p, base] = s.pick({ std::pair { "0b", 2 }, std::pair { "0Y", 2 }, std::pair { "0q", 8 }, std::pair { "0O", 8 }, std::pair { "0d", 10 }, std::pair { "0T", 10 }, std::pair { "0x", 16 }, std::pair { "0X", 16 }, std::pair { "0h", 16 }, std::pair { "$", 16 } });
            std::string x = gen_digits(s, base, 5, sep);
            if (*p == '$') {
                x.insert(0, std::string(1, char('0' + s.below(10))));
            }
            d.t(H(NUMBER_DECOR), p).digits(x, sep);
            break;
        }
        default: {
            d.cls("floating-point number");
            d.digits(gen_digits(s, 10, 4, sep), sep);
            const bool dot = s.chance(2, 3);
            if (dot) {
                d.t(H(NUMBER_DELIM), ".").digits(gen_digits(s, 10, 3, sep), sep);
            }
            if (!dot || s.chance(1, 2)) {
                d.t(H(NUMBER_DELIM), s.pick({ "e", "E", "e+", "e-", "E+", "E-" })).digits(gen_digits(s, 10, 3));
            }
            break;
        }
        }
    }

    void string()
    {
        if (s.chance(1, 2)) {
            d.cls("verbatim string");
            const char q = s.chance(1, 2) ? '"' : '\'';
            d.t(H(STRING_DELIM), std::string(1, q)).t(H(STRING), gen_text(s, std::string(1, q), 8, "\t`\\;%")).t(H(STRING_DELIM), std::string(1, q));
            return;
        }
        d.cls("backquoted string");
        d.t(H(STRING_DELIM), "`");
        bool text = false;
        for (std::size_t i = 0, n = s.size(5); i < n; ++i) {
            if (!text && s.chance(1, 2)) {
                d.t(H(STRING), gen_text(s, "`\\", 6, "\t'\";%"));
                text = true;
                continue;
            }
            text = false;
            switch (s.below(6)) {
            case 0: d.t(H(STRING_ESCAPE), s.pick({ "\\x", "\\x" }) + hex(s, 2)); break;
            case 1: d.t(H(STRING_ESCAPE), "\\u" + hex(s, 4)); break;
            case 2: d.t(H(STRING_ESCAPE), "\\U" + hex(s, 8)); break;
            case 3: d.t(H(STRING_ESCAPE), "\\" + gen_oct3()); break;
            case 4:
                d.cls("erroneous escape");
                d.t(H(ERROR), s.pick({ "\\q", "\\ ", "\\9", "\\(" }));
                break;
            default: d.t(H(STRING_ESCAPE), s.pick({ "\\'", "\\\"", "\\`", "\\\\", "\\?", "\\a", "\\b", "\\t", "\\n", "\\v", "\\f", "\\r", "\\e" })); break;
            }
        }
        d.t(H(STRING_DELIM), "`");
    }

    std::string gen_oct3() { return cat(s.below(4), s.below(8), s.below(8)); }

    void comment()
    {
        d.cls("comment");
        d.t(H(COMMENT_DELIM), ";").t(H(COMMENT), gen_text(s, "", 10, "\t'\";%\\"));
    }

    void primary(int depth)
    {
        if (s.chance(1, 8)) {
            d.t(H(SYMBOL_OP), s.pick({ "-", "~", "+", "!" }));
        }
        switch (s.weighted({ 4, 4, 4, unsigned(depth < 2 ? 2 : 0), 2, 1 })) {
        case 0:
            d.cls("register");
            d.t(H(NAME_VAR), any_case(s.pick(registers).code));
            for (std::size_t n = s.chance(1, 8) ? 1 + s.below(2) : 0; n; --n) {
                d.cls("decorator");
                d.r(s.pick({ "", " " })).t(H(SYMBOL_BRACE), "{").t(H(NAME_VAR), s.pick({ "k1", "z", "sae", "k7" })).t(H(SYMBOL_BRACE), "}");
            }
            break;
        case 1: d.cls("name"); d.t(H(NAME_VAR), ident()); break;
        case 2: number(); break;
        case 3: {
            const bool sq = s.chance(1, 2);
            d.t(sq ? H(SYMBOL_SQUARE) : H(SYMBOL_PARENS), sq ? "[" : "(");
            expression(depth + 1);
            d.t(sq ? H(SYMBOL_SQUARE) : H(SYMBOL_PARENS), sq ? "]" : ")");
            break;
        }
        case 4: string(); break;
        default: d.cls("dollar name"); d.t(H(NAME), s.pick({ "$", "$$", "$eax", "$x" })); break;
        }
    }

    void expression(int depth)
    {
        primary(depth);
        for (std::size_t i = 0, n = s.size(3); i < n; ++i) {
            d.cls("operator");
            // "?" and ":" need no space of their own, but a name can contain "?".
            d.r(maybe_blank()).t(H(SYMBOL_OP), s.pick({ "+", "-", "*", "/", "//", "|", "||", "&", "&&", "^", "^^", "<<", ">>", "<<<", ">>>", "=", "==", "!=", "<>", "<", "<=", "<=>", ">", ">=", ":" }));
            // An operator that begins with "!" or the like may not combine.
            d.r(s.chance(1, 2) ? blank() : "");
            primary(depth);
        }
    }

    void operand()
    {
        while (s.chance(1, 5)) {
            if (s.chance(2, 3)) {
                d.cls("type");
                d.t(H(KEYWORD_TYPE), any_case(s.pick(types).code)).r(blank());
            }
            else {
                d.cls("operator keyword");
                d.t(H(KEYWORD_OP), any_case(s.pick(operator_keywords).code)).r(blank());
            }
        }
        expression(0);
    }

    void line()
    {
        d.r(maybe_blank());
        if (s.chance(1, 10)) {
            d.cls("macro line");
            d.t(H(NAME_MACRO), "%" + std::string(s.pick({ "define ", "macro ", "if ", "include \"x\" ", "" })) + gen_text(s, "", 8, ";'\"")).r(eol());
            return;
        }
        if (s.chance(1, 3)) {
            d.cls("label");
            if (s.chance(1, 3)) {
                d.t(H(NAME_LABEL_DECL), "." + ident() + (s.chance(1, 2) ? ":" : ""));
                d.r(blank());
            }
            else {
                std::string x = ident();
                if (s.chance(1, 8)) {
                    x = s.pick({ "eax", "jmp", "byte", "..@x" });
                }
                d.t(H(NAME_LABEL_DECL), x + ":");
                d.r(maybe_blank());
            }
        }
        switch (s.weighted({ 8, 2, 1 })) {
        case 0:
            d.cls("instruction");
            d.t(H(NAME_INSTRUCTION), s.chance(1, 2) ? std::string(s.pick({ "mov", "add", "DB", "lea", "xor", "times", "resb", "each" })) : ident());
            for (std::size_t i = 0, n = s.size(3); i < n; ++i) {
                if (i) {
                    d.r(maybe_blank()).t(H(SYMBOL_PUNC), ",").r(maybe_blank());
                }
                else {
                    d.r(blank());
                }
                operand();
            }
            break;
        case 1:
            d.cls("jump");
            d.t(H(NAME_INSTRUCTION), any_case(s.pick(label_instructions).code)).r(blank()).t(H(NAME_LABEL), ident());
            break;
        default: break;
        }
        switch (s.weighted({ 10, 3, 1 })) {
        case 1: d.r(s.chance(3, 4) ? blank() : ""); comment(); break;
        case 2:
            d.cls("string that ends with the line");
            d.r(" ");
            if (s.chance(1, 2)) {
                d.t(H(STRING_DELIM), "'").t(H(STRING), gen_text(s, "'", 6, ";\"`"));
            }
            else {
                d.t(H(STRING_DELIM), "`").t(H(STRING), gen_text(s, "`\\", 6, ";\"'"));
            }
            break;
        default: break;
        }
        d.r(eol());
    }
    std::string eol() { return s.pick({ "\n", "\n", "\r\n", "\n\n" }); }
};

void l16(Src& s, Ctx& c)
{
    Doc d;
    Gen g { s, d };
    for (std::size_t i = 0, n = 1 + s.size(6); i < n; ++i) {
        g.line();
    }
    switch (s.below(8)) {
    case 1: {
        d.cls("unterminated string at the end");
        const char q = s.pick({ '\'', '"', '`' });
        d.r(" ").t(H(NAME_INSTRUCTION), "db").r(" ").t(H(STRING_DELIM), std::string(1, q)).t(H(STRING), "x" + gen_text(s, std::string(1, q) + "\\", 6, ";%"));
        break;
    }
    case 2:
        d.cls("comment at the end");
        d.t(H(COMMENT_DELIM), ";").t(H(COMMENT), gen_text(s, "", 6, ";%'"));
        break;
    case 3:
        d.cls("operand at the end");
        d.t(H(NAME_INSTRUCTION), "mov").r(" ").t(H(NAME_VAR), g.any_case(s.pick(registers).code)).t(H(SYMBOL_PUNC), ",");
        if (s.chance(1, 2)) {
            g.number();
        }
        break;
    default: break;
    }
    check_doc(c, d, ULIGHT_LANG_NASM, s.chance(1, 8) ? ULIGHT_COALESCE : 0);
}

Register rr16({ "L16", l16, 35000, 1000000, "documents of at least three tokens, assembled from NASM source lines with known tokens", true });

} // namespace
} // namespace vp::lang
