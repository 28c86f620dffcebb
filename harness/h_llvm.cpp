#include "h_lang.hpp"

// L17 LLVM IR: after the lexical parts of the LLVM Language Reference.
namespace vp::lang {
namespace {

constexpr Kw keywords[] = {
    { "bfloat", H(KEYWORD_TYPE) }, { "br", H(KEYWORD_CONTROL) }, { "call", H(KEYWORD_CONTROL) }, { "callbr", H(KEYWORD_CONTROL) },
    { "catchpad", H(KEYWORD_CONTROL) }, { "catchret", H(KEYWORD_CONTROL) }, { "catchswitch", H(KEYWORD_CONTROL) },
    { "cleanuppad", H(KEYWORD_CONTROL) }, { "cleanupret", H(KEYWORD_CONTROL) }, { "double", H(KEYWORD_TYPE) }, { "false", H(BOOL) },
    { "float", H(KEYWORD_TYPE) }, { "fp128", H(KEYWORD_TYPE) }, { "indirectbr", H(KEYWORD_CONTROL) }, { "invoke", H(KEYWORD_CONTROL) },
    { "label", H(KEYWORD_TYPE) }, { "landingpad", H(KEYWORD_CONTROL) }, { "metadata", H(KEYWORD_TYPE) }, { "none", H(NULL) },
    { "null", H(NULL) }, { "poison", H(NULL) }, { "ppc_fp128", H(KEYWORD_TYPE) }, { "ptr", H(KEYWORD_TYPE) }, { "resume", H(KEYWORD_CONTROL) },
    { "ret", H(KEYWORD_CONTROL) }, { "switch", H(KEYWORD_CONTROL) }, { "target", H(KEYWORD_TYPE) }, { "token", H(KEYWORD_TYPE) },
    { "true", H(BOOL) }, { "undef", H(NULL) }, { "unreachable", H(KEYWORD_CONTROL) }, { "void", H(KEYWORD_TYPE) }, { "vscale", H(KEYWORD_TYPE) },
    { "x", H(SYMBOL_PUNC) }, { "x86_amx", H(KEYWORD_TYPE) }, { "x86_fp80", H(KEYWORD_TYPE) },
};

struct Gen {
    Src& s;
    Doc& d;

    static unsigned type_of(const std::string& w)
    {
        for (const Kw& k : keywords) {
            if (w == k.code) {
                return k.type;
            }
        }
        if (w.size() > 1 && w[0] == 'i' && w.find_first_not_of("0123456789", 1) == w.npos) {
            return H(KEYWORD_TYPE);
        }
        return w == "c" ? H(STRING_DECOR) : H(KEYWORD);
    }

    std::string word()
    {
        switch (s.below(5)) {
        case 0: return "i" + gen_digits(s, 10, 4);
        case 1: return s.pick({ "define", "declare", "add", "icmp", "i", "i8x", "ia", "private", "unnamed_addr", "s", "u", "s0", "u0", "sub", "store", "undefx", "trueish", "x86", "xor", "e1", "nsw", "half", "retx", "b", "iX", "cc", "none1", "align", "s32" });
        default: break;
        }
        std::string x = s.pick({ "a", "f", "s", "u", "x", "i", "z", "A", "c" });
        for (std::size_t i = 0, n = s.size(5); i < n; ++i) {
            x += s.pick({ "a", "e", "x", "0", "9", "_", "-", "Z" });
        }
        // s0x1 would be a number.
        return x.starts_with("s0x") || x.starts_with("u0x") ? "w" + x : x;
    }

    /// The name after a sigil, and labels.
    std::string symbol()
    {
        std::string x;
        for (std::size_t i = 0, n = 1 + s.size(5); i < n; ++i) {
            x += s.pick({ "a", "e", "x", "0", "9", "_", "-", "Z", ".", "$", "for", ".str" });
        }
        return x;
    }

    void number()
    {
        d.cls("number");
        const bool neg = s.chance(1, 4);
        if (s.chance(1, 3)) {
            d.cls("hexadecimal number");
            const char* p = s.pick({ "0x", "0xK", "0xL", "0xM", "0xR", "0xH", "s0x", "u0x" });
            d.t(H(NUMBER_DECOR), std::string(neg && p[0] == '0' ? "-" : "") + p).t(H(NUMBER), hex(s, 1 + s.below(8)));
            return;
        }
        if (neg) {
            d.cls("negative number");
            d.t(H(NUMBER_DECOR), "-");
        }
        d.t(H(NUMBER), gen_digits(s, 10, 5));
        if (s.chance(1, 3)) {
            d.cls("floating-point number");
            d.t(H(NUMBER_DELIM), ".").t(H(NUMBER), gen_digits(s, 10, 4));
            if (s.chance(1, 2)) {
                d.t(H(NUMBER_DELIM), s.pick({ "e", "E", "e+", "e-", "E+", "E-" })).t(H(NUMBER), gen_digits(s, 10, 3));
            }
        }
    }

    void string()
    {
        d.cls("string");
        d.t(H(STRING_DELIM), "\"");
        bool text = false;
        for (std::size_t i = 0, n = s.size(5); i < n; ++i) {
            if (!text && s.chance(1, 2)) {
                d.t(H(STRING), gen_text(s, "\"\\", 8, "\n\t;%@"));
                text = true;
                continue;
            }
            text = false;
            d.cls("escape");
            d.t(H(STRING_ESCAPE), s.chance(1, 4) ? "\\\\" : "\\" + hex(s, 2));
        }
        d.t(H(STRING_DELIM), "\"");
    }

    void element()
    {
        switch (s.below(14)) {
        case 0:
        case 1: {
            d.cls("keyword");
            const Kw& k = keywords[s.below(std::size(keywords))];
            d.t(k.type, k.code);
            break;
        }
        case 2:
        case 3: {
            d.cls("other word");
            const std::string w = word();
            d.t(type_of(w), w);
            break;
        }
        case 4: {
            d.cls("local name");
            d.t(H(NAME_VAR_DELIM), "%").t(H(NAME_VAR), s.chance(1, 4) ? gen_digits(s, 10, 3) : symbol());
            break;
        }
        case 5: {
            d.cls("global name");
            d.t(H(NAME_FUNCTION_DELIM), "@").t(H(NAME_FUNCTION), s.chance(1, 4) ? gen_digits(s, 10, 3) : symbol());
            break;
        }
        case 6:
            if (s.chance(1, 3)) {
                d.cls("quoted name");
                const bool local = s.chance(1, 2);
                d.t(local ? H(NAME_VAR_DELIM) : H(NAME_FUNCTION_DELIM), local ? "%" : "@");
            }
            else if (s.chance(1, 2)) {
                d.cls("character array");
                d.t(H(STRING_DECOR), "c");
            }
            string();
            break;
        case 7:
        case 8: number(); break;
        case 9: {
            d.cls("label");
            std::string x = symbol();
            // Those that begin with a digit are numbers, or begin with one.
            if (std::isdigit(static_cast<unsigned char>(x[0])) || (x[0] == '-' && x.size() > 1 && std::isdigit(static_cast<unsigned char>(x[1])))) {
                x.insert(0, "l");
            }
            if (x.starts_with("s0x") || x.starts_with("u0x")) {
                x.insert(0, "l");
            }
            d.t(H(NAME_LABEL_DECL), x).t(H(NAME_LABEL_DELIM), ":");
            break;
        }
        case 10:
            d.cls("metadata or attribute group");
            d.t(H(SYMBOL_PUNC), s.pick({ "!", "#" })).t(H(NUMBER), gen_digits(s, 10, 3));
            break;
        case 11:
            d.cls("line comment");
            d.t(H(COMMENT_DELIM), ";").t(H(COMMENT), gen_text(s, "", 10, "\t;\"")).r(s.pick({ "\n", "\r\n" }));
            break;
        case 12: {
            d.cls("block comment");
            const std::string x = gen_until(s, "*/", "", "\n\t;\"/*");
            d.t(H(COMMENT_DELIM), "/*").t(H(COMMENT), x).t(H(COMMENT_DELIM), "*/");
            break;
        }
        default:
            d.cls("ellipsis");
            d.t(H(SYMBOL_PUNC), "...");
            break;
        }
    }
};

void l17(Src& s, Ctx& c)
{
    Doc d;
    Gen g { s, d };
    assemble(s, d, 10, [&] { g.element(); }, "()[]{},=<>*|", " \t\n", { "\r\n", "\r" });
    if (s.chance(1, 8)) {
        d.cls("cut off at the end");
        switch (s.below(4)) {
        case 0: d.r(" ").t(H(STRING_DELIM), "\"").t(H(STRING), "x" + gen_text(s, "\"\\", 6, "\n")); break;
        case 1: d.r(" ").t(H(COMMENT_DELIM), "/*").t(H(COMMENT), "x" + gen_text(s, "*/", 6, "\n")); break;
        case 2: d.r(" ").t(H(COMMENT_DELIM), ";").t(H(COMMENT), "x" + gen_text(s, "", 6)); break;
        default: d.r(" ").t(s.chance(1, 2) ? H(NAME_VAR_DELIM) : H(NAME_VAR_DELIM), "%").t(H(NAME_VAR), "v" + gen_digits(s, 10, 3)); break;
        }
    }
    check_doc(c, d, ULIGHT_LANG_LLVM, 0, true);
}

Register r17({ "L17", l17, 60000, 1500000, "documents of at least three tokens, assembled from LLVM IR elements with known tokens", true });

} // namespace
} // namespace vp::lang
