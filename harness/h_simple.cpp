#include "h_lang.hpp"

// L01 diff output, L02 TeX, L03 EBNF.
namespace vp::lang {
namespace {

// ---------------------------------------------------------------- L01

void l01(Src& s, Ctx& c)
{
    Doc d;
    const std::size_t n = 1 + s.size(10);
    const std::string nl = s.pick({ "\n", "\n", "\r\n", "\r" });
    for (std::size_t i = 0; i < n; ++i) {
        std::string x = gen_text(s, "", 10, "\t");
        switch (s.below(12)) {
        case 0:
        case 1:
            d.cls("deletion");
            // ("--- " begins a heading, even if it is the deletion of "-- ".)
            d.t(H(DIFF_DELETION), s.pick({ "-", "- ", "-", "--", "---", "-+", "-@@ ", "---x" }) + (x.empty() || x[0] == '-' || x[0] == ' ' ? "y" : x));
            break;
        case 2:
        case 3:
            d.cls("insertion");
            d.t(H(DIFF_INSERTION), s.pick({ "+", "+ ", "+", "++", "+++", "+-", "+@@ ", "+++x" }) + (x.empty() || x[0] == '+' || x[0] == ' ' ? "y" : x));
            break;
        case 4:
            d.cls("only a sign");
            d.t(s.chance(1, 2) ? H(DIFF_DELETION) : H(DIFF_INSERTION), "");
            if (s.chance(1, 2)) {
                d.t(H(DIFF_DELETION), s.pick({ "-", "--", "---", "----" }));
            }
            else {
                d.t(H(DIFF_INSERTION), s.pick({ "+", "++", "+++", "++++" }));
            }
            break;
        case 5:
            d.cls("file heading");
            d.t(H(DIFF_HEADING), s.pick({ "--- ", "+++ ", "*** " }) + x);
            break;
        case 6:
            d.cls("hunk heading");
            d.t(H(DIFF_HEADING_HUNK), "@@ -" + gen_digits(s, 10, 3) + "," + gen_digits(s, 10, 3) + " +" + gen_digits(s, 10, 3) + " @@" + x);
            break;
        case 7:
            d.cls("separator");
            d.t(H(DIFF_HEADING), std::string(1 + s.below(20), '*'));
            break;
        case 8:
            d.cls("modification");
            d.t(H(DIFF_MODIFICATION), "!" + x);
            break;
        case 9:
            d.cls("line that resembles a heading");
            d.t(H(DIFF_COMMON), s.pick({ "*x", "**** x", "@@-1", "@.", "@@x", "* ", "@@@ ", " --- ", " @@ " }) + (x.empty() ? "." : x) + ".");
            break;
        case 10:
            d.cls("empty line");
            break;
        default:
            d.cls("common line");
            d.t(H(DIFF_COMMON), s.pick({ " ", " ", "diff --git ", "index ", "\\ No newline", "Only in ", "=", "#", "\t", "\xc3\xa9", "1c1", "< ", "> " }) + x);
            break;
        }
        if (i + 1 < n || s.chance(1, 2)) {
            d.r(nl);
        }
    }
    check_doc(c, d, ULIGHT_LANG_DIFF, 0);
}

Register r01({ "L01", l01, 60000, 1500000, "diffs of at least three non-empty lines with known types", true });

// ---------------------------------------------------------------- L02

void l02(Src& s, Ctx& c)
{
    Doc d;
    bool after_command = false;
    const std::size_t n = 1 + s.size(14);
    for (std::size_t i = 0; i < n; ++i) {
        bool command = false;
        switch (s.below(8)) {
        case 0:
        case 1:
            d.cls("command");
            {
                std::string x = gen_ident(s, {}, false, "", "");
                std::erase_if(x, [](unsigned char k) { return !std::isalpha(k); });
                d.t(H(MARKUP_TAG), "\\" + x);
            }
            command = true;
            break;
        case 2:
            d.cls("escape");
            if (s.chance(1, 3)) {
                d.t(H(STRING_ESCAPE), s.pick({ "\\\xc3\xa9", "\\\xe4\xb8\xad", "\\\xf0\x9f\x98\x80" }));
            }
            else {
                const std::string_view x = "!\"#$%&'()*+,-./0123456789:;<=>?@[\\]^_`{|}~ \t";
                d.t(H(STRING_ESCAPE), std::string("\\") + x[s.below(x.size())]);
            }
            break;
        case 3: {
            d.cls("bracket");
            const char b = s.pick({ '[', ']', '{', '}' });
            d.t(b == '[' || b == ']' ? H(SYMBOL_SQUARE) : H(SYMBOL_BRACE), std::string(1, b));
            break;
        }
        case 4:
            d.cls("special character");
            d.t(H(SYMBOL_OP), std::string(1, s.pick({ '~', '%', '$', '#', '&', '^', '_', '@' })));
            break;
        default: {
            std::string x = gen_text(s, "\\[]{}~%$#&^_@", 8, "\n\t\r");
            if (after_command && !x.empty() && std::isalpha(static_cast<unsigned char>(x[0]))) {
                x.insert(0, s.pick({ " ", "1", "(", "\n", "\xc3\xa9" }));
            }
            if (x.empty()) {
                continue;
            }
            d.r(x);
            break;
        }
        }
        after_command = command;
    }
    if (s.chance(1, 12)) {
        d.cls("backslash at the end");
        d.t(H(ERROR), "\\");
    }
    check_doc(c, d, ULIGHT_LANG_TEX, 0);
}

Register r02({ "L02", l02, 60000, 1500000, "documents of at least three tokens, assembled from TeX elements with known tokens", true });

// ---------------------------------------------------------------- L03

struct Ebnf {
    Src& s;
    Doc& d;
    bool in_name = false;
    bool left = true;

    void blank(bool some)
    {
        const std::size_t n = some ? 1 + s.below(2) : s.below(2);
        for (std::size_t i = 0; i < n; ++i) {
            if (s.chance(1, 8)) {
                d.cls("comment");
                const std::string x = gen_until(s, "*)", "", "\n\t*();'");
                d.t(H(COMMENT_DELIM), "(*").t(H(COMMENT), x).t(H(COMMENT_DELIM), "*)");
            }
            else {
                d.r(s.pick({ " ", " ", "  ", "\n", "\t", "\r\n", "\v", "\f" }));
            }
        }
    }

    void name()
    {
        const std::size_t n = 1 + s.size(2);
        for (std::size_t i = 0; i < n; ++i) {
            if (i > 0) {
                d.cls("name of several words");
                blank(true);
            }
            std::string x = gen_ident(s, {}, false);
            if (i > 0 && s.chance(1, 6)) {
                d.cls("digit begins a word of a name");
                x = gen_digits(s, 10, 3) + s.pick({ "", "a" });
            }
            if (s.chance(1, 3)) {
                d.cls("hyphen in a name");
                x += s.pick({ "-", "--", "-" }) + s.pick({ std::string("b"), std::string(""), std::string("2"), gen_ident(s, {}, false) });
            }
            d.t(left ? H(NAME_NONTERMINAL_DECL) : H(NAME_NONTERMINAL), x);
        }
        in_name = true;
    }

    void primary(int depth)
    {
        switch (s.below(depth < 4 ? 9 : 5)) {
        case 0:
        case 1: name(); break;
        case 2: {
            d.cls("terminal string");
            const std::string q = s.pick({ "'", "\"", "`" });
            d.t(H(STRING_DELIM), q).t(H(STRING), gen_text(s, q, 8, "\t;")).t(H(STRING_DELIM), q);
            in_name = false;
            break;
        }
        case 3:
            d.cls("special sequence");
            d.t(H(NAME_MACRO), "?" + gen_text(s, "?", 8, "\t\n;") + "?");
            in_name = false;
            break;
        case 4:
            if (!in_name) {
                d.cls("repetition");
                d.t(H(NUMBER), gen_digits(s, 10, 4));
                blank(false);
                d.t(H(SYMBOL_OP), "*");
                d.r(" ");
            }
            name();
            break;
        default: {
            d.cls("bracketed definitions");
            static const struct {
                const char *open, *close;
                unsigned type;
            } kinds[] { { "(", ")", H(SYMBOL_PARENS) }, { "[", "]", H(SYMBOL_SQUARE) }, { "{", "}", H(SYMBOL_BRACE) }, { "(/", "/)", H(SYMBOL_PARENS) }, { "(:", ":)", H(SYMBOL_BRACE) } };
            const auto& k = kinds[s.below(5)];
            d.t(k.type, k.open);
            in_name = false;
            d.r(s.pick({ "", " ", "\n" }));
            definitions(depth + 1);
            blank(false);
            // (A parenthesis must not be taken for part of what precedes it.)
            d.t(k.type, k.close);
            in_name = false;
            break;
        }
        }
    }

    void definitions(int depth)
    {
        const std::size_t n = 1 + s.size(3);
        for (std::size_t i = 0; i < n; ++i) {
            if (i > 0) {
                blank(false);
                if (in_name && s.chance(1, 6)) {
                    d.cls("exception");
                    // Preceded by something other than a name, this is not part of the name.
                    d.r(" ").t(H(SYMBOL_OP), "-");
                }
                else if (!in_name && s.chance(1, 5)) {
                    d.cls("definitions without a separator");
                    d.r(" ");
                }
                else {
                    d.t(H(SYMBOL_OP), s.pick({ ",", ",", "|", "/", "!" }));
                }
                in_name = false;
                if (d.s.back() == '/') {
                    d.r(" ");
                }
                blank(false);
            }
            primary(depth);
        }
    }
};

void l03(Src& s, Ctx& c)
{
    Doc d;
    Ebnf g { s, d };
    const std::size_t n = 1 + s.size(4);
    for (std::size_t i = 0; i < n; ++i) {
        g.left = true;
        g.in_name = false;
        g.blank(false);
        g.name();
        g.blank(false);
        d.t(H(SYMBOL_PUNC), "=");
        g.left = false;
        g.in_name = false;
        g.blank(false);
        if (!s.chance(1, 8)) {
            g.definitions(0);
        }
        g.blank(false);
        if (s.chance(1, 12)) {
            d.cls("character that is not allowed");
            d.r(" ").t(H(ERROR), s.pick({ "@", "#&", "\\", "<", "+", "\xc3\xa9", "\xe4\xb8\xad\xf0\x9f\x98\x80", "^~" })).r(" ");
        }
        d.t(H(SYMBOL_PUNC), s.pick({ ";", ";", "." }));
        d.r(s.pick({ "", "\n", "\n\n", " ", "\r\n" }));
    }
    if (s.chance(1, 8)) {
        d.cls("cut off at the end");
        switch (s.below(3)) {
        case 0: d.r(" ").t(H(STRING_DELIM), "'").t(H(STRING), "x" + gen_text(s, "'", 6, "\n")); break;
        case 1: d.r(" ").t(H(COMMENT_DELIM), "(*").t(H(COMMENT), ")" + gen_text(s, "*", 6, "\n")); break;
        default: d.r(" ").t(H(NAME_MACRO), "?" + gen_text(s, "?", 6, "\n")); break;
        }
    }
    check_doc(c, d, ULIGHT_LANG_EBNF, 0);
}

Register r03({ "L03", l03, 25000, 800000, "grammars of at least three tokens, assembled from EBNF rules with known tokens", true });

} // namespace
} // namespace vp::lang
