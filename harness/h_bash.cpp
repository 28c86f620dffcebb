#include "h_lang.hpp"

// L15 Bash: commands of words, as described in the Bash reference manual, chapter 3. The first word of
// a command is the command name; the others are options (if they start with '-') or plain arguments.
namespace vp::lang {
namespace {

enum Word_Kind { wk_command, wk_argument, wk_param, wk_arith };

struct Gen {
    Src& s;
    Doc& d;

    std::string blank() { return s.pick({ " ", " ", " ", "  ", "\t", " \t " }); }
    std::string name() { return gen_ident(s, {}, false); }

    static bool ident_char(char c) { return std::isalnum(static_cast<unsigned char>(c)) || c == '_'; }

    std::string plain(Word_Kind k, bool first, bool after_name)
    {
        std::string x;
        if (first && k == wk_argument && s.chance(1, 4)) {
            x = s.pick({ "-", "--" });
        }
        x += gen_text(s, "\\'\" |&;()<>$`}", 8, "");
        if (x.empty() || (after_name && ident_char(x[0]))) {
            x.insert(0, s.pick({ "/", ".", ":", "%", "," }));
        }
        if (first && x[0] == '#' && k != wk_param) {
            x.insert(0, "a");
        }
        if (k != wk_param && s.chance(1, 8)) {
            x += s.pick({ "#x", "}", "$:", "$%", "#", "{a,b}", "=~", "[0]" });
            d.cls("odd word characters");
        }
        return x;
    }

    unsigned plain_type(Word_Kind k, bool first, const std::string& x)
    {
        return k == wk_command || k == wk_arith ? H(NAME_SHELL_COMMAND)
            : k == wk_param                     ? H(STRING_INTERPOLATION)
            : first && x.starts_with('-')       ? H(NAME_SHELL_OPTION)
                                                : H(STRING);
    }

    void word(Word_Kind k, int depth)
    {
        bool prev_plain = false;
        bool after_name = false;
        const std::size_t n = 1 + (s.chance(1, 2) ? 0 : s.size(4));
        for (std::size_t i = 0; i < n; ++i) {
            const std::size_t what = prev_plain ? 1 + s.below(5) : s.weighted({ 10, 3, 3, 3, 4, 2 });
            prev_plain = what == 0;
            bool name_now = false;
            switch (what) {
            case 0: {
                const std::string x = plain(k, i == 0, after_name);
                d.t(plain_type(k, i == 0, x), x);
                break;
            }
            case 1: {
                d.cls("single quotes");
                d.t(H(STRING_DELIM), "'").t(H(STRING), gen_text(s, "'", 8, "\n\t\"\\$#")).t(H(STRING_DELIM), "'");
                break;
            }
            case 2: double_quoted(depth); break;
            case 3: {
                d.cls("escape");
                d.t(H(STRING_ESCAPE), s.pick({ "\\ ", "\\\\", "\\'", "\\\"", "\\$", "\\#", "\\;", "\\|", "\\(", "\\)", "\\n", "\\&", "\\}" }));
                break;
            }
            default: name_now = substitution(depth); break;
            }
            after_name = name_now;
        }
    }

    void double_quoted(int depth)
    {
        d.cls("double quotes");
        d.t(H(STRING_DELIM), "\"");
        std::string text;
        bool after_name = false;
        const auto flush = [&] {
            d.t(H(STRING), text);
            text.clear();
        };
        for (std::size_t i = 0, n = s.size(5); i < n; ++i) {
            const std::size_t what = s.weighted({ 6, 2, 3, 4 });
            if (what == 0) {
                std::string x = gen_text(s, "\"\\$`", 8, "\n\t'#");
                if (after_name && !x.empty() && ident_char(x[0])) {
                    x.insert(0, " ");
                }
                text += x;
                after_name = after_name && x.empty();
                continue;
            }
            if (what == 1) {
                text += s.pick({ "\\n", "\\*", "\\'", "\\ ", "$ ", "$.", "\\}", "\\(" });
                after_name = false;
                continue;
            }
            flush();
            after_name = false;
            if (what == 2) {
                d.t(H(STRING_ESCAPE), s.pick({ "\\\"", "\\$", "\\\\", "\\`", "\\\n" }));
            }
            else {
                after_name = substitution(depth);
            }
        }
        if (s.chance(1, 12)) {
            text += "$";
        }
        flush();
        d.t(H(STRING_DELIM), "\"");
    }

    /// Returns whether an identifier character that follows would extend it.
    bool substitution(int depth)
    {
        const std::size_t what = depth >= 3 ? s.below(2) : s.weighted({ 4, 3, 4, 4, 3 });
        switch (what) {
        case 0: d.cls("variable"); d.t(H(STRING_INTERPOLATION), "$" + name()); return true;
        case 1: d.cls("special parameter"); d.t(H(STRING_INTERPOLATION), "$" + std::string(1, "*@#?-$!0123456789"[s.below(17)])); return false;
        case 2: {
            d.cls("parameter substitution");
            d.t(H(STRING_INTERPOLATION_DELIM), "${");
            std::string x = s.pick({ "", "", "", "#", "!" }) + name();
            x += s.pick({ "", "", ":-", ":=", "#", "##", "%", "%%", "/", "//", "[@]", "^^", "," });
            d.t(H(STRING_INTERPOLATION), x);
            if (s.chance(1, 2)) {
                // The word after the operator.
                const bool spaced = s.chance(1, 3);
                if (spaced) {
                    d.r(s.pick({ " ", "  ", "\n", "\t" }));
                    d.cls("blank in parameter substitution");
                }
                param_word(depth + 1, spaced);
            }
            d.t(H(STRING_INTERPOLATION_DELIM), "}");
            return false;
        }
        case 3: {
            d.cls("command substitution");
            d.t(H(STRING_INTERPOLATION_DELIM), "$(");
            commands(depth + 1, true);
            d.t(H(STRING_INTERPOLATION_DELIM), ")");
            return false;
        }
        default: {
            d.cls("arithmetic");
            d.t(H(STRING_INTERPOLATION_DELIM), "$((");
            d.t(H(NAME_SHELL_COMMAND), s.pick({ "1+2", "x", "16#ff", "a*", "x=3", "-1" }));
            if (s.chance(1, 3)) {
                d.t(H(SYMBOL_PARENS), "(").t(H(NAME_SHELL_COMMAND), s.pick({ "a+b", "1-x" })).t(H(SYMBOL_PARENS), ")");
                d.t(H(NAME_SHELL_COMMAND), s.pick({ "*2", "+y", "%7#1" }));
            }
            d.t(H(STRING_INTERPOLATION_DELIM), "))");
            return false;
        }
        }
    }

    /// Pieces that follow a name or operator in "${"; none starts with unquoted text unless separated.
    void param_word(int depth, bool spaced)
    {
        bool plain_ok = spaced;
        bool after_name = false;
        for (std::size_t i = 0, n = 1 + s.size(3); i < n; ++i) {
            if (plain_ok && s.chance(1, 2)) {
                d.t(H(STRING_INTERPOLATION), plain(wk_param, false, after_name));
                plain_ok = false;
                after_name = false;
                continue;
            }
            after_name = false;
            plain_ok = true;
            switch (s.below(3)) {
            case 0: double_quoted(depth); break;
            case 1: d.t(H(STRING_ESCAPE), s.pick({ "\\}", "\\ ", "\\\\", "\\'" })); break;
            default: after_name = substitution(depth); break;
            }
        }
    }

    void comment()
    {
        d.cls("comment");
        d.t(H(COMMENT_DELIM), "#").t(H(COMMENT), gen_text(s, "", 10, "\t'\"\\#$("));
    }

    void command(int depth)
    {
        word(wk_command, depth);
        for (std::size_t i = 0, n = s.size(4); i < n; ++i) {
            if (s.chance(1, 10)) {
                d.cls("continued line");
                d.r(blank()).t(H(STRING_ESCAPE), "\\").r("\n").r(s.chance(1, 2) ? blank() : "");
            }
            else {
                d.r(blank());
            }
            if (s.chance(1, 6)) {
                d.cls("redirection");
                if (s.chance(1, 3)) {
                    d.t(H(STRING), s.pick({ "1", "2" }));
                    d.t(H(SYMBOL_OP), ">&").t(H(STRING), s.pick({ "1", "2" }));
                    continue;
                }
                d.t(H(SYMBOL_OP), s.pick({ ">", ">>", "<", "<<<", "&>", "&>>", "<>", ">&", "<&" }));
                d.r(s.chance(1, 2) ? blank() : "");
            }
            else if (depth < 3 && s.chance(1, 10)) {
                d.cls("process substitution");
                d.t(H(SYMBOL_OP), s.pick({ "<", ">" })).t(H(SYMBOL_PARENS), "(");
                commands(depth + 1, false);
                d.t(H(SYMBOL_PARENS), ")");
                continue;
            }
            word(wk_argument, depth);
        }
    }

    void commands(int depth, bool no_parens_first)
    {
        for (std::size_t i = 0, n = 1 + s.size(depth ? 2 : 6); i < n; ++i) {
            if (i) {
                if (s.chance(1, 2)) {
                    d.r(s.chance(1, 2) ? blank() : "").t(H(SYMBOL_OP), s.pick({ ";", "|", "||", "&&" })).r(s.pick({ "", " ", " ", "\n", "\t", "\n " }));
                }
                else {
                    newline();
                }
            }
            if (s.chance(1, 8) && !(i == 0 && depth)) {
                comment();
                d.r("\n");
            }
            if (depth < 3 && s.chance(1, 10) && !(i == 0 && no_parens_first)) {
                d.cls("subshell");
                d.t(H(SYMBOL_PARENS), "(");
                commands(depth + 1, false);
                d.t(H(SYMBOL_PARENS), ")");
                continue;
            }
            command(depth);
        }
    }

    void newline()
    {
        if (s.chance(1, 6)) {
            d.r(blank());
            comment();
            d.r("\n");
        }
        d.r(s.pick({ "\n", "\n", "\n\n", "\n  ", "\r\n" }));
    }
};

void l15(Src& s, Ctx& c)
{
    Doc d;
    Gen g { s, d };
    d.r(s.pick({ "", "", " ", "\n", "\t" }));
    g.commands(0, false);
    switch (s.below(10)) {
    case 1:
        d.cls("unterminated single quotes at the end");
        d.r(" ").t(H(STRING_DELIM), "'").t(H(STRING), gen_text(s, "'", 8, "\n\"$#"));
        break;
    case 2:
        d.cls("unterminated double quotes at the end");
        d.r(" ").t(H(STRING_DELIM), "\"").t(H(STRING), gen_text(s, "\"\\$`", 8, "\n'#"));
        break;
    case 3:
        d.cls("unterminated parameter substitution at the end");
        d.r(" ").t(H(STRING_INTERPOLATION_DELIM), "${").t(H(STRING_INTERPOLATION), g.name());
        break;
    case 4:
        d.cls("unterminated command substitution at the end");
        d.r(" ").t(H(STRING_INTERPOLATION_DELIM), "$(").t(H(NAME_SHELL_COMMAND), g.name());
        break;
    case 5:
        d.cls("unbalanced closing parenthesis");
        d.r("\n").t(H(SYMBOL_PARENS), ")");
        break;
    default: break;
    }
    check_doc(c, d, ULIGHT_LANG_BASH, s.chance(1, 8) ? ULIGHT_COALESCE : 0);
}

Register rr15({ "L15", l15, 20000, 600000, "documents of at least three tokens, assembled from Bash commands with known tokens", true });

} // namespace
} // namespace vp::lang
