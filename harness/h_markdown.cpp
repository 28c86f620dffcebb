#include "h_lang.hpp"

// L19 Markdown: blocks and inlines after CommonMark 0.31.2, as far as a highlighter that looks at one
// line at a time recognizes them (the documented extent is pinned by the repository's own examples).
namespace vp::lang {
namespace {

struct Gen {
    Src& s;
    Doc& d;
    std::string nl;
    int budget = 60;
    std::size_t stray_ticks = 5; // length of the last run of backticks which opens nothing

    /// Where an inline is.
    struct In {
        unsigned plain = 0; // the type of plain text, if any
        bool link = false; // in link text
        bool line_end = false; // may end with something that affects the rest of the line
        bool emphasis = false;
        unsigned used = 0; // delimiter runs which enclose this
    };

    /// Special characters which begin nothing are not highlighted (in headings).
    void text(const In& in, std::string_view x)
    {
        if (!in.plain) {
            d.r(x);
            return;
        }
        const std::string_view special = "`<\\&![*_";
        for (std::size_t i = 0; i < x.size();) {
            std::size_t k = i + 1;
            if (special.find(x[i]) == special.npos) {
                while (k < x.size() && special.find(x[k]) == special.npos) {
                    ++k;
                }
                d.t(in.plain, x.substr(i, k - i));
            }
            else {
                d.r(x.substr(i, 1));
            }
            i = k;
        }
    }

    /// Text without anything that could begin an inline; begins and ends with a letter or digit.
    std::string word()
    {
        std::string x = s.pick({ "a", "b", "The", "x", "word", "n", "Z" });
        for (std::size_t i = 0, n = s.size(4); i < n; ++i) {
            x += s.pick({ " c", "d", ", e", "0", ". F", "_g", "__h", " - i", "'j", " \"k", "; l", ": m", " #n", " (o) p", "/q", "  r", " = s", " + 1", "~t", "!u", "! v", "@w", "%x", "^y", "|z", "{a} b", "\tc", "\xc3\xa9", " \xe4\xb8\xad", " \xf0\x9f\x98\x80", " > 1", "-->x", "$1" });
        }
        // A letter of Unicode before _ is left open.
        for (std::size_t i = 1; i < x.size(); ++i) {
            if (x[i] == '_' && (x[i - 1] & 0x80)) {
                x.insert(i, "e");
            }
        }
        return x + s.pick({ "", "", "y", "9" });
    }

    std::string url(const In& in)
    {
        std::string x = s.pick({ "/", "http://", "#", "a", "mailto:", "../", "x:" });
        for (std::size_t i = 0, n = s.size(5); i < n; ++i) {
            x += s.pick({ "a", "b.c", "/", "?q=1", "#", "%20", "-", "&d", "+", ":", ";x", "'", "\"", "!", "\xc3\xa9", "=", "@h" });
            if (!in.emphasis && !in.link && s.chance(1, 4)) {
                x += s.pick({ "*", "_", "**", "_e_", "`", "[", "]", "[x]" });
            }
        }
        return x;
    }

    void code_span(const In& in)
    {
        d.cls("code span");
        const std::string ticks(1 + s.below(3), '`');
        std::string x = s.pick({ "a", " ", "*", "x y", "&amp;", "<!--", "**", "_b_" });
        for (std::size_t i = 0, n = s.size(4); i < n; ++i) {
            x += s.pick({ "c", " ", "*", "_", "-->", "<", "&lt;", "!", ")", "(", "#", "\xc3\xa9", "\t", "http://x", "d e" });
            if (s.chance(1, 4) && x.back() != '`') {
                // A run of another length.
                x += std::string(ticks.size() == 1 ? 2 + s.below(2) : 1, '`') + "f";
                d.cls("backticks in a code span");
            }
        }
        if (in.link) {
            for (std::size_t i; (i = x.find("<!--")) != x.npos;) {
                x.erase(i, 1);
            }
        }
        else if (s.chance(1, 3)) {
            x += s.pick({ "\\", "[a](b)", "]", "\\]", "![", "[" });
        }
        d.t(H(STRING_DELIM), ticks).t(H(TEXT_CODE), x).t(H(STRING_DELIM), ticks);
    }

    std::string comment_text()
    {
        std::string x = s.pick({ "", " ", "a", " b ", "*", "`", "_c" });
        for (std::size_t i = 0, n = s.size(4); i < n; ++i) {
            x += s.pick({ "d", " ", "*e*", "`", "_", "[x](y)", "&amp;", "- f", ">", "\\", "]", ")", "\xc3\xa9", "# g", "\t", "http:" });
        }
        if (x.starts_with(">")) {
            x.insert(0, " ");
        }
        return x;
    }

    void comment(const In&)
    {
        d.cls("comment");
        d.t(H(COMMENT_DELIM), "<!--").t(H(COMMENT), comment_text()).t(H(COMMENT_DELIM), "-->");
    }

    void escape(const In&)
    {
        d.cls("escape");
        d.t(H(STRING_ESCAPE), std::string("\\") + "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~"[s.below(32)]);
    }

    void reference(const In&)
    {
        d.cls("character reference");
        std::string x;
        switch (s.below(3)) {
        case 0: x = s.pick({ "amp", "lt", "nbsp", "copy", "frac34", "AElig", "x1" }); break;
        case 1: x = "#" + gen_digits(s, 10, 5); break;
        default: x = s.pick({ "#x", "#X" }) + hex(s, 1 + s.below(5)); break;
        }
        d.t(H(STRING_ESCAPE), "&" + x + ";");
    }

    void destination(const In& in)
    {
        if (!in.emphasis && s.chance(1, 5)) {
            d.cls("destination in angle brackets");
            std::string x = gen_text(s, "<>`*_\\[]\n\r", 6, "");
            d.t(H(TEXT_LINK), "<" + x + ">");
        }
        else if (s.chance(1, 10)) {
            d.cls("no destination");
        }
        else {
            std::string x = url(in);
            if (!in.emphasis && !in.link && s.chance(1, 5)) {
                d.cls("escape in a destination");
                x += s.pick({ "\\)", "\\(x\\)y", "\\\\", "\\*" });
            }
            d.t(H(TEXT_LINK), x);
        }
        if (s.chance(1, 4)) {
            d.cls("title");
            const char q = s.pick({ '"', '\'' });
            d.r(s.pick({ " ", "  ", "\t" }));
            d.r(std::string(1, q) + gen_text(s, in.emphasis || in.link ? "\"'\\`*_<[]" : "\"'\\", 6, "") + s.pick({ "", ")", " (x) ", in.emphasis || in.link ? "" : "\\\"", in.emphasis || in.link ? "" : "\\')" }) + q);
        }
        if (s.chance(1, 8)) {
            d.r(" ");
        }
        d.t(H(SYMBOL_FORMATTING), ")");
    }

    void image(const In& in)
    {
        d.cls("image");
        d.t(H(SYMBOL_FORMATTING), "![");
        std::string x = s.chance(1, 5) ? "" : word();
        if (!in.emphasis && s.chance(1, 4)) {
            x += s.pick({ " *a*", " [b]", " \\]", "[[]]c", " `d`" });
        }
        if (in.link || in.emphasis) {
            std::erase_if(x, [](char k) { return k == '_'; });
        }
        d.r(x).t(H(SYMBOL_FORMATTING), "](");
        destination(in);
    }

    void link(In in)
    {
        d.cls("link");
        d.t(H(SYMBOL_FORMATTING), "[");
        if (!s.chance(1, 8)) {
            In inner = in;
            inner.plain = 0;
            inner.link = true;
            inner.line_end = false;
            inlines(inner, 3);
            if (s.chance(1, 6)) {
                d.cls("brackets in link text");
                d.r(s.pick({ " [x]", " []", "[[a] b]" }));
            }
        }
        d.t(H(SYMBOL_FORMATTING), "](");
        destination(in);
    }

    void emphasis(const In& in)
    {
        const unsigned which = s.below(6);
        if ((in.used >> which) & 1) {
            text(in, word());
            return;
        }
        d.cls(in.emphasis ? "nested emphasis" : "emphasis");
        if (s.chance(1, 4)) {
            d.cls("emphasis after punctuation");
            text(in, s.pick({ "(", "a!", "b,", "\"", "c:(", "d?", "e;" }));
        }
        const std::string run(1 + which / 2, which % 2 ? '_' : '*');
        In inner = in;
        inner.plain = 0;
        inner.line_end = false;
        inner.emphasis = true;
        inner.used |= 1u << which;
        d.t(H(SYMBOL_FORMATTING), run);
        d.r(s.pick({ "a", "b c", "d", "\xc3\xa9" }));
        if (s.chance(1, 2)) {
            d.r(" ");
            inlines(inner, 3);
            d.r(s.pick({ " e", " \xc3\xa9", ", f" }));
        }
        if (s.chance(1, 8)) {
            d.cls("escape at the end of emphasis");
            d.t(H(STRING_ESCAPE), which % 2 ? s.pick({ "\\*", "\\!", "\\\\", "\\`" }) : s.pick({ "\\_", "\\!", "\\\\", "\\`" }));
        }
        else if (!in.link && s.chance(1, 10)) {
            d.cls("backticks in emphasis which open no code span");
            d.r(std::string(++stray_ticks, '`')); // no two runs of the same length
            if (s.chance(1, 2)) {
                d.r("g");
            }
        }
        d.t(H(SYMBOL_FORMATTING), run);
    }

    void inline_(const In& in)
    {
        if (--budget < 0) {
            text(in, word());
            return;
        }
        switch (s.below(13)) {
        case 0:
        case 1: code_span(in); break;
        case 2:
            d.cls("autolink");
            d.t(H(SYMBOL_FORMATTING), "<");
            d.t(H(TEXT_LINK), s.chance(1, 2) ? "http://" + gen_ident(s, {}, false, "", "") + s.pick({ "", "/x?y=z&amp;", "#", "(a)" }) : gen_ident(s, {}, false, "", "") + "@b.c");
            d.t(H(SYMBOL_FORMATTING), ">");
            break;
        case 3: comment(in); break;
        case 4: escape(in); break;
        case 5: reference(in); break;
        case 6: image(in); break;
        case 7:
        case 8:
            if (in.link) {
                text(in, word());
            }
            else {
                link(in);
            }
            break;
        case 9:
        case 10: emphasis(in); break;
        default: text(in, word()); break;
        }
    }

    /// Something special which is only text here. In a heading, it is not highlighted.
    void stray(const In& in)
    {
        d.cls("special characters that are text");
        const std::string x = in.link ? s.pick({ "&", "! ", "<", "* ", "_ ", "&x", "&#;", "&#x;", "<b>", "&;" })
                                      : s.pick({ "&", "!", "<", "* ", "_ ", "[x]", "[x] (y)", "]", ")", "\\", "&amp", "&#x;", "<b>", "<br/>", "[]", "![x]", "&;", "&#12a;" });
        text(in, " " + x + " ");
        if (!in.emphasis && s.chance(1, 4)) {
            d.cls("underscores within a word");
            text(in, std::string(s.pick({ "a_b_c", "x__y__", "1_2", "q_\xc3\xa9", "e_" })) + " ");
        }
    }

    void inlines(const In& in, std::size_t max)
    {
        const std::size_t n = 1 + s.size(max);
        for (std::size_t i = 0; i < n; ++i) {
            if (i > 0) {
                if (s.chance(1, 6)) {
                    stray(in);
                }
                else {
                    text(in, s.pick({ " ", " ", ", ", " - ", "\t", " (", ") ", " \"", "; " }));
                }
            }
            inline_(in);
        }
        if (in.line_end && s.chance(1, 12)) {
            switch (s.below(3)) {
            case 0: {
                d.cls("comment over several lines");
                text(in, " ");
                d.t(H(COMMENT_DELIM), "<!--").t(H(COMMENT), comment_text() + (in.plain ? "c" : ""));
                for (std::size_t k = 0, m = s.size(3); k < m; ++k) {
                    d.r(nl);
                    std::string x = comment_text();
                    d.t(H(COMMENT), s.pick({ "", "", "    ", "> ", "# ", "```" }) + x + s.pick({ "", "-", "--", "<!--" }));
                }
                d.r(nl);
                d.t(H(COMMENT), comment_text()).t(H(COMMENT_DELIM), "-->");
                if (s.chance(1, 2)) {
                    d.r(" ");
                    In tail = in;
                    tail.plain = 0;
                    inlines(tail, 3);
                }
                break;
            }
            case 1:
                d.cls("backticks which open no code span");
                text(in, " ");
                // (Each of them is reported as text; runs of length 5 occur nowhere else.)
                d.r("`````");
                if (s.chance(1, 2)) {
                    text(in, "a");
                }
                break;
            default:
                d.cls("delimiters which open no emphasis");
                text(in, " ");
                d.r(s.pick({ "*", "__", "****", "_" }));
                text(in, s.pick({ "b", "c d" }));
                break;
            }
        }
    }

    // ---- blocks

    void heading()
    {
        d.cls("heading");
        d.t(H(SYMBOL_FORMATTING), std::string(1 + s.below(6), '#'));
        if (s.chance(1, 10)) {
            return;
        }
        d.r(s.pick({ " ", "\t" }));
        In in;
        in.plain = H(TEXT_HEADING);
        in.line_end = s.chance(1, 2);
        const std::size_t before = d.s.size();
        inlines(in, 4);
        // (After a comment over several lines, it is not a heading anymore.)
        if (d.s.find(nl, before) != d.s.npos) {
            return;
        }
        if (!in.line_end && s.chance(1, 3)) {
            d.cls("closing sequence of a heading");
            if (d.s.back() == '`' || d.s.back() == '\\') {
                text(in, " z");
            }
            d.r(" " + std::string(s.below(2), ' ') + std::string(1 + s.below(7), '#') + std::string(s.below(3), ' '));
        }
        else if (s.chance(1, 6)) {
            d.r("  ");
        }
    }

    void thematic_break()
    {
        d.cls("thematic break");
        const char k = s.pick({ '*', '-', '_', '=' });
        std::string x(1, k);
        for (std::size_t i = 0, n = 2 + s.size(4); i < n; ++i) {
            x += s.pick({ "", "", " ", "\t", "  " });
            x += k;
        }
        d.t(H(SYMBOL_FORMATTING), x + s.pick({ "", " ", "\t" }));
    }

    bool glued = false; // directly after the > of a block quote
    std::string indent(std::size_t n = 4)
    {
        if (glued) {
            return "";
        }
        return std::string(s.chance(2, 3) ? 0 : s.below(n), ' ');
    }

    void line_block(int depth)
    {
        const bool was_glued = glued;
        const auto begin = [&](const std::string& x) {
            d.r(x);
            glued = false;
        };
        switch (s.below(9)) {
        case 0:
            begin(indent());
            heading();
            break;
        case 1:
            begin(indent());
            thematic_break();
            break;
        case 2: {
            d.cls("list item");
            begin(indent(depth ? 4 : 9));
            std::string marker = s.pick({ "-", "+", "*" });
            if (s.chance(1, 3)) {
                marker = gen_digits(s, 10, 9) + s.pick({ ".", ")" });
            }
            d.t(H(SYMBOL_FORMATTING), marker).r(s.pick({ " ", "\t" })).r(s.pick({ "", "", " ", "   " }));
            In in;
            in.line_end = true;
            // (A line of markers is a thematic break.)
            d.r(s.pick({ "", "a ", "[ ] ", "[x] " }));
            inlines(in, 4);
            break;
        }
        case 3:
            if (depth < 6) {
                d.cls(depth ? "nested block quote" : "block quote");
                begin(indent());
                d.t(H(SYMBOL_FORMATTING), ">");
                switch (s.below(6)) {
                case 0: return;
                case 1:
                    d.r(s.pick({ " ", "\t" }));
                    return;
                default:
                    glued = s.chance(1, 4);
                    d.r(glued ? "" : s.pick({ " ", " ", "\t" }));
                    line_block(depth + 1);
                    return;
                }
            }
            [[fallthrough]];
        case 4: {
            d.cls("indented code");
            std::string x = gen_text(s, "", 10, "\t");
            if (x.find_first_not_of(" \t") == x.npos) {
                x += "x";
            }
            const std::size_t i = x.find_first_not_of(' ');
            if (std::string("-+*0123456789").find(x[i]) != std::string::npos) {
                x.insert(i, "x");
            }
            // The highlighter recognizes quotes and the like only up to three spaces before them.
            begin(was_glued ? " " : "");
            d.r(s.pick({ "    ", "    ", "\t" })).t(H(TEXT_CODE), x);
            break;
        }
        default: {
            d.cls("paragraph");
            begin(indent());
            In in;
            in.line_end = true;
            const std::size_t before = d.s.size();
            if (s.chance(2, 3)) {
                d.r(word() + " ");
            }
            inlines(in, 5);
            (void)before;
            break;
        }
        }
    }

    void fenced()
    {
        const bool ticks = s.chance(1, 2);
        d.cls(ticks ? "code fenced by backticks" : "code fenced by tildes");
        const std::string fence(3 + s.below(3), ticks ? '`' : '~');
        d.r(indent()).t(H(STRING_DELIM), fence);
        std::string info = gen_text(s, ticks ? "`" : "", 6, "\t");
        if (!ticks && info.starts_with("~")) {
            info.insert(0, "x");
        }
        if (s.chance(1, 2)) {
            d.r(info);
        }
        d.r(nl);
        for (std::size_t i = 0, n = s.size(5); i < n; ++i) {
            std::string x = gen_text(s, "", 8, "\t");
            switch (s.below(6)) {
            case 0: x = fence.substr(1); break;
            case 1: x = fence + "x"; break;
            case 2: x = "    " + fence; break;
            case 3: x = std::string(fence.size(), ticks ? '~' : '`'); break;
            case 4: x = s.pick({ "# x", "<!--", "> q", "- l", "\t", "   " }); break;
            default: break;
            }
            // Not the closing fence.
            const std::size_t k = x.find_first_not_of(' ');
            if (k != x.npos && k < 4 && x.compare(k, fence.size(), fence) == 0) {
                const std::size_t e = x.find_first_not_of(fence[0], k);
                if (e == x.npos || x.find_first_not_of(" \t", e) == x.npos) {
                    x += ".";
                }
            }
            d.t(H(TEXT_CODE), x).r(nl);
        }
        if (s.chance(1, 8)) {
            d.cls("fence without end");
            d.t(H(TEXT_CODE), "last");
            open = true;
            return;
        }
        d.r(indent()).t(H(STRING_DELIM), fence + std::string(s.size(2), fence[0])).r(s.pick({ "", " ", "\t " }));
    }
    bool open = false;

    void document()
    {
        const std::size_t n = 1 + s.size(8);
        for (std::size_t i = 0; i < n && !open; ++i) {
            if (i > 0) {
                d.r(nl);
            }
            if (s.chance(1, 6)) {
                fenced();
            }
            else if (s.chance(1, 8)) {
                d.r(s.pick({ "", " ", "\t", "     " }));
            }
            else {
                line_block(0);
            }
        }
        if (s.chance(1, 2) && !open) {
            d.r(nl);
        }
    }
};

void l19(Src& s, Ctx& c)
{
    if (s.chance(1, 512)) {
        // Known finding: a code span begins within a backtick string (a test of the repository fixes that).
        const std::string x = "```foo``\n";
        c.describe(quote(x));
        if (!tokens(x, ULIGHT_LANG_MARKDOWN).tokens.empty()) {
            c.known("L19-backtick-strings");
        }
        return;
    }
    Doc d;
    Gen g { s, d, s.pick({ "\n", "\n", "\r\n", "\r" }) };
    g.document();
    check_doc(c, d, ULIGHT_LANG_MARKDOWN, 0, true);
}

Register r19({ "L19", l19, 35000, 1000000, "documents of at least three tokens, assembled from Markdown blocks and inlines with known tokens", true });

} // namespace
} // namespace vp::lang
