#include "h_lang.hpp"

// L18 YAML: streams after YAML 1.2.2 (documents, directives, block mappings and sequences, flow
// collections, the scalar styles, node properties, aliases, comments).
namespace vp::lang {
namespace {

struct Gen {
    Src& s;
    Doc& d;
    std::string nl;
    int budget = 40;
    bool unindented = false;

    static bool keyword(std::string_view x)
    {
        for (const char* k : { "null", "Null", "NULL", "~", "true", "True", "TRUE", "false", "False", "FALSE", "yes", "Yes", "YES", "no", "No", "NO", "on", "On", "ON", "off", "Off", "OFF" }) {
            if (x == k) {
                return true;
            }
        }
        return false;
    }

    /// A plain scalar that is a string.
    std::string plain(bool flow, bool key)
    {
        std::string x;
        if (s.chance(1, 3)) {
            d.cls("string that resembles another scalar");
            x = s.pick({ "no problem", "no-op", "on-call", "nullable", "null-ish", "true story", "truest", "yesterday", "nO", "YeS", "~/bin", "~user", "123 Main St", "1.2.3", "42nd", "1.5rem", "1e5x", "12:30 pm", "0xFFg", ".infinity", "-x", "-1 or so", "+x", "offset", "Only", "Not", "off/on", "OFFICE", "nana", "0o8 x", "1 2", "-.inf!" });
        }
        else {
            x = s.pick({ "a", "b", "k", "x", "key", "the", "\xc3\xa9", "\xe4\xb8\xad", "\xf0\x9f\x98\x80", "A", "_", "/", "$", ".", "=", "(", "n", "o", "t" });
            for (std::size_t i = 0, n = s.size(5); i < n; ++i) {
                x += s.pick({ "a", "B", " c", "0", ":y", "#z", "'", "\"", " 'q", "it's", " - d", "/", "-", " ? e", "&f", "*", "!", "|", ">", "%", "@", "`", " \xc3\xa9", "\\", "\t.", " no", "http://x", " =", "<<" });
                if (!flow && s.chance(1, 3)) {
                    x += s.pick({ ",", ", g", "[", "]", "{", "}", "[0]", "{}", " {h", " [1, 2]" });
                }
            }
        }
        if (keyword(x) || x == "." || x == "-" || x.starts_with(".inf") || x.starts_with(".nan") || (x[0] == '.' && x.find_first_not_of("0123456789", 1) == x.npos)) {
            x += "_";
        }
        return x;
    }

    std::string number()
    {
        d.cls("number");
        switch (s.below(7)) {
        case 0: return "0x" + hex(s, 1 + s.below(6));
        case 1: return "0o" + gen_digits(s, 8, 5);
        case 2: return "0b" + gen_digits(s, 2, 6);
        case 3: return s.pick({ ".inf", "-.inf", "+.inf", ".Inf", ".INF", ".nan", ".NaN", ".NAN", "-.INF" });
        case 4: return gen_digits(s, 10, 2) + ":" + gen_digits(s, 10, 2) + (s.chance(1, 2) ? ":" + gen_digits(s, 10, 2) : "");
        default: {
            std::string x = s.pick({ "", "", "-", "+" }) + gen_digits(s, 10, 5);
            if (s.chance(1, 3)) {
                x += "." + gen_digits(s, 10, 4);
            }
            if (s.chance(1, 4)) {
                x += s.pick({ "e", "E", "e+", "e-", "E-" }) + gen_digits(s, 10, 2);
            }
            return x;
        }
        }
    }
    std::string constant() { return s.pick({ "null", "Null", "NULL", "~", "true", "True", "TRUE", "false", "False", "FALSE", "yes", "Yes", "YES", "no", "No", "NO", "on", "On", "ON", "off", "Off", "OFF" }); }
    static unsigned constant_type(const std::string& x) { return x == "~" || std::tolower(x[1]) == 'u' ? H(NULL) : H(BOOL); }

    std::string escape()
    {
        switch (s.below(5)) {
        case 0: return "\\x" + hex(s, 2);
        case 1: return "\\u" + hex(s, 4);
        case 2: return "\\U" + hex(s, 8);
        default: return s.pick({ "\\0", "\\a", "\\b", "\\e", "\\f", "\\n", "\\r", "\\t", "\\v", "\\\"", "\\/", "\\\\", "\\_", "\\N", "\\L", "\\P", "\\ " });
        }
    }

    /// A line break within a quoted scalar, with the indentation of the next line.
    void fold(int indent) { d.r(nl).r(std::string(std::size_t(indent) + 1, ' ')); }

    void quoted(int indent, bool multi)
    {
        if (s.chance(1, 2)) {
            d.cls("single-quoted scalar");
            d.t(H(STRING_DELIM), "'");
            for (std::size_t i = 0, n = s.size(3); i < n; ++i) {
                const bool folded = multi && i && s.chance(1, 5);
                if (folded) {
                    d.cls("folded quoted scalar");
                    fold(indent);
                }
                std::string x = gen_text(s, "' ", 8) + s.pick({ "", "", "''", ": ", folded ? "#" : " #", "\\", "\"", ", ", "[" }) + "x";
                d.t(H(STRING), x);
            }
            d.t(H(STRING_DELIM), "'");
            return;
        }
        d.cls("double-quoted scalar");
        d.t(H(STRING_DELIM), "\"");
        for (std::size_t i = 0, n = s.size(4); i < n; ++i) {
            switch (s.below(5)) {
            case 0:
            case 1:
                d.cls("escape");
                d.t(H(STRING_ESCAPE), escape());
                break;
            case 2:
                if (multi && i) {
                    d.cls("folded quoted scalar");
                    if (s.chance(1, 2)) {
                        fold(indent);
                    }
                    else {
                        d.t(H(STRING_ESCAPE), "\\" + nl);
                    }
                    d.t(H(STRING), "y");
                    break;
                }
                if (s.chance(1, 4)) {
                    d.cls("erroneous escape");
                    d.t(H(ERROR), "\\").t(H(STRING), s.pick({ "q", "z", "'", "1" }));
                    break;
                }
                [[fallthrough]];
            default: d.t(H(STRING), gen_text(s, "\"\\ ", 8) + s.pick({ "", "", ": ", " #", "'", ", ", "}" }) + "x"); break;
            }
        }
        d.t(H(STRING_DELIM), "\"");
    }

    void properties()
    {
        for (std::size_t i = 0, n = s.below(5) == 0 ? 1 + s.below(2) : 0; i < n; ++i) {
            d.cls("node property");
            if (s.chance(1, 2)) {
                d.t(H(NAME_ATTR_DELIM), "&").t(H(NAME), name());
            }
            else {
                switch (s.below(5)) {
                case 0: d.t(H(NAME_ATTR_DELIM), "!!").t(H(NAME_ATTR), s.pick({ "str", "int", "map", "x:y" })); break;
                case 1: d.t(H(NAME_ATTR_DELIM), "!<").t(H(NAME_ATTR), s.pick({ "tag:yaml.org,2002:str", "!local", "x#y", "[a]" })).t(H(NAME_ATTR_DELIM), ">"); break;
                case 2: d.t(H(NAME_ATTR_DELIM), "!").t(H(NAME_ATTR), s.pick({ "e", "my-1" })).t(H(NAME_ATTR_DELIM), "!").t(H(NAME_ATTR), s.pick({ "foo", "a.b", "tag%20" })); break;
                case 3: d.t(H(NAME_ATTR_DELIM), "!"); break;
                default: d.t(H(NAME_ATTR_DELIM), "!").t(H(NAME_ATTR), s.pick({ "local", "my.tag", "a/b", "x-1" })); break;
                }
            }
            d.r(s.pick({ " ", " ", "  ", "\t" }));
        }
    }
    std::string name() { return s.pick({ "a", "x1", "anchor-1", "b.c", "\xc3\xa9", "_", "A:b", "1" }); }

    enum End { open, closed, lines };
    /// A scalar, alias or flow collection on the current line.
    void inline_node(int indent, bool flow, int depth)
    {
        properties();
        if (s.chance(1, 10)) {
            d.cls("alias");
            d.t(H(NAME_ATTR_DELIM), "*").t(H(NAME), s.pick({ "a", "x1", "b.c", "_" }));
            return;
        }
        switch (s.below(7)) {
        case 0: d.t(H(NUMBER), number()); break;
        case 1: {
            d.cls("null or Boolean");
            const std::string x = constant();
            d.t(constant_type(x), x);
            break;
        }
        case 2: quoted(indent, true); break;
        case 3:
        case 4:
            if (depth > 0) {
                if (s.chance(1, 2)) {
                    flow_sequence(indent, depth - 1);
                }
                else {
                    flow_mapping(indent, depth - 1);
                }
                break;
            }
            [[fallthrough]];
        default:
            d.cls("plain scalar");
            plain_token(H(STRING), flow);
            break;
        }
    }

    /// Space within a flow collection where no plain scalar precedes.
    void flow_space(int indent)
    {
        switch (s.below(8)) {
        case 0: d.r(nl).r(std::string(std::size_t(indent) + 1, ' ')); break;
        case 1:
            d.r(" ");
            comment();
            d.r(nl).r(std::string(std::size_t(indent) + 1, ' '));
            break;
        case 2:
        case 3: d.r(" "); break;
        default: break;
        }
    }
    std::size_t plain_end = 0;
    void plain_token(unsigned type, bool flow)
    {
        d.t(type, plain(flow, false));
        plain_end = d.s.size();
    }
    /// `true` if the document so far ends in a plain scalar, which space would not end.
    bool after_plain() const { return plain_end == d.s.size(); }

    void after_item(int indent)
    {
        if (after_plain()) {
            if (s.chance(1, 6)) {
                d.r(nl).r(std::string(std::size_t(indent) + 1, ' '));
            }
            return;
        }
        // A comment has to be separated, and so has what follows a name.
        flow_space(indent);
    }

    void flow_sequence(int indent, int depth)
    {
        d.cls("flow sequence");
        d.t(H(SYMBOL_SQUARE), "[");
        flow_space(indent);
        for (std::size_t i = 0, n = s.size(3); i < n; ++i) {
            inline_node(indent, true, depth);
            if (s.chance(1, 8) && after_plain()) {
                d.cls("single pair");
                d.t(H(SYMBOL_PUNC), ":").r(" ");
                inline_node(indent, true, 0);
            }
            after_item(indent);
            if (i + 1 < n || s.chance(1, 4)) {
                d.t(H(SYMBOL_PUNC), ",");
                d.r(s.pick({ " ", " ", "" }));
                flow_space(indent);
            }
        }
        d.t(H(SYMBOL_SQUARE), "]");
    }
    void flow_mapping(int indent, int depth)
    {
        d.cls("flow mapping");
        d.t(H(SYMBOL_BRACE), "{");
        flow_space(indent);
        for (std::size_t i = 0, n = s.size(3); i < n; ++i) {
            bool json = false;
            switch (s.below(5)) {
            case 0: d.t(H(NUMBER), number()); break;
            case 1: {
                const std::string x = constant();
                d.t(constant_type(x), x);
                break;
            }
            case 2:
            case 3:
                json = true;
                quoted_key();
                break;
            default: plain_token(H(MARKUP_ATTR), true); break;
            }
            if (s.chance(4, 5)) {
                if (json) {
                    d.r(s.pick({ "", "", " " }));
                }
                d.t(H(SYMBOL_PUNC), ":");
                if (json && s.chance(1, 3)) {
                    d.t(H(NUMBER), gen_digits(s, 10, 3));
                }
                else {
                    d.r(" ");
                    if (s.chance(5, 6)) {
                        inline_node(indent, true, depth);
                    }
                }
            }
            if (d.last() != ' ') {
                after_item(indent);
            }
            if (i + 1 < n || s.chance(1, 4)) {
                d.t(H(SYMBOL_PUNC), ",");
                d.r(s.pick({ " ", " ", "" }));
                flow_space(indent);
            }
        }
        d.t(H(SYMBOL_BRACE), "}");
    }

    void quoted_key()
    {
        d.cls("quoted key");
        std::string x;
        if (s.chance(1, 2)) {
            x = "\"" + gen_text(s, "\"\\", 6) + (s.chance(1, 3) ? escape() : "") + s.pick({ "", ": ", " #", "'", "{" }) + "\"";
        }
        else {
            x = "'" + gen_text(s, "'", 6) + s.pick({ "", ": ", " #", "''", "''x", "''''", "\"", "]", "\\" }) + "'";
        }
        d.t(H(MARKUP_ATTR), x);
    }

    void comment()
    {
        d.cls("comment");
        d.t(H(COMMENT_DELIM), "#").t(H(COMMENT), gen_text(s, "", 10, "\t#:'\""));
    }
    /// The end of a line, possibly after a comment.
    void eol()
    {
        if (s.chance(1, 4)) {
            d.r(s.pick({ " ", "  ", "\t" }));
            comment();
        }
        d.r(nl);
    }
    void between(int indent)
    {
        while (s.chance(1, 6)) {
            if (s.chance(1, 2)) {
                d.r(std::string(s.below(std::size_t(indent) + 1), ' '));
                comment();
            }
            else if (s.chance(1, 3)) {
                d.cls("line of spaces");
                d.r(std::string(1 + s.below(std::size_t(indent) + 1), ' '));
            }
            d.r(nl);
        }
    }
    void indentation(int n) { d.r(std::string(std::size_t(n), ' ')); }

    /// A block scalar, whose content is indented by more than `indent`.
    void block_scalar(int indent)
    {
        d.cls("block scalar");
        d.t(H(STRING_DELIM), s.pick({ "|", ">" }));
        const bool chomp = s.chance(1, 3), first = s.chance(1, 2), indicator = s.chance(1, 4);
        const int extra = (indent < 0 && !indicator && s.chance(1, 2) ? 1 : 0) + 1 + int(s.below(3));
        if (chomp && first) {
            d.t(H(NUMBER_DECOR), s.pick({ "+", "-" }));
        }
        if (indicator) {
            d.t(H(NUMBER_DECOR), std::string(1, char('0' + extra)));
        }
        if (chomp && !first) {
            d.t(H(NUMBER_DECOR), s.pick({ "+", "-" }));
        }
        eol();
        const int column = indicator ? std::max(indent, 0) + extra : indent + extra;
        int stripped = column;
        unindented = column == 0;
        for (std::size_t i = 0, n = 1 + s.size(3); i < n; ++i) {
            if (s.chance(1, 5)) {
                d.cls("empty line in block scalar");
                d.r(std::string(s.below(std::size_t(column) + 1), ' ')).r(nl);
            }
            std::string x = gen_text(s, "", 8, "\t#:");
            while (x.starts_with(' ')) {
                x.erase(0, 1);
            }
            if (x.empty() || x[0] == '\t') {
                x.insert(0, "z");
            }
            if (s.chance(1, 3)) {
                x.insert(0, s.pick({ "# ", "- ", "key: ", column == 0 ? "-- " : "--- ", "\"", "{", "%" }));
            }
            int spaces = 0;
            if ((i || indicator) && s.chance(1, 3)) {
                d.cls(indicator ? "indented line in block scalar with indentation indicator" : "indented line in block scalar");
                spaces = 1 + int(s.below(3));
                if (i == 0) {
                    // The indentation of the first line is not highlighted.
                    stripped += spaces;
                }
            }
            const int indented = column + spaces;
            indentation(std::min(indented, stripped));
            d.t(H(STRING), std::string(std::size_t(std::max(indented - stripped, 0)), ' ') + x).r(nl);
        }
    }

    void key()
    {
        if (s.chance(1, 5)) {
            quoted_key();
            if (s.chance(1, 3)) {
                d.r(" ");
            }
        }
        else if (s.chance(1, 6)) {
            d.t(H(MARKUP_ATTR), s.chance(1, 2) ? number() : constant());
        }
        else {
            std::string k = plain(false, true);
            if (k.starts_with("- ") || k[0] == '?') {
                k.insert(0, "_");
            }
            d.t(H(MARKUP_ATTR), k);
        }
        d.t(H(SYMBOL_PUNC), ":");
    }

    /// `column` is where the key is; the rest of the line and the lines of the value follow.
    void entry(int column, int depth)
    {
        d.cls("block mapping entry");
        key();
        switch (s.below(8)) {
        case 0: // empty
            eol();
            break;
        case 1:
            if (s.chance(1, 4)) {
                // The content is indented relative to the collection, not to this line.
                d.cls("block scalar on the lines after its key or indicator");
                eol();
                indentation(column + 1 + int(s.below(3)));
            }
            else {
                d.r(" ");
            }
            properties();
            block_scalar(column);
            break;
        case 2:
        case 3:
            if (depth > 0 && budget > 0) {
                if (s.chance(1, 4)) {
                    d.r(" ");
                    d.t(H(NAME_ATTR_DELIM), "&").t(H(NAME), "a");
                }
                eol();
                collection(column, depth - 1, true);
                break;
            }
            [[fallthrough]];
        default:
            d.r(s.pick({ " ", " ", "  ", " \t" }));
            inline_node(column, false, 2);
            eol();
            break;
        }
    }
    void any_entry(int column, int depth)
    {
        if (!s.chance(1, 6)) {
            entry(column, depth);
            return;
        }
        d.cls("explicit key");
        item(column, depth, "?");
        if (s.chance(4, 5)) {
            d.cls("explicit value");
            between(column);
            indentation(column);
            item(column, depth, ":");
        }
    }
    void mapping(int column, int depth)
    {
        for (std::size_t i = 0, n = 1 + s.size(2); i < n; ++i) {
            --budget;
            between(column);
            indentation(column);
            any_entry(column, depth);
        }
    }
    /// A block collection within a node of the given indentation.
    void collection(int parent, int depth, bool in_mapping)
    {
        if (s.chance(1, 2)) {
            mapping(parent + 1 + int(s.below(3)), depth);
        }
        else {
            sequence(in_mapping && s.chance(1, 2) ? parent : parent + 1 + int(s.below(3)), depth);
        }
    }
    void sequence(int column, int depth)
    {
        for (std::size_t i = 0, n = 1 + s.size(2); i < n; ++i) {
            --budget;
            between(column);
            indentation(column);
            item(column, depth);
        }
    }
    /// What follows the indicator of a block sequence item, or of an explicit key or value.
    void item(int column, int depth, const char* indicator = "-")
    {
        d.cls("block sequence item");
        d.t(H(SYMBOL_PUNC), indicator);
        switch (s.below(7)) {
        case 0:
            if (s.chance(1, 4)) {
                // The content is indented relative to the collection, not to this line.
                d.cls("block scalar on the lines after its key or indicator");
                eol();
                indentation(column + 1 + int(s.below(3)));
            }
            else {
                d.r(" ");
            }
            properties();
            block_scalar(column);
            break;
        case 1:
            if (depth > 0 && budget > 0) {
                d.cls("item on the next line");
                eol();
                collection(column, depth - 1, false);
                break;
            }
            [[fallthrough]];
        case 2:
            if (depth > 0 && budget > 0) {
                d.cls("compact sequence");
                d.r(" ");
                item(column + 2, depth - 1);
                if (s.chance(1, 2)) {
                    sequence(column + 2, depth - 1);
                }
                break;
            }
            [[fallthrough]];
        case 3:
        case 4:
            if (depth > 0 && budget > 0) {
                d.cls("compact mapping");
                d.r(" ");
                any_entry(column + 2, depth - 1);
                if (s.chance(1, 2)) {
                    mapping(column + 2, depth - 1);
                }
                break;
            }
            [[fallthrough]];
        default:
            d.r(s.pick({ " ", " ", "  " }));
            inline_node(column, false, 2);
            eol();
            break;
        }
    }

    void body()
    {
        switch (s.below(6)) {
        case 0: sequence(0, 3); break;
        case 1:
            inline_node(0, false, 2);
            eol();
            break;
        default: mapping(0, 3); break;
        }
    }
};

void l18(Src& s, Ctx& c)
{
    Doc d;
    Gen g { s, d, s.pick({ "\n", "\n", "\n", "\r\n", "\r" }) };
    for (std::size_t i = 0, n = 1 + s.size(2); i < n; ++i) {
        while (s.chance(1, 8)) {
            g.comment();
            d.r(g.nl);
        }
        bool start = i != 0;
        if (i == 0 || (d.w.back().length == 3 && d.s.ends_with("..." + g.nl))) {
            start = false;
            if (s.chance(1, 5)) {
                d.cls("directive");
                d.t(H(NAME_MACRO_DELIM), "%").t(H(NAME_MACRO), s.pick({ "YAML", "TAG", "FOO" })).r(" ").t(H(STRING), s.pick({ "1.2", "!e!", "x" }));
                if (s.chance(1, 2)) {
                    d.r(" ").t(H(STRING), s.pick({ "tag:example.com,2000:", "y" }));
                }
                g.eol();
                start = true;
            }
        }
        if (start || s.chance(1, 3)) {
            d.cls("document start");
            d.t(H(SYMBOL_PUNC), "---");
            if (s.chance(1, 4)) {
                d.cls("content after document start");
                d.r(" ");
                if (s.chance(1, 3)) {
                    g.block_scalar(-1);
                }
                else {
                    g.inline_node(0, false, 2);
                    g.eol();
                }
                // Otherwise, comments would be content of an unindented block scalar.
                if (g.unindented || (i + 1 < n && s.chance(1, 3))) {
                    g.unindented = false;
                    d.t(H(SYMBOL_PUNC), "...").r(g.nl);
                }
                continue;
            }
            g.eol();
        }
        g.body();
        if (s.chance(1, 4)) {
            d.cls("document end");
            d.t(H(SYMBOL_PUNC), "...").r(g.nl);
        }
    }
    check_doc(c, d, ULIGHT_LANG_YAML, 0, true);
}

Register r18({ "L18", l18, 35000, 1000000, "documents of at least three tokens, assembled from YAML nodes with known tokens", true });

} // namespace
} // namespace vp::lang
