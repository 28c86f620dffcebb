#include "h_lang.hpp"

// L13 HTML: documents in the HTML syntax; L14 XML: well-formed documents of XML 1.0.
namespace vp::lang {
namespace {

std::string ws1(Src& s, bool feed)
{
    return s.chance(1, 12) && feed ? "\f" : std::string(s.pick({ " ", " ", "\n", "  ", "\t", "\n  ", "\r\n" }));
}

/// Text without any markup, references or quotes; may look like code.
std::string plain(Src& s, std::string_view forbid, std::size_t max = 10)
{
    std::string x = gen_text(s, forbid, max, "\n\t");
    if (s.chance(1, 4)) {
        x += s.pick({ "-->", "]]>", "/>", "--", "=", "?>", "%a;", "#x1;", "!--" });
        for (const char c : forbid) {
            std::erase(x, c);
        }
    }
    return x;
}

void erase_all(std::string& x, std::string_view what)
{
    for (std::size_t i; (i = x.find(what)) != x.npos;) {
        x.erase(i, 1);
    }
}

/// The tokens of text highlighted on its own.
void nested(Doc& d, ulight_lang lang, const std::string& x)
{
    for (Tok k : ok_tokens(x, lang)) {
        k.begin += d.s.size();
        d.w.push_back(k);
    }
    d.r(x);
}

// ===============================================================================================

struct Html {
    Src& s;
    Doc& d;

    std::string sp() { return s.chance(2, 3) ? "" : ws1(s, true); }

    void reference()
    {
        d.cls("character reference");
        std::string x = "&";
        switch (s.below(3)) {
        case 0: x += s.pick({ "amp", "lt", "frac12", "nbsp", "x", "CounterClockwiseContourIntegral", "sup2" }); break;
        case 1: x += "#" + gen_digits(s, 10, 6); break;
        default:
            x += s.pick({ "#x", "#X" });
            x += hex(s, 1 + s.below(6));
            break;
        }
        d.t(H(STRING_ESCAPE), x + ";");
    }
    /// Character data with references; ambiguous ampersands are those without a reference.
    void pieces(unsigned type, std::string_view forbid, std::size_t max = 3)
    {
        for (std::size_t i = 0, n = s.size(max); i < n; ++i) {
            if (s.chance(1, 3)) {
                reference();
                continue;
            }
            std::string x = s.chance(1, 6) ? s.pick({ "& ", "&&", "&;", "&#;", "&#x;", "&#12a;", "&a-b;", "&-", "&#xg;", "&x\xc3\xa9;" }) : plain(s, forbid);
            for (const char f : forbid) {
                if (f != '&') {
                    std::erase(x, f);
                }
            }
            if (!type) {
                d.r(x);
            }
            else {
                d.t(type, x);
            }
            // An ampersand must not join the next piece.
            if (x.find('&') != x.npos && x.find(';') == x.npos) {
                const char* end = forbid.find(' ') == forbid.npos ? " ." : "-.";
                if (!type) {
                    d.r(end);
                }
                else {
                    d.t(type, end);
                }
            }
        }
    }

    std::string tag_name()
    {
        for (;;) {
            std::string x = s.chance(1, 3) ? std::string(s.pick({ "b", "div", "h1", "BR", "x-a", "my-el.x_y", "a", "styles", "scripting", "titles", "textareas", "sCRIPT-" })) : std::string(1, s.pick({ 'a', 'q', 'Z' })) + gen_ident(s, {}, false, "_", "_");
            if (s.chance(1, 8)) {
                x += s.pick({ "-\xc3\xa9", "-\xe4\xb8\xad", "-\xf0\x9f\x98\x80", "-\xc2\xb7" });
            }
            std::string l = x;
            for (char& ch : l) {
                ch = char(std::tolower(static_cast<unsigned char>(ch)));
            }
            if (l != "script" && l != "style" && l != "title" && l != "textarea") {
                return x;
            }
        }
    }

    /// Attributes and the end of the tag. Returns whether it was self-closing.
    void attributes(bool may_close = true)
    {
        bool unquoted = false;
        for (std::size_t i = 0, n = s.size(3); i < n; ++i) {
            d.cls("attribute");
            d.r(ws1(s, true));
            std::string name;
            if (s.chance(1, 3)) {
                name = s.pick({ "hidden", "href", "@click", ":x", "[a]", "(b)", "#c", "data-x", "<!\\&^()[]{}abc", "a.b", "{", "x;y", "`", "\xc3\xa9" });
            }
            else {
                name = gen_ident(s, {}, true, "_", "_");
            }
            d.t(H(MARKUP_ATTR), name);
            unquoted = false;
            if (s.chance(1, 4)) {
                continue;
            }
            d.r(sp()).t(H(SYMBOL_PUNC), "=").r(sp());
            if (s.chance(1, 3)) {
                d.cls("unquoted attribute value");
                d.t(H(STRING), s.pick({ "a", "x1", "/", "#", "/a/b/", "--", "a;b", "{}", "\xc3\xa9", "?x" }));
                pieces(H(STRING), " \t\n\"'=<>`&", 2);
                unquoted = true;
            }
            else {
                d.cls("quoted attribute value");
                const std::string q(1, s.chance(1, 2) ? '"' : '\'');
                d.t(H(STRING), q);
                if (s.chance(1, 6)) {
                    d.t(H(STRING), s.pick({ "<b>", ">", "/>", "</a>", "<!--", "=" }));
                }
                pieces(H(STRING), q + "&");
                d.t(H(STRING), q);
            }
        }
        if (unquoted) {
            d.r(ws1(s, true));
        }
        else {
            d.r(sp());
        }
        d.t(H(SYMBOL_PUNC), may_close && s.chance(1, 4) ? "/>" : ">");
    }

    std::string any_case(std::string x)
    {
        for (char& ch : x) {
            if (s.chance(1, 4)) {
                ch = char(std::toupper(static_cast<unsigned char>(ch)));
            }
        }
        return x;
    }

    void end_tag(const std::string& name)
    {
        d.t(H(SYMBOL_PUNC), "</").t(H(MARKUP_TAG), name);
        d.r(sp());
        d.t(H(SYMBOL_PUNC), ">");
    }

    /// Text that does not hold the end tag.
    std::string raw(const std::string& x, const std::string& tag)
    {
        std::string l = x;
        for (char& ch : l) {
            ch = char(std::tolower(static_cast<unsigned char>(ch)));
        }
        std::string o = x;
        for (std::size_t i; (i = l.find("</" + tag)) != l.npos;) {
            o.erase(i, 1);
            l.erase(i, 1);
        }
        return o;
    }

    void node(int depth)
    {
        switch (s.below(10)) {
        case 0: {
            d.cls("comment");
            std::string x = plain(s, "", 14) + s.pick({ "", "", "<b>", "&amp;", "-", "--", "- -", "[if IE]>", "<!", "--!", "--x" });
            erase_all(x, "-->");
            erase_all(x, "--!>");
            erase_all(x, "<!--");
            if (x.starts_with(">") || x.starts_with("->")) {
                x.insert(0, " ");
            }
            if (x.ends_with("<!-")) {
                x += " ";
            }
            erase_all(x, "<!--");
            if (x.ends_with("<!") || x.ends_with("--!")) {
                x += ".";
            }
            d.t(H(COMMENT_DELIM), "<!--").t(H(COMMENT), x).t(H(COMMENT_DELIM), "-->");
            break;
        }
        case 1: {
            d.cls("CDATA section");
            const std::string x = gen_until(s, "]]>", "", "\n<[]>&");
            d.t(H(NAME_MACRO), "<![CDATA[").r(x).t(H(NAME_MACRO), "]]>");
            break;
        }
        case 2: {
            d.cls("script or style");
            const bool js = s.chance(1, 2);
            const std::string tag = js ? "script" : "style";
            d.t(H(SYMBOL_PUNC), "<").t(H(MARKUP_TAG), any_case(tag));
            attributes(false);
            std::string x;
            for (std::size_t i = 0, n = s.size(4); i < n; ++i) {
                x += js ? s.pick({ "let x = 1;", "\"</b>\"", "// c\n", "/* <!-- */", "`a${b}`", "a < b", "</sc", "</scriptx", "/[/]/g", "</", "<", " ", "\"", "<i>a</i>", "\n" })
                        : s.pick({ "div { color: red; }", "/* </b> */", "a > b {", "}", "#x", "</st", "</stylex", "</", "<", " ", "\"", "@media x {", "url(a", "\n" });
                if (s.chance(1, 3)) {
                    x += plain(s, "", 6);
                }
            }
            x = raw(x, tag + " ");
            x = raw(x, tag + ">");
            x = raw(x, tag + "/");
            x = raw(x, tag + "\n");
            x = raw(x, tag + "\t");
            if (x.size() >= tag.size() && raw(x + ">", tag + ">").size() != x.size() + 1) {
                x += "x";
            }
            nested(d, js ? ULIGHT_LANG_JAVASCRIPT : ULIGHT_LANG_CSS, x);
            end_tag(any_case(tag));
            break;
        }
        case 3: {
            d.cls("escapable raw text");
            const std::string tag = s.chance(1, 2) ? "title" : "textarea";
            d.t(H(SYMBOL_PUNC), "<").t(H(MARKUP_TAG), any_case(tag));
            attributes(false);
            for (std::size_t i = 0, n = s.size(3); i < n; ++i) {
                d.r(s.pick({ "<b>", "</b>", "<", "</", "<!--", "-->", "</ti ", "</titles>", "</textareas ", "</text>", "<!DOCTYPE x>", "</title", "</textarea" }));
                d.r(".");
                pieces(0, "<&", 2);
            }
            end_tag(any_case(tag));
            break;
        }
        case 4:
            if (depth == 0 || d.s.empty()) {
                d.cls("document type");
                d.t(H(NAME_MACRO), s.pick({ "<!DOCTYPE html>", "<!doctype html>", "<!DocType html PUBLIC \"-//W3C//DTD\" 'x'>", "<!DOCTYPE\nhtml SYSTEM 'about:legacy-compat'>" }));
                break;
            }
            [[fallthrough]];
        case 5:
        case 6:
        case 7: {
            d.cls("element");
            const std::string name = tag_name();
            d.t(H(SYMBOL_PUNC), "<").t(H(MARKUP_TAG), name);
            attributes();
            if (depth > 0 && s.chance(2, 3)) {
                for (std::size_t i = 0, n = s.size(3); i < n; ++i) {
                    node(depth - 1);
                }
            }
            if (s.chance(3, 4)) {
                end_tag(name);
            }
            break;
        }
        case 8:
            if (s.chance(1, 3)) {
                d.cls("less-than sign that begins nothing");
                d.t(H(SYMBOL_PUNC), "<").r(s.pick({ " ", "= ", "/>", "/ ", "/ x>", "/\t>", "/\n", "/>>", "!x>", "!->", "!-", "?x?>" })).r(s.pick({ " ", "\n", "." }));
                break;
            }
            [[fallthrough]];
        default:
            d.cls("text");
            pieces(0, "<&");
            break;
        }
    }
};

void l13(Src& s, Ctx& c)
{
    Doc d;
    Html g { s, d };
    if (s.chance(1, 20)) {
        d.cls("byte order mark");
        d.r("\xef\xbb\xbf");
    }
    for (std::size_t i = 0, n = 1 + s.size(4); i < n; ++i) {
        g.node(2);
    }
    if (s.chance(1, 20)) {
        d.cls("unterminated");
        switch (s.below(5)) {
        case 3:
        case 4: {
            d.cls("unterminated attribute value");
            d.t(H(SYMBOL_PUNC), "<").t(H(MARKUP_TAG), g.tag_name()).r(" ").t(H(MARKUP_ATTR), "a").t(H(SYMBOL_PUNC), "=");
            const std::string q = s.pick({ "", "", "\"", "'" });
            if (q.empty()) {
                d.t(H(STRING), s.pick({ "a", "x1", "/", "#", "\xc3\xa9" }));
                g.pieces(H(STRING), " \t\n\"'=<>`&", 2);
            }
            else {
                d.t(H(STRING), q);
                g.pieces(H(STRING), q + "&");
            }
            break;
        }
        case 0: d.t(H(SYMBOL_PUNC), "<").t(H(MARKUP_TAG), g.tag_name()); break;
        case 1: d.t(H(COMMENT_DELIM), "<!--").t(H(COMMENT), " " + gen_text(s, "<-", 8, "\n")); break;
        default: d.t(H(NAME_MACRO), "<![CDATA[").r(gen_until(s, "]]>", "", "\n")); break;
        }
    }
    check_doc(c, d, ULIGHT_LANG_HTML, 0, true);
}

// ===============================================================================================

struct Xml {
    Src& s;
    Doc& d;

    std::string ws() { return ws1(s, false); }
    std::string sp() { return s.chance(2, 3) ? "" : ws(); }

    std::string name()
    {
        if (s.chance(1, 4)) {
            return s.pick({ "a", "xs:element", "my-elem", "x.y", "_a", "ns:b", "xml-stylesheet", "EMPTYish", "ANYTHING", "SYSTEMATIC", "NDATAx", "PUBLICx", "e-1" });
        }
        std::string x;
        x += s.pick({ "a", "Z", "_", "q", "\xc3\xa9", "\xe4\xb8\xad", "\xf0\x90\x80\x80", "\xce\xbb" });
        for (std::size_t i = 0, n = s.size(5); i < n; ++i) {
            x += s.pick({ "a", "B", "0", "9", "-", ".", "_", ":", "\xc3\xa9", "\xe4\xb8\xad", "\xc2\xb7", "\xcc\x80", "\xe2\x80\xbf", "\xf0\x90\x80\x80" });
        }
        return x;
    }

    void reference()
    {
        d.cls("reference");
        switch (s.below(3)) {
        case 0: d.t(H(STRING_ESCAPE), "&" + (s.chance(1, 2) ? std::string(s.pick({ "amp", "lt", "quot" })) : name()) + ";"); break;
        case 1: d.t(H(STRING_ESCAPE), "&#" + gen_digits(s, 10, 6) + ";"); break;
        default: d.t(H(STRING_ESCAPE), "&#x" + hex(s, 1 + s.below(6)) + ";"); break;
        }
    }

    void value()
    {
        const std::string q(1, s.chance(1, 2) ? '"' : '\'');
        d.t(H(STRING_DELIM), q);
        bool text = false;
        for (std::size_t i = 0, n = s.size(3); i < n; ++i) {
            if (text || s.chance(1, 3)) {
                reference();
                text = false;
            }
            else {
                d.t(H(STRING), plain(s, q + "<&"));
                text = true;
            }
        }
        if (s.chance(1, 30)) {
            d.cls("erroneous character in value");
            d.t(H(ERROR), s.pick({ "<", "&" }));
        }
        d.t(H(STRING_DELIM), q);
    }

    void comment()
    {
        d.cls("comment");
        std::string x = plain(s, "", 14) + s.pick({ "", "", "<b>", "&amp;", "- ", "<!", "]]>" });
        erase_all(x, "--");
        if (x.ends_with('-')) {
            x += " ";
        }
        d.t(H(COMMENT_DELIM), "<!--").t(H(COMMENT), x).t(H(COMMENT_DELIM), "-->");
    }
    void pi()
    {
        d.cls("processing instruction");
        std::string n = name();
        d.t(H(SYMBOL_PUNC), "<?").t(H(NAME_MACRO), n);
        if (s.chance(3, 4)) {
            d.r(ws() + gen_until(s, "?>", "", "\n<>?"));
        }
        d.t(H(SYMBOL_PUNC), "?>");
    }

    void content(int depth)
    {
        for (std::size_t i = 0, n = s.size(3); i < n; ++i) {
            switch (s.below(8)) {
            case 0: comment(); break;
            case 1: pi(); break;
            case 2: {
                d.cls("CDATA section");
                const std::string x = gen_until(s, "]]>", "", "\n<[]>&");
                d.t(H(NAME_MACRO), "<![CDATA[").r(x).t(H(NAME_MACRO), "]]>");
                break;
            }
            case 3: reference(); break;
            case 4:
            case 5:
                if (depth > 0) {
                    element(depth - 1);
                    break;
                }
                [[fallthrough]];
            default: {
                std::string x = plain(s, "<&", 12);
                d.r(x);
                if (s.chance(1, 40)) {
                    d.cls("stray ampersand");
                    d.t(H(ERROR), "&").r(" ");
                }
                break;
            }
            }
        }
    }

    void element(int depth)
    {
        d.cls("element");
        const std::string n = name();
        d.t(H(SYMBOL_PUNC), "<").t(H(MARKUP_TAG), n);
        for (std::size_t i = 0, k = s.size(3); i < k; ++i) {
            d.cls("attribute");
            d.r(ws()).t(H(MARKUP_ATTR), name()).r(sp()).t(H(SYMBOL_PUNC), "=").r(sp());
            value();
        }
        d.r(sp());
        if (s.chance(1, 4)) {
            d.t(H(SYMBOL_PUNC), "/>");
            return;
        }
        d.t(H(SYMBOL_PUNC), ">");
        content(depth);
        d.t(H(SYMBOL_PUNC), "</").t(H(MARKUP_TAG), n).r(sp()).t(H(SYMBOL_PUNC), ">");
    }

    void literal(bool simple)
    {
        if (!simple) {
            value();
            return;
        }
        const std::string q(1, s.chance(1, 2) ? '"' : '\'');
        d.t(H(STRING_DELIM), q).t(H(STRING), gen_text(s, q + "<&", 8)).t(H(STRING_DELIM), q);
    }
    void external_id()
    {
        const bool pub = s.chance(1, 2);
        d.t(H(KEYWORD), pub ? "PUBLIC" : "SYSTEM").r(ws());
        literal(true);
        if (pub) {
            d.r(ws());
            literal(true);
        }
    }
    void pe_reference()
    {
        d.cls("parameter entity reference");
        d.t(H(STRING_ESCAPE), "%" + name() + ";");
    }
    void reference_or_name()
    {
        if (s.chance(1, 6)) {
            pe_reference();
        }
        else {
            d.t(H(NAME), name());
        }
    }
    static bool is_keyword(const std::string& x)
    {
        for (const char* k : { "CDATA", "IDREFS", "IDREF", "ID", "ENTITY", "ENTITIES", "NMTOKENS", "NMTOKEN", "NOTATION", "PUBLIC", "SYSTEM", "EMPTY", "ANY", "NDATA" }) {
            if (x == k) {
                return true;
            }
        }
        return false;
    }
    void model_name() { d.t(H(NAME), name()); }
    void particle(int depth)
    {
        if (depth > 0 && s.chance(1, 3)) {
            d.t(H(SYMBOL_PUNC), "(").r(sp());
            const char* sep = s.pick({ ",", "|" });
            for (std::size_t i = 0, n = 1 + s.size(2); i < n; ++i) {
                if (i) {
                    d.r(sp()).t(H(SYMBOL_PUNC), sep).r(sp());
                }
                particle(depth - 1);
            }
            d.r(sp()).t(H(SYMBOL_PUNC), ")");
        }
        else if (s.chance(1, 6)) {
            pe_reference();
        }
        else {
            model_name();
        }
        if (s.chance(1, 3)) {
            d.t(H(SYMBOL_PUNC), s.pick({ "?", "*", "+" }));
        }
    }

    void declaration()
    {
        switch (s.below(7)) {
        case 0: comment(); return;
        case 1: pi(); return;
        case 2: pe_reference(); return;
        default: break;
        }
        d.t(H(NAME_MACRO), "<!");
        switch (s.below(4)) {
        case 0:
            d.cls("element declaration");
            d.t(H(NAME_MACRO), "ELEMENT").r(ws());
            reference_or_name();
            d.r(ws());
            switch (s.below(5)) {
            case 4: pe_reference(); break;
            case 0: d.t(H(KEYWORD), s.pick({ "EMPTY", "ANY" })); break;
            case 1:
                d.t(H(SYMBOL_PUNC), "(").r(sp()).t(H(KEYWORD), "#PCDATA").r(sp());
                for (std::size_t i = 0, n = s.size(2); i < n; ++i) {
                    d.t(H(SYMBOL_PUNC), "|").r(sp()).t(H(NAME), name()).r(sp());
                }
                d.t(H(SYMBOL_PUNC), ")").t(H(SYMBOL_PUNC), "*");
                break;
            default:
                d.t(H(SYMBOL_PUNC), "(").r(sp());
                particle(2);
                d.r(sp()).t(H(SYMBOL_PUNC), ")");
                if (s.chance(1, 2)) {
                    d.t(H(SYMBOL_PUNC), s.pick({ "?", "*", "+" }));
                }
                break;
            }
            break;
        case 1:
            d.cls("attribute-list declaration");
            d.t(H(NAME_MACRO), "ATTLIST").r(ws());
            reference_or_name();
            for (std::size_t i = 0, n = s.size(3); i < n; ++i) {
                d.r(ws());
                if (s.chance(1, 8)) {
                    pe_reference();
                    continue;
                }
                d.t(H(NAME), name()).r(ws());
                if (s.chance(1, 3)) {
                    if (s.chance(1, 2)) {
                        d.t(H(KEYWORD), "NOTATION").r(ws());
                    }
                    d.t(H(SYMBOL_PUNC), "(").r(sp());
                    for (std::size_t k = 0, m = 1 + s.size(2); k < m; ++k) {
                        if (k) {
                            d.t(H(SYMBOL_PUNC), "|").r(sp());
                        }
                        d.t(H(NAME), name()).r(sp());
                    }
                    d.t(H(SYMBOL_PUNC), ")");
                }
                else {
                    d.t(H(KEYWORD), s.pick({ "CDATA", "ID", "IDREF", "IDREFS", "ENTITY", "ENTITIES", "NMTOKEN", "NMTOKENS" }));
                }
                d.r(ws());
                switch (s.below(4)) {
                case 0: d.t(H(KEYWORD), "#REQUIRED"); break;
                case 1: d.t(H(KEYWORD), "#IMPLIED"); break;
                case 2: d.t(H(KEYWORD), "#FIXED").r(ws()); [[fallthrough]];
                default: value(); break;
                }
            }
            break;
        case 2:
            d.cls("entity declaration");
            d.t(H(NAME_MACRO), "ENTITY").r(ws());
            if (s.chance(1, 3)) {
                d.t(H(SYMBOL_PUNC), "%").r(ws());
            }
            d.t(H(NAME), name()).r(ws());
            if (s.chance(1, 2)) {
                value();
            }
            else {
                external_id();
                if (s.chance(1, 2)) {
                    d.r(ws()).t(H(KEYWORD), "NDATA").r(ws()).t(H(NAME), name());
                }
            }
            break;
        default:
            d.cls("notation declaration");
            d.t(H(NAME_MACRO), "NOTATION").r(ws()).t(H(NAME), name()).r(ws());
            external_id();
            break;
        }
        d.r(sp()).t(H(NAME_MACRO), ">");
    }

    void document()
    {
        if (s.chance(1, 20)) {
            d.cls("byte order mark");
            d.r("\xef\xbb\xbf");
        }
        if (s.chance(1, 3)) {
            d.cls("XML declaration");
            d.t(H(NAME_MACRO), "<?xml");
            const auto attr = [&](const char* n, const char* v) {
                const std::string q(1, s.chance(1, 2) ? '"' : '\'');
                d.r(ws()).t(H(MARKUP_ATTR), n).r(sp()).t(H(SYMBOL_PUNC), "=").r(sp());
                d.t(H(STRING_DELIM), q).t(H(STRING), v).t(H(STRING_DELIM), q);
            };
            attr("version", s.pick({ "1.0", "1.1" }));
            if (s.chance(1, 2)) {
                attr("encoding", s.pick({ "UTF-8", "utf-16", "ISO-8859-1" }));
            }
            if (s.chance(1, 3)) {
                attr("standalone", s.pick({ "yes", "no" }));
            }
            d.r(sp()).t(H(NAME_MACRO), "?>");
        }
        const auto misc = [&] {
            for (std::size_t i = 0, n = s.size(2); i < n; ++i) {
                switch (s.below(3)) {
                case 0: comment(); break;
                case 1: pi(); break;
                default: d.r(ws()); break;
                }
            }
        };
        misc();
        if (s.chance(1, 2)) {
            d.cls("document type declaration");
            d.t(H(NAME_MACRO), "<!").t(H(NAME_MACRO), "DOCTYPE").r(ws()).t(H(NAME), name());
            bool space = false;
            if (s.chance(1, 3)) {
                d.r(ws());
                external_id();
                space = true;
            }
            d.r(sp());
            if (s.chance(2, 3)) {
                d.cls("internal subset");
                d.t(H(SYMBOL_PUNC), "[");
                for (std::size_t i = 0, n = s.size(3); i < n; ++i) {
                    d.r(sp());
                    declaration();
                }
                d.r(sp()).t(H(SYMBOL_PUNC), "]").r(sp());
            }
            d.t(H(NAME_MACRO), ">");
            misc();
        }
        element(2);
        misc();
    }
};

void l14(Src& s, Ctx& c)
{
    Doc d;
    Xml { s, d }.document();
    check_doc(c, d, ULIGHT_LANG_XML, 0, true);
}

Register r13({ "L13", l13, 60000, 1500000, "documents of at least three tokens, assembled from HTML elements with known tokens", true });
Register r14({ "L14", l14, 60000, 1500000, "documents of at least three tokens, assembled from XML markup with known tokens", true });

} // namespace
} // namespace vp::lang
