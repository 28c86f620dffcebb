#include "h_lang.hpp"

// L11 Lua: elements as defined by the Lua 5.4 manual, section 3.1.
namespace vp::lang {
namespace {

#include "kw/lua.inc"

struct Gen {
    Src& s;
    Doc& d;

    std::string ident() { return gen_ident(s, kws, false); }

    /// Text that does not contain a closing long bracket of level n, but likes to contain others.
    std::string long_text(std::size_t n)
    {
        return gen_until(s, "]" + std::string(n, '=') + "]", "", "\n\"'-[]=");
    }

    void element()
    {
        switch (s.weighted({ 6, 6, 8, 5, 6, 4, 3, 4, 1 })) {
        case 0: {
            const Kw& k = s.pick(kws);
            d.cls("keyword");
            d.t(k.type, k.code);
            break;
        }
        case 1: d.cls("identifier"); d.t(H(NAME), ident()); break;
        case 2: {
            const Kw& k = s.pick(puncs);
            d.cls("symbol");
            d.t(k.type, k.code).r(k.code[0] == '[' ? " " : "");
            break;
        }
        case 3: {
            d.cls("number");
            std::string x;
            if (s.chance(1, 3)) {
                x = s.pick({ "0x", "0X" });
                x += gen_digits(s, 16, 5);
                if (s.chance(1, 3)) {
                    x += "." + gen_digits(s, 16, 3);
                }
                if (s.chance(1, 3)) {
                    x += s.pick({ "p", "P", "p+", "p-", "P-" }) + gen_digits(s, 10, 3);
                }
            }
            else {
                x = gen_digits(s, 10, 5);
                switch (s.below(4)) {
                case 1: x += "." + gen_digits(s, 10, 4); break;
                case 2: x = "." + x; break;
                case 3: x += "."; break;
                default: break;
                }
                if (s.chance(1, 3)) {
                    x += s.pick({ "e", "E", "e+", "e-", "E-" }) + gen_digits(s, 10, 3);
                }
            }
            d.t(H(NUMBER), x);
            break;
        }
        case 4: {
            d.cls("quoted string");
            const char q = s.chance(1, 2) ? '"' : '\'';
            std::string x(1, q);
            for (std::size_t i = 0, n = s.size(5); i < n; ++i) {
                if (s.chance(1, 2)) {
                    x += gen_text(s, std::string("\\") + q, 6, "\t\"'[]-");
                }
                else {
                    x += s.pick({ "\\n", "\\\\", "\\\"", "\\'", "\\065", "\\x41", "\\u{48}", "\\\n", "\\\r\n", "\\z \n  \t", "\\z" });
                }
            }
            d.t(H(STRING), x + q);
            break;
        }
        case 5: {
            d.cls("long string");
            const std::size_t n = s.size(3);
            const std::string eq(n, '=');
            d.t(H(STRING), "[" + eq + "[").t(H(STRING), long_text(n)).t(H(STRING), "]" + eq + "]");
            break;
        }
        case 6: {
            d.cls("line comment");
            std::string x = gen_text(s, "", 10, "\t\"'[");
            // Only a complete opening long bracket makes it a block comment.
            if (x.starts_with('[')) {
                x.insert(0, " ");
            }
            if (s.chance(1, 4)) {
                x = s.pick({ "[", "[=", "[==", "[==]", "[=]", "[===] [[", "[=]=[", "-[[", " [[", "]]", "[=-[" }) + std::string(" ") + x;
            }
            d.t(H(COMMENT_DELIM), "--").t(H(COMMENT), x).r("\n");
            break;
        }
        case 7: {
            d.cls("block comment");
            const std::size_t n = s.size(3);
            const std::string eq(n, '=');
            d.t(H(COMMENT_DELIM), "--[" + eq + "[").t(H(COMMENT), long_text(n)).t(H(COMMENT_DELIM), "]" + eq + "]");
            break;
        }
        default: d.cls("attribute"); d.t(H(NAME_ATTR_DELIM), "<").t(H(NAME_ATTR), "const").t(H(NAME_ATTR_DELIM), ">"); break;
        }
    }
};

void l11(Src& s, Ctx& c)
{
    Doc d;
    Gen g { s, d };
    assemble(s, d, 14, [&] { g.element(); }, "()]{},;", " \t\n\r\f\v");
    switch (s.below(12)) {
    case 1:
        d.cls("string that ends with the line");
        d.r(" ").t(H(STRING), "'" + gen_text(s, "'\\", 6) + "x").r("\n").t(H(NAME), g.ident());
        break;
    case 2:
        d.cls("unterminated comment at the end");
        d.r(" ").t(H(COMMENT_DELIM), "--[==[").t(H(COMMENT), gen_until(s, "]==]", "", "\n"));
        break;
    case 4:
        d.cls("unterminated comment at the end");
        d.r(" ").t(H(COMMENT_DELIM), "--[[").t(H(COMMENT), gen_until(s, "]]", "", "\n"));
        break;
    case 3:
        d.cls("unterminated long string at the end");
        d.r(" ").t(H(STRING), "[=[").t(H(STRING), gen_until(s, "]=]", "", "\n"));
        break;
    default: break;
    }
    check_doc(c, d, ULIGHT_LANG_LUA, s.chance(1, 8) ? ULIGHT_COALESCE : 0);
}

Register rr11({ "L11", l11, 60000, 1500000, "documents of at least three tokens, assembled from Lua lexical elements with known tokens", true });

} // namespace
} // namespace vp::lang
