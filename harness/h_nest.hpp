#pragma once

// What A13 and A14 repeat.

#include <cstddef>
#include <string>
#include <string_view>
#include <utility>

#include "hl.hpp"

namespace vp {

struct Construct {
    const char *open, *close;
};

// Everything that opens something in any of the languages, and what closes it.
constexpr Construct constructs[] {
    { "(", ")" }, { "[", "]" }, { "{", "}" }, { "<", ">" }, { "`${", "}`" }, { "\"${", "}\"" }, { "\"\"\"${", "}\"\"\"" },
    { "${", "}" }, { "$(", ")" }, { "$((", "))" }, { "\"$(", ")\"" }, { "`", "`" }, { "\"", "\"" }, { "'", "'" },
    { "<a>", "</a>" }, { "<a>{", "}</a>" }, { "<a b={", "}/>" }, { "<a {...", "}/>" }, { "<>", "</>" }, { "<>{", "}</>" },
    { "\\a{", "}" }, { "\\a(", ")" }, { "\\a(b=", ")" }, { "a(", ")" }, { "a{", "}" }, { "a[", "]" }, { "\\a(\"", "\")" }, { "\\(\"", "\")" }, { "\"\\(", ")\"" },
    { "\\(", ")" }, { "\\ ", "\n" }, { "(\"a\"=", ")" }, { "{\"a\":", "}" }, { "[1, ", "]" }, { "{\"a\": [ ", " ]}" }, { "[a, ", "]" }, { "[[", "]]" }, { "{a: ", "}" }, { "? ", "" }, { "- ", "" }, { "[? ", "]" },
    { "> ", "" }, { ">", "" }, { "* ", "" }, { "1. ", "" }, { "# ", "" }, { "[", "](b)" }, { "![", "](b)" }, { "*", "*" }, { "**", "**" }, { "_", "_" },
    { "*_", "_*" }, { "[*", "*](b)" }, { "**[", "](b)**" }, { "/*", "*/" }, { "(*", "*)" }, { "<!--", "-->" }, { "--[[", "]]" }, { "--[=[", "]=]" }, { "[=[", "]=]" },
    { "<![CDATA[", "]]>" }, { "<?a ", "?>" }, { "<!DOCTYPE a [", "]>" }, { "<!ELEMENT a (", ")>" }, { "<![INCLUDE[", "]]>" }, { "<!ENTITY a \"", "\">" },
    { "&a;", "" }, { "%a;", "" }, { "<script>", "</script>" }, { "<style>", "</style>" }, { "f\"{", "}\"" }, { "f'{", "}'" }, { "f\"{f'{", "}'}\"" }, { "{{", "}}" },
    { "@[", "]" }, { "@a(", ")" }, { "#[a(", ")]" }, { "#![a(", ")]" }, { "r#\"", "\"#" }, { "R\"a(", ")a\"" }, { "@media a{", "}" }, { ":not(", ")" }, { "calc(", ")" }, { "url(", ")" },
    { "!{", "}" }, { "!0{", "}" }, { "%{", "}" }, { "<{", "}>" }, { "i32(", ")" }, { "if ", " fi" }, { "do ", " done" }, { "case a in ", "esac" }, { "<<a\n", "\na\n" },
    { "#if a\n", "#endif\n" }, { "\\begin{a}", "\\end{a}" }, { "\\left(", "\\right)" }, { "$$", "$$" }, { "$", "$" }, { "a? ", ": b" }, { "a.", "" }, { "!", "" }, { "-", "" }, { "~", "" }, { "a=", "" }, { "a::", "" },
    { "a b c (", ")" }, { "fun a(", ")" }, { "fun(", ")" }, { "let a = ", ";" }, { "!!a ", "" }, { "&a ", "" }, { "*a ", "" }, { "|\n ", "\n" }, { ">\n ", "\n" }, { "a:\n ", "" }, { "- a:\n", "" },
    { "function(", ")" }, { "=> ", "" }, { "%", "" }, { "{%", "%}" }, { "|", "|" }, { "/", "/" }, { "/[", "]/" }, { "=/[", "" }, { "=/[", "]/" }, { "<{", "" }, { "<//", "" }, { "<a>", "" }, { "</", "" }, { "</a ", "" }, { "&", "" }, { "a\n", "" }, { "//", "" }, { "///", "\n" }, { "```a\n", "\n```\n" }, { "~~~a\n", "\n~~~\n" }, { "'a<", ">" }, { "a<", ">" },
    { "\\u{", "}" }, { "\\N{", "}" }, { "\"\\N{\"", "" }, { "\"\\u{\"", "" }, { "\"\\x{\"", "" }, { "@", "" }, { "?", "" }, { ",", "" }, { ":", "" }, { "\n", "" }, { "\\", "" }, { "=(", ")" }, { "+[", "]" }, { "return ", "" }, { "x => {", "}" },
};

/// The constructs repeated.
inline std::string nest(std::string_view before, std::string_view open, std::string_view middle, std::string_view close, std::size_t n)
{
    std::string r { before };
    for (std::size_t i = 0; i < n; ++i) {
        r += open;
    }
    r += middle;
    for (std::size_t i = 0; i < n && !close.empty(); ++i) {
        r += close;
    }
    return r;
}

constexpr const char* befores[] { "", " ", "\n", "a: ", "- ", "a = ", "a ", "\"", "'", "`", "<a", "<a>", "\\a", "\\", "<script>", "<script type=module>", "<style>", "{", "(", "[", "#", "> ", "$", "a(" };
constexpr const char* middles[] { "", "a", "1", "\n", "a b", "\"a\"", " ", "a:b", "." };

/// A few constructs of the table, words of the language, and other characters.
inline std::pair<std::string, std::string> gen_nest(Src& s, ulight_lang lang)
{
    std::string open, close;
    const std::size_t parts = 1 + s.below(3);
    for (std::size_t i = 0; i < parts; ++i) {
        switch (s.weighted({ 6, 1, 1 })) {
        case 0: {
            const Construct& k = s.pick(constructs);
            open += k.open;
            close = k.close + close;
            break;
        }
        case 1: {
            const auto& vocab = corpus(lang).vocab;
            open += vocab.empty() ? std::string(1, char('!' + s.below(94))) : s.pick(vocab);
            break;
        }
        default: {
            open += char('!' + s.below(94));
            break;
        }
        }
    }
    return { open, close };
}

} // namespace vp
