constexpr Kw kws[] {
    { "abstract", H(KEYWORD) },
    { "actual", H(KEYWORD) },
    { "annotation", H(KEYWORD) },
    { "as", H(KEYWORD) },
    { "as?", H(KEYWORD) },
    { "assert", H(KEYWORD) },
    { "async", H(KEYWORD) },
    { "await", H(KEYWORD_CONTROL) },
    { "break", H(KEYWORD_CONTROL) },
    { "break@", H(KEYWORD_CONTROL) },
    { "by", H(KEYWORD) },
    { "catch", H(KEYWORD_CONTROL) },
    { "class", H(KEYWORD) },
    { "companion", H(KEYWORD) },
    { "const", H(KEYWORD) },
    { "constructor", H(KEYWORD) },
    { "continue", H(KEYWORD_CONTROL) },
    { "continue@", H(KEYWORD_CONTROL) },
    { "data", H(KEYWORD) },
    { "delegate", H(KEYWORD) },
    { "do", H(KEYWORD_CONTROL) },
    { "dynamic", H(KEYWORD) },
    { "else", H(KEYWORD_CONTROL) },
    { "enum", H(KEYWORD) },
    { "expect", H(KEYWORD) },
    { "false", H(BOOL) },
    { "field", H(KEYWORD) },
    { "file", H(KEYWORD) },
    { "final", H(KEYWORD) },
    { "finally", H(KEYWORD_CONTROL) },
    { "for", H(KEYWORD_CONTROL) },
    { "fun", H(KEYWORD) },
    { "get", H(KEYWORD) },
    { "if", H(KEYWORD_CONTROL) },
    { "import", H(KEYWORD) },
    { "in", H(KEYWORD) },
    { "init", H(KEYWORD) },
    { "inline", H(KEYWORD) },
    { "interface", H(KEYWORD) },
    { "internal", H(KEYWORD) },
    { "is", H(KEYWORD) },
    { "lateinit", H(KEYWORD) },
    { "noinline", H(KEYWORD) },
    { "null", H(NULL) },
    { "object", H(KEYWORD) },
    { "open", H(KEYWORD) },
    { "operator", H(KEYWORD) },
    { "out", H(KEYWORD) },
    { "package", H(KEYWORD) },
    { "param", H(KEYWORD) },
    { "private", H(KEYWORD) },
    { "property", H(KEYWORD_CONTROL) },
    { "protected", H(KEYWORD) },
    { "public", H(KEYWORD) },
    { "receiver", H(KEYWORD) },
    { "reified", H(KEYWORD) },
    { "return", H(KEYWORD_CONTROL) },
    { "return@", H(KEYWORD_CONTROL) },
    { "sealed", H(KEYWORD) },
    { "set", H(KEYWORD) },
    { "setparam", H(KEYWORD) },
    { "super", H(KEYWORD_THIS) },
    { "super@", H(KEYWORD_THIS) },
    { "suspend", H(KEYWORD) },
    { "this", H(KEYWORD_THIS) },
    { "this@", H(KEYWORD_THIS) },
    { "throw", H(KEYWORD_CONTROL) },
    { "true", H(BOOL) },
    { "try", H(KEYWORD_CONTROL) },
    { "typealias", H(KEYWORD) },
    { "typeof", H(KEYWORD) },
    { "val", H(KEYWORD) },
    { "value", H(KEYWORD) },
    { "var", H(KEYWORD) },
    { "vararg", H(KEYWORD) },
    { "when", H(KEYWORD_CONTROL) },
    { "while", H(KEYWORD_CONTROL) },
};
constexpr Kw puncs[] {
    { "!", H(SYMBOL_OP) },
    { "!=", H(SYMBOL_OP) },
    { "!==", H(SYMBOL_OP) },
    { "!in", H(KEYWORD) },
    { "!is", H(KEYWORD) },
    { "\"", H(STRING_DELIM) },
    { "\"\"\"", H(STRING_DELIM) },
    { "#", H(SYMBOL_OP) },
    { "%", H(SYMBOL_OP) },
    { "%=", H(SYMBOL_OP) },
    { "&&", H(SYMBOL_OP) },
    { "(", H(SYMBOL_PARENS) },
    { ")", H(SYMBOL_PARENS) },
    { "*", H(SYMBOL_OP) },
    { "*=", H(SYMBOL_OP) },
    { "+", H(SYMBOL_OP) },
    { "++", H(SYMBOL_OP) },
    { "+=", H(SYMBOL_OP) },
    { ",", H(SYMBOL_PUNC) },
    { "-", H(SYMBOL_OP) },
    { "--", H(SYMBOL_OP) },
    { "-=", H(SYMBOL_OP) },
    { "->", H(SYMBOL_PUNC) },
    { ".", H(SYMBOL_PUNC) },
    { "..", H(SYMBOL_PUNC) },
    { "...", H(SYMBOL_PUNC) },
    { "/", H(SYMBOL_OP) },
    { "/=", H(SYMBOL_OP) },
    { ":", H(SYMBOL_PUNC) },
    { "::", H(SYMBOL_PUNC) },
    { ";", H(SYMBOL_PUNC) },
    { ";;", H(SYMBOL_PUNC) },
    { "<", H(SYMBOL_OP) },
    { "<=", H(SYMBOL_OP) },
    { "=", H(SYMBOL_PUNC) },
    { "==", H(SYMBOL_OP) },
    { "===", H(SYMBOL_OP) },
    { "=>", H(SYMBOL_PUNC) },
    { ">", H(SYMBOL_OP) },
    { ">=", H(SYMBOL_OP) },
    { "?", H(SYMBOL_OP) },
    { "?.", H(SYMBOL_OP) },
    { "?:", H(SYMBOL_OP) },
    { "@", H(SYMBOL_OP) },
    { "[", H(SYMBOL_SQUARE) },
    { "]", H(SYMBOL_SQUARE) },
    { "{", H(SYMBOL_BRACE) },
    { "||", H(SYMBOL_OP) },
    { "}", H(SYMBOL_BRACE) },
};
