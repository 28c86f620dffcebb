constexpr Kw kws[] {
    { "_", H(KEYWORD) },
    { "abstract", H(KEYWORD) },
    { "assert", H(KEYWORD) },
    { "boolean", H(KEYWORD_TYPE) },
    { "break", H(KEYWORD_CONTROL) },
    { "byte", H(KEYWORD_TYPE) },
    { "case", H(KEYWORD_CONTROL) },
    { "catch", H(KEYWORD_CONTROL) },
    { "char", H(KEYWORD_TYPE) },
    { "class", H(KEYWORD) },
    { "const", H(KEYWORD) },
    { "continue", H(KEYWORD_CONTROL) },
    { "default", H(KEYWORD_CONTROL) },
    { "do", H(KEYWORD_CONTROL) },
    { "double", H(KEYWORD_TYPE) },
    { "else", H(KEYWORD_CONTROL) },
    { "enum", H(KEYWORD) },
    { "exports", H(KEYWORD) },
    { "extends", H(KEYWORD) },
    { "false", H(BOOL) },
    { "final", H(KEYWORD) },
    { "finally", H(KEYWORD_CONTROL) },
    { "float", H(KEYWORD_TYPE) },
    { "for", H(KEYWORD_CONTROL) },
    { "goto", H(KEYWORD) },
    { "if", H(KEYWORD_CONTROL) },
    { "implements", H(KEYWORD) },
    { "import", H(KEYWORD) },
    { "instanceof", H(KEYWORD) },
    { "int", H(KEYWORD_TYPE) },
    { "interface", H(KEYWORD) },
    { "long", H(KEYWORD_TYPE) },
    { "module", H(KEYWORD) },
    { "native", H(KEYWORD) },
    { "new", H(KEYWORD) },
    { "null", H(NULL) },
    { "open", H(KEYWORD) },
    { "opens", H(KEYWORD) },
    { "package", H(KEYWORD) },
    { "permits", H(KEYWORD) },
    { "private", H(KEYWORD) },
    { "protected", H(KEYWORD) },
    { "provides", H(KEYWORD) },
    { "public", H(KEYWORD) },
    { "record", H(KEYWORD) },
    { "requires", H(KEYWORD) },
    { "return", H(KEYWORD_CONTROL) },
    { "sealed", H(KEYWORD) },
    { "short", H(KEYWORD_TYPE) },
    { "static", H(KEYWORD) },
    { "strictfp", H(KEYWORD) },
    { "super", H(KEYWORD_THIS) },
    { "switch", H(KEYWORD_CONTROL) },
    { "synchronized", H(KEYWORD) },
    { "this", H(KEYWORD_THIS) },
    { "throw", H(KEYWORD_CONTROL) },
    { "throws", H(KEYWORD) },
    { "to", H(KEYWORD) },
    { "transient", H(KEYWORD) },
    { "transitive", H(KEYWORD) },
    { "true", H(BOOL) },
    { "try", H(KEYWORD_CONTROL) },
    { "uses", H(KEYWORD) },
    { "var", H(KEYWORD) },
    { "void", H(KEYWORD_TYPE) },
    { "volatile", H(KEYWORD) },
    { "when", H(KEYWORD) },
    { "while", H(KEYWORD_CONTROL) },
    { "with", H(KEYWORD) },
    { "yield", H(KEYWORD_CONTROL) },
};
constexpr Kw puncs[] {
    { "!", H(SYMBOL_OP) },
    { "!=", H(SYMBOL_OP) },
    { "\"", H(STRING_DELIM) },
    { "\"\"\"", H(STRING_DELIM) },
    { "%", H(SYMBOL_OP) },
    { "%=", H(SYMBOL_OP) },
    { "&", H(SYMBOL_OP) },
    { "&&", H(SYMBOL_OP) },
    { "&=", H(SYMBOL_OP) },
    { "(", H(SYMBOL_PARENS) },
    { ")", H(SYMBOL_PARENS) },
    { "*", H(SYMBOL_OP) },
    { "*=", H(SYMBOL_OP) },
    { "+", H(SYMBOL_OP) },
    { "++", H(SYMBOL_OP) },
    { "+=", H(SYMBOL_OP) },
    { ",", H(SYMBOL_PUNC) },
    { "-", H(SYMBOL_OP) },
    { "--", H(SYMBOL_OP) },
    { "-=", H(SYMBOL_OP) },
    { "->", H(SYMBOL_PUNC) },
    { ".", H(SYMBOL_PUNC) },
    { "...", H(SYMBOL_PUNC) },
    { "/", H(SYMBOL_OP) },
    { "/=", H(SYMBOL_OP) },
    { ":", H(SYMBOL_PUNC) },
    { "::", H(SYMBOL_PUNC) },
    { ";", H(SYMBOL_PUNC) },
    { "<", H(SYMBOL_OP) },
    { "<<", H(SYMBOL_OP) },
    { "<<=", H(SYMBOL_OP) },
    { "<=", H(SYMBOL_OP) },
    { "=", H(SYMBOL_PUNC) },
    { "==", H(SYMBOL_OP) },
    { ">", H(SYMBOL_OP) },
    { ">=", H(SYMBOL_OP) },
    { ">>", H(SYMBOL_OP) },
    { ">>=", H(SYMBOL_OP) },
    { ">>>", H(SYMBOL_OP) },
    { ">>>=", H(SYMBOL_OP) },
    { "?", H(SYMBOL_OP) },
    { "@", H(SYMBOL_PUNC) },
    { "[", H(SYMBOL_SQUARE) },
    { "]", H(SYMBOL_SQUARE) },
    { "^", H(SYMBOL_OP) },
    { "^=", H(SYMBOL_OP) },
    { "{", H(SYMBOL_BRACE) },
    { "|", H(SYMBOL_OP) },
    { "|=", H(SYMBOL_OP) },
    { "||", H(SYMBOL_OP) },
    { "}", H(SYMBOL_BRACE) },
    { "~", H(SYMBOL_OP) },
};
