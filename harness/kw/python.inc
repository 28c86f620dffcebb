constexpr Kw kws[] {
    { "False", H(BOOL) },
    { "None", H(NULL) },
    { "True", H(BOOL) },
    { "and", H(KEYWORD) },
    { "as", H(KEYWORD) },
    { "assert", H(KEYWORD) },
    { "async", H(KEYWORD) },
    { "await", H(KEYWORD_CONTROL) },
    { "break", H(KEYWORD_CONTROL) },
    { "case", H(KEYWORD_CONTROL) },
    { "class", H(KEYWORD) },
    { "continue", H(KEYWORD_CONTROL) },
    { "def", H(KEYWORD) },
    { "del", H(KEYWORD) },
    { "elif", H(KEYWORD_CONTROL) },
    { "else", H(KEYWORD_CONTROL) },
    { "except", H(KEYWORD_CONTROL) },
    { "finally", H(KEYWORD_CONTROL) },
    { "for", H(KEYWORD_CONTROL) },
    { "from", H(KEYWORD) },
    { "global", H(KEYWORD) },
    { "if", H(KEYWORD_CONTROL) },
    { "import", H(KEYWORD) },
    { "in", H(KEYWORD) },
    { "is", H(KEYWORD) },
    { "lambda", H(KEYWORD) },
    { "match", H(KEYWORD_CONTROL) },
    { "nonlocal", H(KEYWORD) },
    { "not", H(KEYWORD) },
    { "or", H(KEYWORD) },
    { "pass", H(KEYWORD_CONTROL) },
    { "raise", H(KEYWORD_CONTROL) },
    { "return", H(KEYWORD_CONTROL) },
    { "try", H(KEYWORD_CONTROL) },
    { "while", H(KEYWORD_CONTROL) },
    { "with", H(KEYWORD) },
    { "yield", H(KEYWORD_CONTROL) },
};
constexpr Kw puncs[] {
    { "!=", H(SYMBOL_OP) },
    { "%", H(SYMBOL_OP) },
    { "%=", H(SYMBOL_OP) },
    { "&", H(SYMBOL_OP) },
    { "&=", H(SYMBOL_OP) },
    { "(", H(SYMBOL_PARENS) },
    { ")", H(SYMBOL_PARENS) },
    { "*", H(SYMBOL_OP) },
    { "**", H(SYMBOL_OP) },
    { "**=", H(SYMBOL_OP) },
    { "*=", H(SYMBOL_OP) },
    { "+", H(SYMBOL_OP) },
    { "+=", H(SYMBOL_OP) },
    { ",", H(SYMBOL_PUNC) },
    { "-", H(SYMBOL_OP) },
    { "-=", H(SYMBOL_OP) },
    { "->", H(SYMBOL_PUNC) },
    { ".", H(SYMBOL_PUNC) },
    { "...", H(SYMBOL_PUNC) },
    { "/", H(SYMBOL_OP) },
    { "//", H(SYMBOL_OP) },
    { "//=", H(SYMBOL_OP) },
    { "/=", H(SYMBOL_OP) },
    { ":", H(SYMBOL_PUNC) },
    { ":=", H(SYMBOL_OP) },
    { ";", H(SYMBOL_PUNC) },
    { "<", H(SYMBOL_OP) },
    { "<<", H(SYMBOL_OP) },
    { "<<=", H(SYMBOL_OP) },
    { "<=", H(SYMBOL_OP) },
    { "=", H(SYMBOL_PUNC) },
    { "==", H(SYMBOL_OP) },
    { ">", H(SYMBOL_OP) },
    { ">=", H(SYMBOL_OP) },
    { ">>", H(SYMBOL_OP) },
    { ">>=", H(SYMBOL_OP) },
    { ">>>", H(SYMBOL_PUNC) },
    { "@", H(SYMBOL_OP) },
    { "@=", H(SYMBOL_OP) },
    { "[", H(SYMBOL_SQUARE) },
    { "\\", H(STRING_ESCAPE) },
    { "]", H(SYMBOL_SQUARE) },
    { "^", H(SYMBOL_OP) },
    { "^=", H(SYMBOL_OP) },
    { "{", H(SYMBOL_BRACE) },
    { "|", H(SYMBOL_OP) },
    { "|=", H(SYMBOL_OP) },
    { "}", H(SYMBOL_BRACE) },
    { "~", H(SYMBOL_OP) },
};
