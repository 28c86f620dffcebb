constexpr Kw kws[] {
    { "and", H(KEYWORD) }, // 1
    { "break", H(KEYWORD_CONTROL) }, // 1
    { "do", H(KEYWORD_CONTROL) }, // 1
    { "else", H(KEYWORD_CONTROL) }, // 1
    { "elseif", H(KEYWORD_CONTROL) }, // 1
    { "end", H(KEYWORD_CONTROL) }, // 1
    { "false", H(BOOL) }, // 1
    { "for", H(KEYWORD_CONTROL) }, // 1
    { "function", H(KEYWORD) }, // 1
    { "goto", H(KEYWORD_CONTROL) }, // 1
    { "if", H(KEYWORD_CONTROL) }, // 1
    { "in", H(KEYWORD) }, // 1
    { "local", H(KEYWORD) }, // 1
    { "nil", H(NULL) }, // 1
    { "not", H(KEYWORD) }, // 1
    { "or", H(KEYWORD) }, // 1
    { "repeat", H(KEYWORD_CONTROL) }, // 1
    { "return", H(KEYWORD_CONTROL) }, // 1
    { "then", H(KEYWORD_CONTROL) }, // 1
    { "true", H(BOOL) }, // 1
    { "until", H(KEYWORD_CONTROL) }, // 1
    { "while", H(KEYWORD_CONTROL) }, // 1
};
constexpr Kw puncs[] {
    { "#", H(SYMBOL_OP) }, // 1
    { "%", H(SYMBOL_OP) }, // 1
    { "&", H(SYMBOL_OP) }, // 1
    { "(", H(SYMBOL_PARENS) }, // 1
    { ")", H(SYMBOL_PARENS) }, // 1
    { "*", H(SYMBOL_OP) }, // 1
    { "+", H(SYMBOL_OP) }, // 1
    { ",", H(SYMBOL_PUNC) }, // 1
    { "-", H(SYMBOL_OP) }, // 1
    { ".", H(SYMBOL_OP) }, // 1
    { "..", H(SYMBOL_OP) }, // 1
    { "...", H(SYMBOL_OP) }, // 1
    { "/", H(SYMBOL_OP) }, // 1
    { "//", H(SYMBOL_OP) }, // 1
    { ":", H(SYMBOL_OP) }, // 1
    { "::", H(SYMBOL_OP) }, // 1
    { ";", H(SYMBOL_PUNC) }, // 1
    { "<", H(SYMBOL_OP) }, // 1
    { "<<", H(SYMBOL_OP) }, // 1
    { "<=", H(SYMBOL_OP) }, // 1
    { "=", H(SYMBOL_OP) }, // 1
    { "==", H(SYMBOL_OP) }, // 1
    { ">", H(SYMBOL_OP) }, // 1
    { ">=", H(SYMBOL_OP) }, // 1
    { ">>", H(SYMBOL_OP) }, // 1
    { "[", H(SYMBOL_SQUARE) }, // 1
    { "]", H(SYMBOL_SQUARE) }, // 1
    { "^", H(SYMBOL_OP) }, // 1
    { "{", H(SYMBOL_BRACE) }, // 1
    { "|", H(SYMBOL_OP) }, // 1
    { "}", H(SYMBOL_BRACE) }, // 1
    { "~", H(SYMBOL_OP) }, // 1
    { "~=", H(SYMBOL_OP) }, // 1
};
