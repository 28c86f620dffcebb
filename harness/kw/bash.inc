constexpr Kw kws[] {
    { "case", H(KEYWORD_CONTROL) },
    { "coproc", H(KEYWORD_CONTROL) },
    { "do", H(KEYWORD_CONTROL) },
    { "done", H(KEYWORD_CONTROL) },
    { "elif", H(KEYWORD_CONTROL) },
    { "else", H(KEYWORD_CONTROL) },
    { "esac", H(KEYWORD_CONTROL) },
    { "fi", H(KEYWORD_CONTROL) },
    { "for", H(KEYWORD_CONTROL) },
    { "function", H(KEYWORD) },
    { "if", H(KEYWORD_CONTROL) },
    { "in", H(KEYWORD) },
    { "select", H(KEYWORD) },
    { "then", H(KEYWORD_CONTROL) },
    { "time", H(KEYWORD) },
    { "until", H(KEYWORD_CONTROL) },
    { "while", H(KEYWORD_CONTROL) },
};
constexpr Kw puncs[] {
    { "!", H(SYMBOL_OP) },
    { "$", H(SYMBOL) },
    { "$'", H(SYMBOL_PARENS) },
    { "$(", H(SYMBOL_PARENS) },
    { "${", H(SYMBOL_BRACE) },
    { "&", H(SYMBOL_OP) },
    { "&&", H(SYMBOL_OP) },
    { "&>", H(SYMBOL_OP) },
    { "&>>", H(SYMBOL_OP) },
    { "(", H(SYMBOL_PARENS) },
    { ")", H(SYMBOL_PARENS) },
    { "*", H(SYMBOL_OP) },
    { "+", H(SYMBOL_OP) },
    { "-", H(SYMBOL_OP) },
    { ":", H(SYMBOL_PUNC) },
    { ";", H(SYMBOL_PUNC) },
    { "<", H(SYMBOL_OP) },
    { "<&", H(SYMBOL_OP) },
    { "<<", H(SYMBOL_OP) },
    { "<<<", H(SYMBOL_OP) },
    { "<>", H(SYMBOL_OP) },
    { "=", H(SYMBOL_OP) },
    { ">", H(SYMBOL_OP) },
    { ">&", H(SYMBOL_OP) },
    { ">>", H(SYMBOL_OP) },
    { "?", H(SYMBOL_OP) },
    { "@", H(SYMBOL_OP) },
    { "[", H(SYMBOL_SQUARE) },
    { "[[", H(SYMBOL_SQUARE) },
    { "]", H(SYMBOL_SQUARE) },
    { "]]", H(SYMBOL_SQUARE) },
    { "{", H(SYMBOL_BRACE) },
    { "|", H(SYMBOL_OP) },
    { "||", H(SYMBOL_OP) },
    { "}", H(SYMBOL_BRACE) },
    { "~", H(SYMBOL_OP) },
};
