constexpr JKw kws[] {
    { "abstract", H(KEYWORD), "ts" },
    { "any", H(KEYWORD_TYPE), "ts" },
    { "as", H(KEYWORD), "js_ts" },
    { "asserts", H(KEYWORD), "ts" },
    { "async", H(KEYWORD), "js_ts" },
    { "await", H(KEYWORD), "js_ts" },
    { "boolean", H(NAME_TYPE_BUILTIN), "js_ts" },
    { "break", H(KEYWORD_CONTROL), "js_ts" },
    { "case", H(KEYWORD_CONTROL), "js_ts" },
    { "catch", H(KEYWORD_CONTROL), "js_ts" },
    { "class", H(KEYWORD), "js_ts" },
    { "const", H(KEYWORD), "js_ts" },
    { "constructor", H(KEYWORD), "ts" },
    { "continue", H(KEYWORD_CONTROL), "js_ts" },
    { "debugger", H(KEYWORD), "js_ts" },
    { "declare", H(KEYWORD), "ts" },
    { "default", H(KEYWORD_CONTROL), "js_ts" },
    { "delete", H(KEYWORD), "js_ts" },
    { "do", H(KEYWORD_CONTROL), "js_ts" },
    { "else", H(KEYWORD_CONTROL), "js_ts" },
    { "enum", H(KEYWORD), "js_ts" },
    { "export", H(KEYWORD), "js_ts" },
    { "extends", H(KEYWORD), "js_ts" },
    { "false", H(BOOL), "js_ts" },
    { "finally", H(KEYWORD_CONTROL), "js_ts" },
    { "for", H(KEYWORD_CONTROL), "js_ts" },
    { "from", H(KEYWORD), "js_ts" },
    { "function", H(KEYWORD), "js_ts" },
    { "get", H(KEYWORD), "js_ts" },
    { "if", H(KEYWORD_CONTROL), "js_ts" },
    { "implements", H(KEYWORD), "ts" },
    { "import", H(KEYWORD), "js_ts" },
    { "in", H(KEYWORD), "js_ts" },
    { "instanceof", H(KEYWORD), "js_ts" },
    { "interface", H(KEYWORD), "ts" },
    { "is", H(KEYWORD), "ts" },
    { "let", H(KEYWORD), "js_ts" },
    { "new", H(KEYWORD), "js_ts" },
    { "null", H(NULL), "js_ts" },
    { "number", H(NAME_TYPE_BUILTIN), "js_ts" },
    { "of", H(KEYWORD), "js_ts" },
    { "private", H(KEYWORD), "ts" },
    { "protected", H(KEYWORD), "ts" },
    { "public", H(KEYWORD), "ts" },
    { "return", H(KEYWORD_CONTROL), "js_ts" },
    { "set", H(KEYWORD), "js_ts" },
    { "static", H(KEYWORD), "js_ts" },
    { "string", H(NAME_TYPE_BUILTIN), "js_ts" },
    { "super", H(KEYWORD_THIS), "js_ts" },
    { "switch", H(KEYWORD_CONTROL), "js_ts" },
    { "this", H(KEYWORD_THIS), "js_ts" },
    { "throw", H(KEYWORD_CONTROL), "js_ts" },
    { "true", H(BOOL), "js_ts" },
    { "try", H(KEYWORD_CONTROL), "js_ts" },
    { "type", H(KEYWORD), "ts" },
    { "typeof", H(KEYWORD), "js_ts" },
    { "undefined", H(NULL), "js_ts" },
    { "var", H(KEYWORD), "js_ts" },
    { "void", H(KEYWORD), "js_ts" },
    { "while", H(KEYWORD_CONTROL), "js_ts" },
    { "with", H(KEYWORD_CONTROL), "js_ts" },
    { "yield", H(KEYWORD), "js_ts" },
};
constexpr JKw puncs[] {
    { "!", H(SYMBOL_OP), "js_ts" },
    { "!=", H(SYMBOL_OP), "js_ts" },
    { "!==", H(SYMBOL_OP), "js_ts" },
    { "%", H(SYMBOL_OP), "js_ts" },
    { "%=", H(SYMBOL_OP), "js_ts" },
    { "&", H(SYMBOL_OP), "js_ts" },
    { "&&", H(SYMBOL_OP), "js_ts" },
    { "&&=", H(SYMBOL_OP), "js_ts" },
    { "&=", H(SYMBOL_OP), "js_ts" },
    { "(", H(SYMBOL_PARENS), "all" },
    { ")", H(SYMBOL_PARENS), "all" },
    { "*", H(SYMBOL_OP), "js_ts" },
    { "**", H(SYMBOL_OP), "js_ts" },
    { "**=", H(SYMBOL_OP), "js_ts" },
    { "*=", H(SYMBOL_OP), "js_ts" },
    { "+", H(SYMBOL_OP), "js_ts" },
    { "++", H(SYMBOL_OP), "js_ts" },
    { "+=", H(SYMBOL_OP), "js_ts" },
    { ",", H(SYMBOL_PUNC), "all" },
    { "-", H(SYMBOL_OP), "js_ts" },
    { "--", H(SYMBOL_OP), "js_ts" },
    { "-=", H(SYMBOL_OP), "js_ts" },
    { ".", H(SYMBOL_OP), "all" },
    { "...", H(SYMBOL_OP), "all" },
    { "/", H(SYMBOL_OP), "js_ts" },
    { "/=", H(SYMBOL_OP), "js_ts" },
    { ":", H(SYMBOL_OP), "all" },
    { ";", H(SYMBOL_PUNC), "all" },
    { "<", H(SYMBOL_OP), "all" },
    { "<<", H(SYMBOL_OP), "js_ts" },
    { "<<=", H(SYMBOL_OP), "js_ts" },
    { "<=", H(SYMBOL_OP), "js_ts" },
    { "=", H(SYMBOL_OP), "js_ts" },
    { "==", H(SYMBOL_OP), "js_ts" },
    { "===", H(SYMBOL_OP), "js_ts" },
    { "=>", H(SYMBOL_OP), "js_ts" },
    { ">", H(SYMBOL_OP), "js_ts" },
    { ">=", H(SYMBOL_OP), "js_ts" },
    { ">>", H(SYMBOL_OP), "js_ts" },
    { ">>=", H(SYMBOL_OP), "js_ts" },
    { ">>>", H(SYMBOL_OP), "js_ts" },
    { ">>>=", H(SYMBOL_OP), "js_ts" },
    { "?", H(SYMBOL_OP), "js_ts" },
    { "?.", H(SYMBOL_OP), "js_ts" },
    { "??", H(SYMBOL_OP), "js_ts" },
    { "??=", H(SYMBOL_OP), "js_ts" },
    { "@", H(SYMBOL_PUNC), "ts" },
    { "[", H(SYMBOL_SQUARE), "all" },
    { "]", H(SYMBOL_SQUARE), "all" },
    { "^", H(SYMBOL_OP), "js_ts" },
    { "^=", H(SYMBOL_OP), "js_ts" },
    { "{", H(SYMBOL_BRACE), "all" },
    { "|", H(SYMBOL_OP), "js_ts" },
    { "|=", H(SYMBOL_OP), "js_ts" },
    { "||", H(SYMBOL_OP), "js_ts" },
    { "||=", H(SYMBOL_OP), "js_ts" },
    { "}", H(SYMBOL_BRACE), "all" },
    { "~", H(SYMBOL_OP), "js_ts" },
};
