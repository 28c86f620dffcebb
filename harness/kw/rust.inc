constexpr Kw kws[] {
    { "CStr", H(NAME_TYPE) },
    { "CString", H(NAME_TYPE) },
    { "OsStr", H(NAME_TYPE) },
    { "OsString", H(NAME_TYPE) },
    { "Self", H(KEYWORD_TYPE) },
    { "String", H(NAME_TYPE) },
    { "abstract", H(KEYWORD) },
    { "as", H(KEYWORD) },
    { "async", H(KEYWORD) },
    { "await", H(KEYWORD_CONTROL) },
    { "become", H(KEYWORD) },
    { "bool", H(NAME_TYPE_BUILTIN) },
    { "box", H(KEYWORD) },
    { "break", H(KEYWORD_CONTROL) },
    { "char", H(NAME_TYPE_BUILTIN) },
    { "const", H(KEYWORD) },
    { "continue", H(KEYWORD_CONTROL) },
    { "crate", H(KEYWORD) },
    { "do", H(KEYWORD_CONTROL) },
    { "dyn", H(KEYWORD) },
    { "else", H(KEYWORD_CONTROL) },
    { "enum", H(KEYWORD) },
    { "extern", H(KEYWORD) },
    { "f32", H(NAME_TYPE_BUILTIN) },
    { "f64", H(NAME_TYPE_BUILTIN) },
    { "false", H(BOOL) },
    { "final", H(KEYWORD) },
    { "fn", H(KEYWORD) },
    { "for", H(KEYWORD_CONTROL) },
    { "gen", H(KEYWORD) },
    { "i128", H(NAME_TYPE_BUILTIN) },
    { "i16", H(NAME_TYPE_BUILTIN) },
    { "i32", H(NAME_TYPE_BUILTIN) },
    { "i64", H(NAME_TYPE_BUILTIN) },
    { "i8", H(NAME_TYPE_BUILTIN) },
    { "if", H(KEYWORD_CONTROL) },
    { "impl", H(KEYWORD) },
    { "in", H(KEYWORD) },
    { "isize", H(NAME_TYPE_BUILTIN) },
    { "let", H(KEYWORD) },
    { "loop", H(KEYWORD_CONTROL) },
    { "macro", H(KEYWORD) },
    { "macro_rules", H(KEYWORD) },
    { "match", H(KEYWORD_CONTROL) },
    { "mod", H(KEYWORD) },
    { "move", H(KEYWORD) },
    { "mut", H(KEYWORD) },
    { "override", H(KEYWORD) },
    { "priv", H(KEYWORD) },
    { "pub", H(KEYWORD) },
    { "raw", H(KEYWORD) },
    { "ref", H(KEYWORD) },
    { "return", H(KEYWORD_CONTROL) },
    { "safe", H(KEYWORD) },
    { "self", H(KEYWORD_THIS) },
    { "static", H(KEYWORD) },
    { "str", H(NAME_TYPE_BUILTIN) },
    { "struct", H(KEYWORD) },
    { "super", H(KEYWORD_THIS) },
    { "trait", H(KEYWORD) },
    { "true", H(BOOL) },
    { "try", H(KEYWORD_CONTROL) },
    { "type", H(KEYWORD) },
    { "typeof", H(KEYWORD) },
    { "u128", H(NAME_TYPE_BUILTIN) },
    { "u16", H(NAME_TYPE_BUILTIN) },
    { "u32", H(NAME_TYPE_BUILTIN) },
    { "u64", H(NAME_TYPE_BUILTIN) },
    { "u8", H(NAME_TYPE_BUILTIN) },
    { "union", H(KEYWORD) },
    { "unsafe", H(KEYWORD) },
    { "unsized", H(KEYWORD) },
    { "use", H(KEYWORD) },
    { "usize", H(NAME_TYPE_BUILTIN) },
    { "virtual", H(KEYWORD) },
    { "where", H(KEYWORD) },
    { "while", H(KEYWORD_CONTROL) },
    { "yield", H(KEYWORD_CONTROL) },
};
constexpr Kw puncs[] {
    { "!", H(SYMBOL_OP) },
    { "!=", H(SYMBOL_OP) },
    { "#", H(SYMBOL_PUNC) },
    { "$", H(SYMBOL_PUNC) },
    { "~", H(SYMBOL_OP) },
    { "%", H(SYMBOL_OP) },
    { "%=", H(SYMBOL_OP) },
    { "&", H(SYMBOL_OP) },
    { "&&", H(SYMBOL_OP) },
    { "&=", H(SYMBOL_OP) },
    { "(", H(SYMBOL_PARENS) },
    { ")", H(SYMBOL_PARENS) },
    { "*", H(SYMBOL_OP) },
    { "*=", H(SYMBOL_OP) },
    { "+", H(SYMBOL_OP) },
    { "+=", H(SYMBOL_OP) },
    { ",", H(SYMBOL_PUNC) },
    { "-", H(SYMBOL_OP) },
    { "-=", H(SYMBOL_OP) },
    { "->", H(SYMBOL_PUNC) },
    { ".", H(SYMBOL_PUNC) },
    { "..", H(SYMBOL_OP) },
    { "...", H(SYMBOL_OP) },
    { "..=", H(SYMBOL_OP) },
    { "/", H(SYMBOL_OP) },
    { "/=", H(SYMBOL_OP) },
    { ":", H(SYMBOL_PUNC) },
    { "::", H(SYMBOL_OP) },
    { ";", H(SYMBOL_PUNC) },
    { "<", H(SYMBOL_OP) },
    { "<-", H(SYMBOL_PUNC) },
    { "<<", H(SYMBOL_OP) },
    { "<<=", H(SYMBOL_OP) },
    { "<=", H(SYMBOL_OP) },
    { "=", H(SYMBOL_PUNC) },
    { "==", H(SYMBOL_OP) },
    { "=>", H(SYMBOL_PUNC) },
    { ">", H(SYMBOL_OP) },
    { ">=", H(SYMBOL_OP) },
    { ">>", H(SYMBOL_OP) },
    { ">>=", H(SYMBOL_OP) },
    { "?", H(SYMBOL_OP) },
    { "@", H(SYMBOL_OP) },
    { "[", H(SYMBOL_SQUARE) },
    { "\\", H(STRING_ESCAPE) },
    { "]", H(SYMBOL_SQUARE) },
    { "^", H(SYMBOL_OP) },
    { "^=", H(SYMBOL_OP) },
    { "{", H(SYMBOL_BRACE) },
    { "|", H(SYMBOL_OP) },
    { "|=", H(SYMBOL_OP) },
    { "||", H(SYMBOL_OP) },
    { "}", H(SYMBOL_BRACE) },
};
