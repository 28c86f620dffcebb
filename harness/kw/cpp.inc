constexpr CKw kws[] {
    { "_Alignas", H(KEYWORD), "c" },
    { "_Alignof", H(KEYWORD), "c" },
    { "_Atomic", H(KEYWORD), "c_cpp" },
    { "_BitInt", H(KEYWORD_TYPE), "c" },
    { "_Bool", H(KEYWORD_TYPE), "c" },
    { "_Complex", H(KEYWORD), "c" },
    { "_Decimal128", H(KEYWORD_TYPE), "c" },
    { "_Decimal32", H(KEYWORD_TYPE), "c" },
    { "_Decimal64", H(KEYWORD_TYPE), "c" },
    { "_ExtInt", H(KEYWORD_TYPE), "ext" },
    { "_Float128", H(KEYWORD_TYPE), "c" },
    { "_Float128x", H(KEYWORD_TYPE), "c" },
    { "_Float16", H(KEYWORD_TYPE), "c" },
    { "_Float32", H(KEYWORD_TYPE), "c" },
    { "_Float32x", H(KEYWORD_TYPE), "c" },
    { "_Float64", H(KEYWORD_TYPE), "c" },
    { "_Float64x", H(KEYWORD_TYPE), "c" },
    { "_Generic", H(KEYWORD), "c" },
    { "_Imaginary", H(KEYWORD), "c" },
    { "_Noreturn", H(KEYWORD), "c" },
    { "_Pragma", H(KEYWORD), "c_cpp" },
    { "_Static_assert", H(KEYWORD), "c" },
    { "_Thread_local", H(KEYWORD), "c" },
    { "__asm__", H(KEYWORD), "ext" },
    { "__attribute__", H(KEYWORD), "ext" },
    { "__extension__", H(KEYWORD), "ext" },
    { "__float128", H(KEYWORD_TYPE), "ext" },
    { "__float80", H(KEYWORD_TYPE), "ext" },
    { "__fp16", H(KEYWORD_TYPE), "ext" },
    { "__ibm128", H(KEYWORD_TYPE), "ext" },
    { "__imag__", H(KEYWORD), "ext" },
    { "__int128", H(KEYWORD_TYPE), "ext" },
    { "__int16", H(KEYWORD_TYPE), "ext" },
    { "__int256", H(KEYWORD_TYPE), "ext" },
    { "__int32", H(KEYWORD_TYPE), "ext" },
    { "__int64", H(KEYWORD_TYPE), "ext" },
    { "__int8", H(KEYWORD_TYPE), "ext" },
    { "__label__", H(KEYWORD), "ext" },
    { "__m128", H(KEYWORD_TYPE), "ext" },
    { "__m128d", H(KEYWORD_TYPE), "ext" },
    { "__m128i", H(KEYWORD_TYPE), "ext" },
    { "__m256", H(KEYWORD_TYPE), "ext" },
    { "__m256d", H(KEYWORD_TYPE), "ext" },
    { "__m256i", H(KEYWORD_TYPE), "ext" },
    { "__m512", H(KEYWORD_TYPE), "ext" },
    { "__m512d", H(KEYWORD_TYPE), "ext" },
    { "__m512i", H(KEYWORD_TYPE), "ext" },
    { "__m64", H(KEYWORD_TYPE), "ext" },
    { "__mmask16", H(KEYWORD_TYPE), "ext" },
    { "__mmask32", H(KEYWORD_TYPE), "ext" },
    { "__mmask64", H(KEYWORD_TYPE), "ext" },
    { "__mmask8", H(KEYWORD_TYPE), "ext" },
    { "__ptr32", H(KEYWORD_TYPE), "ext" },
    { "__ptr64", H(KEYWORD_TYPE), "ext" },
    { "__real__", H(KEYWORD), "ext" },
    { "__restrict", H(KEYWORD), "ext" },
    { "alignas", H(KEYWORD), "c_cpp" },
    { "alignof", H(KEYWORD), "c_cpp" },
    { "and", H(KEYWORD), "c_cpp" },
    { "and_eq", H(KEYWORD), "c_cpp" },
    { "asm", H(KEYWORD_CONTROL), "c_cpp" },
    { "auto", H(KEYWORD), "c_cpp" },
    { "bitand", H(KEYWORD), "c_cpp" },
    { "bitor", H(KEYWORD), "c_cpp" },
    { "bool", H(KEYWORD_TYPE), "c_cpp" },
    { "break", H(KEYWORD_CONTROL), "c_cpp" },
    { "case", H(KEYWORD_CONTROL), "c_cpp" },
    { "catch", H(KEYWORD_CONTROL), "c_cpp" },
    { "char", H(KEYWORD_TYPE), "c_cpp" },
    { "char16_t", H(KEYWORD_TYPE), "cpp" },
    { "char32_t", H(KEYWORD_TYPE), "cpp" },
    { "char8_t", H(KEYWORD_TYPE), "cpp" },
    { "class", H(KEYWORD), "cpp" },
    { "co_await", H(KEYWORD_CONTROL), "cpp" },
    { "co_return", H(KEYWORD_CONTROL), "cpp" },
    { "co_yield", H(KEYWORD_CONTROL), "cpp" },
    { "compl", H(KEYWORD), "c_cpp" },
    { "complex", H(KEYWORD), "c" },
    { "concept", H(KEYWORD), "cpp" },
    { "const", H(KEYWORD), "c_cpp" },
    { "const_cast", H(KEYWORD), "cpp" },
    { "consteval", H(KEYWORD), "cpp" },
    { "constexpr", H(KEYWORD), "c_cpp" },
    { "constinit", H(KEYWORD), "cpp" },
    { "continue", H(KEYWORD_CONTROL), "c_cpp" },
    { "contract_assert", H(KEYWORD), "cpp" },
    { "decltype", H(KEYWORD), "cpp" },
    { "default", H(KEYWORD), "c_cpp" },
    { "delete", H(KEYWORD), "cpp" },
    { "do", H(KEYWORD_CONTROL), "c_cpp" },
    { "double", H(KEYWORD_TYPE), "c_cpp" },
    { "dynamic_cast", H(KEYWORD), "cpp" },
    { "else", H(KEYWORD_CONTROL), "c_cpp" },
    { "enum", H(KEYWORD), "c_cpp" },
    { "explicit", H(KEYWORD), "cpp" },
    { "export", H(KEYWORD), "cpp" },
    { "extern", H(KEYWORD), "c_cpp" },
    { "false", H(BOOL), "c_cpp" },
    { "final", H(KEYWORD), "cpp" },
    { "float", H(KEYWORD_TYPE), "c_cpp" },
    { "for", H(KEYWORD_CONTROL), "c_cpp" },
    { "friend", H(KEYWORD), "cpp" },
    { "goto", H(KEYWORD_CONTROL), "c_cpp" },
    { "if", H(KEYWORD_CONTROL), "c_cpp" },
    { "imaginary", H(KEYWORD), "c" },
    { "import", H(KEYWORD), "cpp" },
    { "inline", H(KEYWORD), "c_cpp" },
    { "int", H(KEYWORD_TYPE), "c_cpp" },
    { "long", H(KEYWORD_TYPE), "c_cpp" },
    { "module", H(KEYWORD), "cpp" },
    { "mutable", H(KEYWORD), "cpp" },
    { "namespace", H(KEYWORD), "cpp" },
    { "new", H(KEYWORD), "cpp" },
    { "noexcept", H(KEYWORD), "cpp" },
    { "noreturn", H(KEYWORD), "c" },
    { "not", H(KEYWORD), "c_cpp" },
    { "not_eq", H(KEYWORD), "c_cpp" },
    { "nullptr", H(NULL), "c_cpp" },
    { "operator", H(KEYWORD), "cpp" },
    { "or", H(KEYWORD), "c_cpp" },
    { "or_eq", H(KEYWORD), "c_cpp" },
    { "override", H(KEYWORD), "cpp" },
    { "post", H(KEYWORD), "cpp" },
    { "pre", H(KEYWORD), "cpp" },
    { "private", H(KEYWORD), "cpp" },
    { "protected", H(KEYWORD), "cpp" },
    { "public", H(KEYWORD), "cpp" },
    { "register", H(KEYWORD), "c_cpp" },
    { "reinterpret_cast", H(KEYWORD), "cpp" },
    { "replaceable_if_eligible", H(KEYWORD), "cpp" },
    { "requires", H(KEYWORD), "cpp" },
    { "restrict", H(KEYWORD), "c" },
    { "return", H(KEYWORD_CONTROL), "c_cpp" },
    { "short", H(KEYWORD_TYPE), "c_cpp" },
    { "signed", H(KEYWORD_TYPE), "c_cpp" },
    { "sizeof", H(KEYWORD), "c_cpp" },
    { "static", H(KEYWORD), "c_cpp" },
    { "static_assert", H(KEYWORD), "c_cpp" },
    { "static_cast", H(KEYWORD), "cpp" },
    { "struct", H(KEYWORD), "c_cpp" },
    { "switch", H(KEYWORD_CONTROL), "c_cpp" },
    { "template", H(KEYWORD), "cpp" },
    { "this", H(KEYWORD_THIS), "cpp" },
    { "thread_local", H(KEYWORD), "c_cpp" },
    { "throw", H(KEYWORD), "cpp" },
    { "trivially_relocatable_if_eligible", H(KEYWORD), "cpp" },
    { "true", H(BOOL), "c_cpp" },
    { "try", H(KEYWORD), "cpp" },
    { "typedef", H(KEYWORD), "c_cpp" },
    { "typeid", H(KEYWORD), "cpp" },
    { "typename", H(KEYWORD), "cpp" },
    { "typeof", H(KEYWORD), "c" },
    { "typeof_unqual", H(KEYWORD), "c" },
    { "union", H(KEYWORD), "c_cpp" },
    { "unsigned", H(KEYWORD_TYPE), "c_cpp" },
    { "using", H(KEYWORD), "cpp" },
    { "virtual", H(KEYWORD), "cpp" },
    { "void", H(KEYWORD_TYPE), "c_cpp" },
    { "volatile", H(KEYWORD), "c_cpp" },
    { "wchar_t", H(KEYWORD_TYPE), "cpp" },
    { "while", H(KEYWORD_CONTROL), "c_cpp" },
    { "xor", H(KEYWORD), "c_cpp" },
    { "xor_eq", H(KEYWORD), "c_cpp" },
};
constexpr CKw puncs[] {
    { "!", H(SYMBOL_OP), "c_cpp" },
    { "!=", H(SYMBOL_OP), "c_cpp" },
    { "#", H(NAME_MACRO_DELIM), "c_cpp" },
    { "##", H(NAME_MACRO_DELIM), "c_cpp" },
    { "%", H(SYMBOL_OP), "c_cpp" },
    { "%:", H(NAME_MACRO_DELIM), "c_cpp" },
    { "%:%:", H(NAME_MACRO_DELIM), "c_cpp" },
    { "%=", H(SYMBOL_OP), "c_cpp" },
    { "%>", H(SYMBOL_BRACE), "c_cpp" },
    { "&", H(SYMBOL_OP), "c_cpp" },
    { "&&", H(SYMBOL_OP), "c_cpp" },
    { "&=", H(SYMBOL_OP), "c_cpp" },
    { "(", H(SYMBOL_PARENS), "c_cpp" },
    { ")", H(SYMBOL_PARENS), "c_cpp" },
    { "*", H(SYMBOL_OP), "c_cpp" },
    { "*=", H(SYMBOL_OP), "c_cpp" },
    { "+", H(SYMBOL_OP), "c_cpp" },
    { "++", H(SYMBOL_OP), "c_cpp" },
    { "+=", H(SYMBOL_OP), "c_cpp" },
    { ",", H(SYMBOL_PUNC), "c_cpp" },
    { "-", H(SYMBOL_OP), "c_cpp" },
    { "--", H(SYMBOL_OP), "c_cpp" },
    { "-=", H(SYMBOL_OP), "c_cpp" },
    { "->", H(SYMBOL_OP), "c_cpp" },
    { "->*", H(SYMBOL_OP), "cpp" },
    { ".", H(SYMBOL_OP), "c_cpp" },
    { ".*", H(SYMBOL_OP), "cpp" },
    { "...", H(SYMBOL_OP), "c_cpp" },
    { "/", H(SYMBOL_OP), "c_cpp" },
    { "/=", H(SYMBOL_OP), "c_cpp" },
    { ":", H(SYMBOL_PUNC), "c_cpp" },
    { "::", H(SYMBOL_OP), "cpp" },
    { ":>", H(SYMBOL_SQUARE), "c_cpp" },
    { ";", H(SYMBOL_PUNC), "c_cpp" },
    { "<", H(SYMBOL_OP), "c_cpp" },
    { "<%", H(SYMBOL_BRACE), "c_cpp" },
    { "<:", H(SYMBOL_SQUARE), "c_cpp" },
    { "<<", H(SYMBOL_OP), "c_cpp" },
    { "<<=", H(SYMBOL_OP), "c_cpp" },
    { "<=", H(SYMBOL_OP), "c_cpp" },
    { "<=>", H(SYMBOL_OP), "cpp" },
    { "=", H(SYMBOL_OP), "c_cpp" },
    { "==", H(SYMBOL_OP), "c_cpp" },
    { ">", H(SYMBOL_OP), "c_cpp" },
    { ">=", H(SYMBOL_OP), "c_cpp" },
    { ">>", H(SYMBOL_OP), "c_cpp" },
    { ">>=", H(SYMBOL_OP), "c_cpp" },
    { "?", H(SYMBOL_OP), "c_cpp" },
    { "[", H(SYMBOL_SQUARE), "c_cpp" },
    { "]", H(SYMBOL_SQUARE), "c_cpp" },
    { "^", H(SYMBOL_OP), "c_cpp" },
    { "^=", H(SYMBOL_OP), "c_cpp" },
    { "^^", H(SYMBOL_OP), "cpp" },
    { "{", H(SYMBOL_BRACE), "c_cpp" },
    { "|", H(SYMBOL_OP), "c_cpp" },
    { "|=", H(SYMBOL_OP), "c_cpp" },
    { "||", H(SYMBOL_OP), "c_cpp" },
    { "}", H(SYMBOL_BRACE), "c_cpp" },
    { "~", H(SYMBOL_OP), "c_cpp" },
};
