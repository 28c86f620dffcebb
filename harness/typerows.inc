{ "NONE", 0x00 },
{ "ERROR", 0x01 },
{ "COMMENT", 0x10 },
{ "COMMENT_DELIM", 0x11 },
{ "COMMENT_DOC", 0x12 },
{ "COMMENT_DOC_DELIM", 0x13 },
{ "VALUE", 0x20 },
{ "VALUE_DELIM", 0x21 },
{ "NULL", 0x22 },
{ "BOOL", 0x24 },
{ "NUMBER", 0x30 },
{ "NUMBER_DELIM", 0x31 },
{ "NUMBER_DECOR", 0x32 },
{ "STRING", 0x38 },
{ "STRING_DELIM", 0x39 },
{ "STRING_DECOR", 0x3a },
{ "STRING_ESCAPE", 0x3c },
{ "STRING_INTERPOLATION", 0x3e },
{ "STRING_INTERPOLATION_DELIM", 0x3f },
{ "NAME", 0x40 },
{ "NAME_DECL", 0x41 },
{ "NAME_BUILTIN", 0x42 },
{ "NAME_DELIM", 0x43 },
{ "NAME_VAR", 0x44 },
{ "NAME_VAR_DECL", 0x45 },
{ "NAME_VAR_BUILTIN", 0x46 },
{ "NAME_VAR_DELIM", 0x47 },
{ "NAME_CONST", 0x48 },
{ "NAME_CONST_DECL", 0x49 },
{ "NAME_CONST_BUILTIN", 0x4a },
{ "NAME_CONST_DELIM", 0x4b },
{ "NAME_FUNCTION", 0x4c },
{ "NAME_FUNCTION_DECL", 0x4d },
{ "NAME_FUNCTION_BUILTIN", 0x4e },
{ "NAME_FUNCTION_DELIM", 0x4f },
{ "NAME_TYPE", 0x50 },
{ "NAME_TYPE_DECL", 0x51 },
{ "NAME_TYPE_BUILTIN", 0x52 },
{ "NAME_TYPE_DELIM", 0x53 },
{ "NAME_MODULE", 0x54 },
{ "NAME_MODULE_DECL", 0x55 },
{ "NAME_MODULE_BUILTIN", 0x56 },
{ "NAME_MODULE_DELIM", 0x57 },
{ "NAME_LABEL", 0x58 },
{ "NAME_LABEL_DECL", 0x59 },
{ "NAME_LABEL_BUILTIN", 0x5a },
{ "NAME_LABEL_DELIM", 0x5b },
{ "NAME_PARAMETER", 0x5c },
{ "NAME_PARAMETER_DECL", 0x5d },
{ "NAME_PARAMETER_BUILTIN", 0x5e },
{ "NAME_PARAMETER_DELIM", 0x5f },
{ "NAME_NONTERMINAL", 0x60 },
{ "NAME_NONTERMINAL_DECL", 0x61 },
{ "NAME_NONTERMINAL_BUILTIN", 0x62 },
{ "NAME_NONTERMINAL_DELIM", 0x63 },
{ "NAME_LIFETIME", 0x64 },
{ "NAME_LIFETIME_DECL", 0x65 },
{ "NAME_LIFETIME_BUILTIN", 0x66 },
{ "NAME_LIFETIME_DELIM", 0x67 },
{ "NAME_INSTRUCTION", 0x68 },
{ "NAME_INSTRUCTION_DECL", 0x69 },
{ "NAME_INSTRUCTION_PSEUDO", 0x6a },
{ "NAME_INSTRUCTION_DELIM", 0x6b },
{ "NAME_ATTR", 0x6c },
{ "NAME_ATTR_DECL", 0x6d },
{ "NAME_ATTR_BUILTIN", 0x6e },
{ "NAME_ATTR_DELIM", 0x6f },
{ "NAME_SHELL_COMMAND", 0x70 },
{ "NAME_SHELL_COMMAND_DECL", 0x71 },
{ "NAME_SHELL_COMMAND_BUILTIN", 0x72 },
{ "NAME_SHELL_COMMAND_DELIM", 0x73 },
{ "NAME_SHELL_OPTION", 0x74 },
{ "NAME_SHELL_OPTION_DECL", 0x75 },
{ "NAME_SHELL_OPTION_BUILTIN", 0x76 },
{ "NAME_SHELL_OPTION_DELIM", 0x77 },
{ "NAME_MACRO", 0x78 },
{ "NAME_MACRO_DECL", 0x79 },
{ "NAME_MACRO_BUILTIN", 0x7a },
{ "NAME_MACRO_DELIM", 0x7b },
{ "NAME_DIRECTIVE", 0x7c },
{ "NAME_DIRECTIVE_DECL", 0x7d },
{ "NAME_DIRECTIVE_BUILTIN", 0x7e },
{ "NAME_DIRECTIVE_DELIM", 0x7f },
{ "KEYWORD", 0x90 },
{ "KEYWORD_CONTROL", 0x91 },
{ "KEYWORD_TYPE", 0x92 },
{ "KEYWORD_OP", 0x93 },
{ "KEYWORD_THIS", 0x94 },
{ "DIFF_HEADING", 0xa0 },
{ "DIFF_HEADING_DELIM", 0xa1 },
{ "DIFF_HEADING_HUNK", 0xa2 },
{ "DIFF_HEADING_HUNK_DELIM", 0xa3 },
{ "DIFF_COMMON", 0xa8 },
{ "DIFF_COMMON_DELIM", 0xa9 },
{ "DIFF_DELETION", 0xaa },
{ "DIFF_DELETION_DELIM", 0xab },
{ "DIFF_INSERTION", 0xac },
{ "DIFF_INSERTION_DELIM", 0xad },
{ "DIFF_MODIFICATION", 0xae },
{ "DIFF_MODIFICATION_DELIM", 0xaf },
{ "MARKUP_TAG", 0xb0 },
{ "MARKUP_TAG_DECL", 0xb1 },
{ "MARKUP_TAG_BUILTIN", 0xb2 },
{ "MARKUP_TAG_DELIM", 0xb3 },
{ "MARKUP_ATTR", 0xb4 },
{ "MARKUP_ATTR_DECL", 0xb5 },
{ "MARKUP_ATTR_BUILTIN", 0xb6 },
{ "MARKUP_ATTR_DELIM", 0xb7 },
{ "TEXT", 0xc0 },
{ "TEXT_HEADING", 0xc1 },
{ "TEXT_LINK", 0xc2 },
{ "TEXT_MARK", 0xc3 },
{ "TEXT_MATH", 0xc4 },
{ "TEXT_SUBSCRIPT", 0xc5 },
{ "TEXT_SUPERSCRIPT", 0xc6 },
{ "TEXT_QUOTE", 0xc7 },
{ "TEXT_SMALL", 0xc8 },
{ "TEXT_MONO", 0xd0 },
{ "TEXT_CODE", 0xd1 },
{ "TEXT_ITALIC", 0xd2 },
{ "TEXT_EMPH", 0xd3 },
{ "TEXT_BOLD", 0xd4 },
{ "TEXT_STRONG", 0xd5 },
{ "TEXT_UNDERLINE", 0xd6 },
{ "TEXT_INSERTION", 0xd7 },
{ "TEXT_STRIKETHROUGH", 0xd8 },
{ "TEXT_DELETION", 0xd9 },
{ "SYMBOL", 0xe0 },
{ "SYMBOL_PUNC", 0xe1 },
{ "SYMBOL_OP", 0xe2 },
{ "SYMBOL_FORMATTING", 0xe3 },
{ "SYMBOL_BRACKET", 0xe4 },
{ "SYMBOL_PARENS", 0xe5 },
{ "SYMBOL_SQUARE", 0xe6 },
{ "SYMBOL_BRACE", 0xe7 },
