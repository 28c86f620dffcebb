case 0x01: // ULIGHT_HL_ERROR
case 0x10: // ULIGHT_HL_COMMENT
case 0x11: // ULIGHT_HL_COMMENT_DELIM
case 0x12: // ULIGHT_HL_COMMENT_DOC
case 0x13: // ULIGHT_HL_COMMENT_DOC_DELIM
case 0x20: // ULIGHT_HL_VALUE
case 0x21: // ULIGHT_HL_VALUE_DELIM
case 0x22: // ULIGHT_HL_NULL
case 0x24: // ULIGHT_HL_BOOL
case 0x30: // ULIGHT_HL_NUMBER
case 0x31: // ULIGHT_HL_NUMBER_DELIM
case 0x32: // ULIGHT_HL_NUMBER_DECOR
case 0x38: // ULIGHT_HL_STRING
case 0x39: // ULIGHT_HL_STRING_DELIM
case 0x3a: // ULIGHT_HL_STRING_DECOR
case 0x3c: // ULIGHT_HL_STRING_ESCAPE
case 0x3e: // ULIGHT_HL_STRING_INTERPOLATION
case 0x3f: // ULIGHT_HL_STRING_INTERPOLATION_DELIM
case 0x40: // ULIGHT_HL_NAME
case 0x41: // ULIGHT_HL_NAME_DECL
case 0x42: // ULIGHT_HL_NAME_BUILTIN
case 0x43: // ULIGHT_HL_NAME_DELIM
case 0x44: // ULIGHT_HL_NAME_VAR
case 0x45: // ULIGHT_HL_NAME_VAR_DECL
case 0x46: // ULIGHT_HL_NAME_VAR_BUILTIN
case 0x47: // ULIGHT_HL_NAME_VAR_DELIM
case 0x48: // ULIGHT_HL_NAME_CONST
case 0x49: // ULIGHT_HL_NAME_CONST_DECL
case 0x4a: // ULIGHT_HL_NAME_CONST_BUILTIN
case 0x4b: // ULIGHT_HL_NAME_CONST_DELIM
case 0x4c: // ULIGHT_HL_NAME_FUNCTION
case 0x4d: // ULIGHT_HL_NAME_FUNCTION_DECL
case 0x4e: // ULIGHT_HL_NAME_FUNCTION_BUILTIN
case 0x4f: // ULIGHT_HL_NAME_FUNCTION_DELIM
case 0x50: // ULIGHT_HL_NAME_TYPE
case 0x51: // ULIGHT_HL_NAME_TYPE_DECL
case 0x52: // ULIGHT_HL_NAME_TYPE_BUILTIN
case 0x53: // ULIGHT_HL_NAME_TYPE_DELIM
case 0x54: // ULIGHT_HL_NAME_MODULE
case 0x55: // ULIGHT_HL_NAME_MODULE_DECL
case 0x56: // ULIGHT_HL_NAME_MODULE_BUILTIN
case 0x57: // ULIGHT_HL_NAME_MODULE_DELIM
case 0x58: // ULIGHT_HL_NAME_LABEL
case 0x59: // ULIGHT_HL_NAME_LABEL_DECL
case 0x5a: // ULIGHT_HL_NAME_LABEL_BUILTIN
case 0x5b: // ULIGHT_HL_NAME_LABEL_DELIM
case 0x5c: // ULIGHT_HL_NAME_PARAMETER
case 0x5d: // ULIGHT_HL_NAME_PARAMETER_DECL
case 0x5e: // ULIGHT_HL_NAME_PARAMETER_BUILTIN
case 0x5f: // ULIGHT_HL_NAME_PARAMETER_DELIM
case 0x60: // ULIGHT_HL_NAME_NONTERMINAL
case 0x61: // ULIGHT_HL_NAME_NONTERMINAL_DECL
case 0x62: // ULIGHT_HL_NAME_NONTERMINAL_BUILTIN
case 0x63: // ULIGHT_HL_NAME_NONTERMINAL_DELIM
case 0x64: // ULIGHT_HL_NAME_LIFETIME
case 0x65: // ULIGHT_HL_NAME_LIFETIME_DECL
case 0x66: // ULIGHT_HL_NAME_LIFETIME_BUILTIN
case 0x67: // ULIGHT_HL_NAME_LIFETIME_DELIM
case 0x68: // ULIGHT_HL_NAME_INSTRUCTION
case 0x69: // ULIGHT_HL_NAME_INSTRUCTION_DECL
case 0x6a: // ULIGHT_HL_NAME_INSTRUCTION_PSEUDO
case 0x6b: // ULIGHT_HL_NAME_INSTRUCTION_DELIM
case 0x6c: // ULIGHT_HL_NAME_ATTR
case 0x6d: // ULIGHT_HL_NAME_ATTR_DECL
case 0x6e: // ULIGHT_HL_NAME_ATTR_BUILTIN
case 0x6f: // ULIGHT_HL_NAME_ATTR_DELIM
case 0x70: // ULIGHT_HL_NAME_SHELL_COMMAND
case 0x71: // ULIGHT_HL_NAME_SHELL_COMMAND_DECL
case 0x72: // ULIGHT_HL_NAME_SHELL_COMMAND_BUILTIN
case 0x73: // ULIGHT_HL_NAME_SHELL_COMMAND_DELIM
case 0x74: // ULIGHT_HL_NAME_SHELL_OPTION
case 0x75: // ULIGHT_HL_NAME_SHELL_OPTION_DECL
case 0x76: // ULIGHT_HL_NAME_SHELL_OPTION_BUILTIN
case 0x77: // ULIGHT_HL_NAME_SHELL_OPTION_DELIM
case 0x78: // ULIGHT_HL_NAME_MACRO
case 0x79: // ULIGHT_HL_NAME_MACRO_DECL
case 0x7a: // ULIGHT_HL_NAME_MACRO_BUILTIN
case 0x7b: // ULIGHT_HL_NAME_MACRO_DELIM
case 0x7c: // ULIGHT_HL_NAME_DIRECTIVE
case 0x7d: // ULIGHT_HL_NAME_DIRECTIVE_DECL
case 0x7e: // ULIGHT_HL_NAME_DIRECTIVE_BUILTIN
case 0x7f: // ULIGHT_HL_NAME_DIRECTIVE_DELIM
case 0x90: // ULIGHT_HL_KEYWORD
case 0x91: // ULIGHT_HL_KEYWORD_CONTROL
case 0x92: // ULIGHT_HL_KEYWORD_TYPE
case 0x93: // ULIGHT_HL_KEYWORD_OP
case 0x94: // ULIGHT_HL_KEYWORD_THIS
case 0xa0: // ULIGHT_HL_DIFF_HEADING
case 0xa1: // ULIGHT_HL_DIFF_HEADING_DELIM
case 0xa2: // ULIGHT_HL_DIFF_HEADING_HUNK
case 0xa3: // ULIGHT_HL_DIFF_HEADING_HUNK_DELIM
case 0xa8: // ULIGHT_HL_DIFF_COMMON
case 0xa9: // ULIGHT_HL_DIFF_COMMON_DELIM
case 0xaa: // ULIGHT_HL_DIFF_DELETION
case 0xab: // ULIGHT_HL_DIFF_DELETION_DELIM
case 0xac: // ULIGHT_HL_DIFF_INSERTION
case 0xad: // ULIGHT_HL_DIFF_INSERTION_DELIM
case 0xae: // ULIGHT_HL_DIFF_MODIFICATION
case 0xaf: // ULIGHT_HL_DIFF_MODIFICATION_DELIM
case 0xb0: // ULIGHT_HL_MARKUP_TAG
case 0xb1: // ULIGHT_HL_MARKUP_TAG_DECL
case 0xb2: // ULIGHT_HL_MARKUP_TAG_BUILTIN
case 0xb3: // ULIGHT_HL_MARKUP_TAG_DELIM
case 0xb4: // ULIGHT_HL_MARKUP_ATTR
case 0xb5: // ULIGHT_HL_MARKUP_ATTR_DECL
case 0xb6: // ULIGHT_HL_MARKUP_ATTR_BUILTIN
case 0xb7: // ULIGHT_HL_MARKUP_ATTR_DELIM
case 0xc0: // ULIGHT_HL_TEXT
case 0xc1: // ULIGHT_HL_TEXT_HEADING
case 0xc2: // ULIGHT_HL_TEXT_LINK
case 0xc3: // ULIGHT_HL_TEXT_MARK
case 0xc4: // ULIGHT_HL_TEXT_MATH
case 0xc5: // ULIGHT_HL_TEXT_SUBSCRIPT
case 0xc6: // ULIGHT_HL_TEXT_SUPERSCRIPT
case 0xc7: // ULIGHT_HL_TEXT_QUOTE
case 0xc8: // ULIGHT_HL_TEXT_SMALL
case 0xd0: // ULIGHT_HL_TEXT_MONO
case 0xd1: // ULIGHT_HL_TEXT_CODE
case 0xd2: // ULIGHT_HL_TEXT_ITALIC
case 0xd3: // ULIGHT_HL_TEXT_EMPH
case 0xd4: // ULIGHT_HL_TEXT_BOLD
case 0xd5: // ULIGHT_HL_TEXT_STRONG
case 0xd6: // ULIGHT_HL_TEXT_UNDERLINE
case 0xd7: // ULIGHT_HL_TEXT_INSERTION
case 0xd8: // ULIGHT_HL_TEXT_STRIKETHROUGH
case 0xd9: // ULIGHT_HL_TEXT_DELETION
case 0xe0: // ULIGHT_HL_SYMBOL
case 0xe1: // ULIGHT_HL_SYMBOL_PUNC
case 0xe2: // ULIGHT_HL_SYMBOL_OP
case 0xe3: // ULIGHT_HL_SYMBOL_FORMATTING
case 0xe4: // ULIGHT_HL_SYMBOL_BRACKET
case 0xe5: // ULIGHT_HL_SYMBOL_PARENS
case 0xe6: // ULIGHT_HL_SYMBOL_SQUARE
case 0xe7: // ULIGHT_HL_SYMBOL_BRACE
